"""Shared driver: building, running, verdicts, evidence."""
import atexit
import ctypes
import hashlib
import json
import multiprocessing
import multiprocessing.connection
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KWS_REPO", "/repo")
NPROC = max(2, min(8, os.cpu_count() or 2))

BASE = ["-std=gnu++14", "-w", "-fopenmp", "-I" + REPO, "-I" + VERIF + "/harness"]
SAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_DEBUG",
       "-ftrivial-auto-var-init=pattern",     # what is used uninitialised is never right by chance
       "-fsanitize=address,undefined,float-cast-overflow",
       "-fno-sanitize-recover=all"]
VARIANTS = {
    # as the test build: no NDEBUG; plus sanitizers and checked containers
    "san": ("g++", SAN),
    # the same for the tools, which take too long to build with checked iterators
    "san-tool": ("g++", [f if f != "-D_GLIBCXX_DEBUG" else "-D_GLIBCXX_ASSERTIONS" for f in SAN]),
    # as the README installs it
    "rel": ("g++", ["-O2", "-DNDEBUG"]),
    "tsan": ("g++", ["-O1", "-g1", "-fsanitize=thread"]),
    "dbg": ("g++", ["-O0", "-g"]),
}

ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "detect_leaks=1:exitcode=99:abort_on_error=0:"
                    "detect_stack_use_after_return=1:allocator_may_return_null=0:"
                    "strict_string_checks=1:malloc_context_size=8",
    "LSAN_OPTIONS": "exitcode=97:report_objects=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=96",
    "OMP_NUM_THREADS": "4",
    "LC_ALL": "C",
})


class Inconclusive(Exception):
    pass


class Ctx:
    def __init__(self, prop, level_rule, assumptions=()):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick") or "quick"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.rule = level_rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.only_case = None
        self.only_part = None
        self.stats = {}
        self.samples = []
        self.evals = 0
        self.hashes = set()
        self.viols = []          # (key, detail, replay dict)
        self.known_hits = []     # (key, detail)
        self.parts = {}
        self.scratch = tempfile.mkdtemp(prefix="kwsv-%s-" % prop)
        # so that processes of an unprivileged user could not be confused with ours
        os.chmod(self.scratch, 0o755)
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and
                        shutil.rmtree(self.scratch, ignore_errors=True))

    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough() else quick

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s if isinstance(s, (str, dict)) else str(s))

    def violation(self, key, detail, replay):
        self.viols.append((key, detail, replay))

    def part(self, name):
        return self.only_part is None or self.only_part == name

    def settled(self):
        """A violation was seen and much time is gone (runs that hang): leave the rest out."""
        return bool(self.viols) and time.time() - self.t0 > 240

    # ---- building -------------------------------------------------------
    def compile(self, src, out, variant, extra=()):
        cxx, flags = VARIANTS[variant]
        cmd = [cxx] + BASE + flags + list(extra) + [src, "-o", out, "-lpthread"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=800)
        if p.returncode != 0:
            raise RuntimeError("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
        return out

    def build(self, jobs):
        """jobs: list of (name, variant), name a tool or a harness -> dict of paths."""
        res = {}

        def one(job):
            name, variant = job
            if name in ("Icdar17KwsEval", "SimpleKwsEval"):
                src = "%s/tools/%s.cc" % (REPO, name)
            else:
                src = "%s/harness/%s.cc" % (VERIF, name)
            out = "%s/%s.%s" % (self.scratch, name, variant)
            if variant == "san" and src.startswith(REPO):
                variant = "san-tool"
            elif variant == "san-full":
                variant = "san"
            return job, self.compile(src, out, variant)

        with ThreadPoolExecutor(NPROC) as ex:
            for job, out in ex.map(one, jobs):
                res[job] = out
        return res

    # ---- library harnesses ---------------------------------------------
    def harness(self, binary, total, label, timeout=None, shards=NPROC, env=None):
        """Runs cases 0..total-1 of a harness in shards; merges what it observed."""
        if not self.part(label) or self.settled():
            return
        if self.only_case is not None:
            ranges = [(self.only_case, 1)]
        else:
            step = (total + shards - 1) // shards
            ranges = [(i * step, min(step, total - i * step))
                      for i in range(shards) if i * step < total]
        e = dict(ENV)
        e.update(env or {})
        timeout = timeout or (240 if not self.thorough() else 20000)

        def one(r):
            start, cnt = r
            tag = "%s/%s-%d" % (self.scratch, os.path.basename(binary), start)
            cmd = [binary, "--seed", str(self.seed), "--start", str(start),
                   "--cases", str(cnt), "--progress", tag + ".prog",
                   "--hashes", tag + ".hash"]
            try:
                p = run_capture(cmd, e, timeout)
            except subprocess.TimeoutExpired:
                return r, None, tag
            return r, p, tag

        with ThreadPoolExecutor(shards) as ex:
            results = list(ex.map(one, ranges))
        part_evals = 0
        for (start, cnt), p, tag in results:
            def replay(case):
                return {"property": self.prop, "part": label, "case": case,
                        "seed": self.seed, "tier": self.tier,
                        "rerun": "cd %s && VERIF_SEED=%d VERIF_TIER=%s python3 run.py %s --part %s --case %d"
                                 % (VERIF, self.seed, self.tier, self.prop, label, case)}
            case = start
            try:
                case = int.from_bytes(open(tag + ".prog", "rb").read(8), "little")
            except OSError:
                pass
            if p is None:
                # inconclusive so far: try that one case alone
                try:
                    p1 = run_capture([binary, "--seed", str(self.seed), "--case", str(case)], e, 120)
                except subprocess.TimeoutExpired:
                    self.violation("hang", "case %d of %s does not end" % (case, label), replay(case))
                    continue
                if "DONE" not in p1.stdout:
                    p = p1
                else:
                    raise Inconclusive("shard %s of %s ran out of time, its last case alone did not" % (start, label))
            done = False
            for line in p.stdout.splitlines():
                f = line.split("\t")
                if f[0] == "VIOL":
                    self.violation(f[1], f[3] if len(f) > 3 else "", replay(int(f[2])))
                elif f[0] == "STAT":
                    self.count(label + "." + f[1], int(f[2]))
                elif f[0] == "SAMPLE":
                    if len(self.samples) < 6:
                        self.samples.append(f[1])
                elif f[0] == "EVALS":
                    self.evals += int(f[1])
                    part_evals += int(f[1])
                elif f[0] == "DONE":
                    done = True
            if not done or p.returncode != 0:
                self.violation("abnormal-end", "%s ended with status %s in case %d\n%s" % (
                    label, p.returncode, case, p.stderr[-3000:]), replay(case))
            try:
                data = open(tag + ".hash", "rb").read()
                self.hashes.update((label, data[i:i + 8]) for i in range(0, len(data), 8))
            except OSError:
                pass
        self.count(label + ".evaluations", part_evals)

    # ---- python cases ---------------------------------------------------
    def cases(self, fn, total, label, args=()):
        """fn(rng, case, workdir, *args) -> Case; runs in worker processes."""
        if not self.part(label) or self.settled():
            return
        idx = [self.only_case] if self.only_case is not None else list(range(total))
        work = [(fn, i, self.seed, label, self.scratch, args) for i in idx]
        n_ev = 0
        for i, c in _in_workers(work):
            self.evals += c.evals
            n_ev += c.evals
            for k, v in c.stats.items():
                self.count(label + "." + k, v)
            if c.nontrivial:
                self.hashes.update((label, h) for h in (c.hash if isinstance(c.hash, list) else [c.hash]))
            if c.sample and len(self.samples) < 6 and i % 7 == 0:
                self.sample(c.sample)
            if c.inconclusive:
                raise Inconclusive("%s case %d: %s" % (label, i, c.inconclusive))
            for key, detail in c.viols:
                self.violation(key, detail, {
                    "property": self.prop, "part": label, "case": i,
                    "seed": self.seed, "tier": self.tier, "input": c.replay,
                    "rerun": "cd %s && VERIF_SEED=%d VERIF_TIER=%s python3 run.py %s --part %s --case %d"
                             % (VERIF, self.seed, self.tier, self.prop, label, i)})
            if len(self.viols) >= 6 or self.settled():
                break
        self.count(label + ".evaluations", n_ev)

    # ---- verdict --------------------------------------------------------
    def finish(self, min_evals, min_distinct, level="exploration"):
        known = load_known(self.prop)
        fresh = []
        printed = set()
        for key, detail in self.known_hits:
            self.viols.append(("known:" + key, detail, {"property": self.prop, "probe": key}))
        for key, detail, replay in self.viols:
            if key.startswith("known:") and key[6:] in known:
                if key not in printed:
                    printed.add(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, known[key[6:]]))
                continue
            fresh.append((key, detail, replay))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {
                "evaluations": self.evals,
                "distinct_nontrivial": len(self.hashes),
                "rule": self.rule,
                "samples": self.samples[:6] or ["(none)"],
                "observed": dict(sorted(self.stats.items())),
                "known_findings_seen": sorted(printed),
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(fresh),
        }
        if self.only_case is None:
            os.makedirs(VERIF + "/evidence", exist_ok=True)
            with open("%s/evidence/%s.json" % (VERIF, self.prop), "w") as f:
                json.dump(ev, f, indent=1)
                f.write("\n")
        if fresh:
            rdir = VERIF + "/evidence/replay"
            os.makedirs(rdir, exist_ok=True)
            seen = set()
            for key, detail, replay in fresh:
                if key in seen:
                    continue
                seen.add(key)
                path = "%s/%s-%s.json" % (rdir, self.prop, "".join(
                    ch if ch.isalnum() else "-" for ch in key)[:60])
                with open(path, "w") as f:
                    json.dump({"key": key, "detail": detail, "replay": replay}, f, indent=1)
                    f.write("\n")
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  key=%s %s" % (key, detail[:1500].replace("\n", "\n  ")))
            return 1
        if self.only_case is None and (self.evals < min_evals or len(self.hashes) < min_distinct):
            print("ERROR: too little was observed: %d evaluations, %d distinct" % (
                self.evals, len(self.hashes)))
            return 2
        print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (
            self.prop, self.tier, self.seed, self.evals, len(self.hashes), time.time() - self.t0))
        return 0


class Case:
    def __init__(self):
        self.evals = 0
        self.stats = {}
        self.viols = []
        self.nontrivial = False
        self.hash = None
        self.sample = None
        self.replay = None
        self.inconclusive = None

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def bad(self, key, detail):
        self.viols.append((key, detail))


def _worker_main(conn):
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)   # never outlive the check
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    while True:
        try:
            w = conn.recv()
        except EOFError:
            return
        if w is None:
            return
        try:
            conn.send(_case_worker(w))
        except BaseException:
            c = Case()
            c.inconclusive = traceback.format_exc()[-1500:]
            conn.send((w[1], c))


def _in_workers(work):
    """Yields (case, result) as they come, one case at a time in each of NPROC
    processes. When the consumer stops early, the cases under way are finished
    and dropped (nothing is killed in the middle of a message)."""
    mp = multiprocessing.get_context("fork")
    todo = iter(work)
    procs, busy = [], {}
    try:
        for _ in range(min(NPROC, len(work))):
            mine, other = mp.Pipe()
            p = mp.Process(target=_worker_main, args=(other,), daemon=True)
            p.start()
            other.close()
            procs.append((p, mine))
            mine.send(next(todo))
            busy[mine] = p
        while busy:
            for conn in multiprocessing.connection.wait(list(busy)):
                try:
                    result = conn.recv()
                except (EOFError, OSError):
                    raise Inconclusive("a worker process ended unexpectedly")
                w = next(todo, None)
                if w is None:
                    del busy[conn]
                else:
                    conn.send(w)
                yield result
    finally:
        for p, conn in procs:
            try:
                conn.send(None)
            except OSError:
                pass
        end = time.time() + 60
        for p, conn in procs:
            while p.is_alive() and time.time() < end:
                try:
                    if conn.poll(0.05):
                        conn.recv()
                except (EOFError, OSError):
                    p.join(1)
            if p.is_alive():
                p.kill()
            p.join()
            conn.close()


def _case_worker(w):
    fn, i, seed, label, scratch, args = w
    rng = random.Random("%d/%s/%d" % (seed, label, i))
    d = tempfile.mkdtemp(prefix="case-", dir=scratch)
    try:
        c = fn(rng, i, d, *args)
    except Inconclusive as e:
        c = Case()
        c.inconclusive = str(e)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    def digest(h):
        return hashlib.blake2b(repr(h).encode("utf-8", "replace"), digest_size=8).digest()

    if isinstance(c.hash, list):
        c.hash = [digest(h) for h in c.hash]
    elif not isinstance(c.hash, bytes):
        c.hash = digest(c.hash)
    return i, c


class Result:
    __slots__ = ("returncode", "stdout", "stderr")

    def __init__(self, rc, out, err):
        self.returncode, self.stdout, self.stderr = rc, out, err


def run_capture(cmd, env, timeout, stdin=None, binary=False, cwd=None):
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=timeout, input=stdin if stdin is not None else b"", cwd=cwd)
    if binary:
        return Result(p.returncode, p.stdout, p.stderr)
    return Result(p.returncode, p.stdout.decode("latin-1"), p.stderr.decode("latin-1"))


def run_tool(binary, args, stdin=None, env=None, timeout=60, cwd=None):
    """Runs a tool; a time-out is retried once with twice the time."""
    e = dict(ENV)
    for k, v in (env or {}).items():
        if v is None:
            e.pop(k, None)
        else:
            e[k] = v
    cmd = [binary] + list(args)
    for t in (timeout, timeout * 2):
        try:
            p = run_capture(cmd, e, t, stdin=stdin, cwd=cwd)
            return p
        except subprocess.TimeoutExpired:
            continue
    return Result("hang", "", "did not end within %d s" % (timeout * 2))


def load_known(prop):
    """Findings recorded for a property: key -> text. 'fixed:' lines suppress nothing."""
    out = {}
    path = VERIF + "/known_findings.txt"
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                f = dict(x.split("=", 1) for x in line.split()[1:3])
                if f.get("property") == prop:
                    out[f["key"]] = line.split(None, 3)[3]
    return out
