"""C18: every injected failure of an input or output is reported, none becomes a score."""
import os
import resource
import signal
import subprocess
import termios

from lib import common, evalrun, gen, model

RULE = ("One evaluation is one run of a tool with one fault: one enumerated open, read, write or close of one file failing, the standard output, dump and curve "
        "files cut off at one byte, an unusable path or descriptor, or a malformed file. Verdict on status, standard output, standard error and files. "
        "For each scenario the operations of the fault-free run are counted first and each of them made to fail. Non-trivial: the fault fired; distinct by scenario and fault.")
ASSUMPTIONS = ["faults on files are injected where the C++ library calls the C library (open, fopen, read, write, writev, close, fclose), those on standard streams by real descriptors: "
               "full devices, size limits, directories, closed ends, hung-up terminals",
               "SIGPIPE and SIGXFSZ are ignored, as their default is the operating system's way to end a process"]

ERRS = [5, 28, 12, 122, 13, 24]      # EIO ENOSPC ENOMEM EDQUOT EACCES EMFILE


def errors_reported(err):
    return any(x.strip() and not x.startswith(("INFO", "WARN")) for x in err.split("\n"))


def pre(limit=None, close=()):
    def fn():
        signal.signal(signal.SIGPIPE, signal.SIG_IGN)
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        for fd in close:
            os.close(fd)
    return fn


def launch(cmd, env=None, stdin=None, stdout=None, limit=None, close=(), cwd=None, data=None):
    e = dict(common.ENV)
    e.update(env or {})
    for t in (60, 240):
        p = subprocess.Popen(cmd, env=e, cwd=cwd, stdin=subprocess.PIPE if data is not None else (stdin if stdin is not None else subprocess.DEVNULL),
                             stdout=subprocess.PIPE if stdout is None else stdout, stderr=subprocess.PIPE, preexec_fn=pre(limit, close))
        try:
            o, err = p.communicate(data, timeout=t)
            return common.Result(p.returncode, (o or b"").decode("latin-1"), err.decode("latin-1"))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
    return common.Result("hang", "", "did not end")


def read(path):
    try:
        return open(path, "rb").read()
    except OSError:
        return None


def scenario(rng, d, big):
    kind = rng.choice(["icdar", "simple"])
    w = gen.world(rng, kind, size=(rng.randrange(300, 700), rng.randrange(400, 900)) if big else None)
    r, h, rt, ht = evalrun.save_inputs(d, w)
    o, args = gen.opts(rng, kind)
    roles = {"ref": r, "hyp": h}
    qs = sorted(set(x[0] for x in w.refs + w.hyps)) or ["q"]
    t = rng.random()
    if t < .35 or (big and t < .6):
        text = "".join("%s%s" % (q, rng.choice(["\n", " ", "\n\n"])) for q in qs) + ("absent%d\n" % i * 3 if (i := rng.randrange(1000)) and not big else "".join("name-%d\n" % k for k in range(1500)))
        roles["qset"] = gen.write(d + "/qset.txt", text)
        args += ["--query_set", roles["qset"]]
    elif t < .7 or big:
        text = "".join("G%d %s\n" % (rng.randrange(3), q) for q in qs) + ("" if not big else "".join("X name-%d\n" % k for k in range(1500)))
        roles["groups"] = gen.write(d + "/groups.txt", text)
        args += ["--query_groups", roles["groups"]]
    samples = rng.choice([2, 11, 300, 3000, None]) if not big else rng.choice([700, 20000])
    if samples is not None:                 # 10000 otherwise
        args += ["--rp_curve_samples", str(samples)]
    outs = {}
    for role, opt in (("dump", "--dump_matches"), ("grp", "--output_grp"), ("mrp", "--output_mrp")):
        if rng.random() < .75:
            outs[role] = d + "/" + role + ".out"
            args += [opt, outs[role]]
    return kind, w, roles, outs, args, (rt, ht)


class Judge:
    def __init__(self, c, outs):
        self.c, self.outs = c, outs
        self.good = None

    def wipe(self):
        for f in self.outs.values():
            if os.path.isfile(f):
                os.unlink(f)

    def input_fault(self, what, cmd, p):
        if p.returncode != 1 or p.stdout.strip() or not errors_reported(p.stderr):
            self.c.bad("input-fault-" + what.split()[0], "%s: must end with status 1, an error and no metric\n%s" % (what, evalrun.shown(cmd, p)))

    def output_fault(self, what, cmd, p):
        if p.returncode != 1 or not errors_reported(p.stderr):
            self.c.bad("output-fault-" + what.split()[0], "%s: must end with status 1 and an error\n%s" % (what, evalrun.shown(cmd, p)))

    def harmless(self, what, cmd, p):
        files = {k: read(f) for k, f in self.outs.items()}
        if p.returncode != 0 or (p.stdout, files) != self.good:
            self.c.bad("harmless-" + what.split()[0], "%s: changes the outcome\n%s" % (what, evalrun.shown(cmd, p)))


def fault_case(rng, i, d, bins, shim, deep):
    c = common.Case()
    c.hash = []
    big = i % 4 == 0
    kind, w, roles, outs, args, texts = scenario(rng, d, big)
    tool = bins[(kind, "rel")]
    cmd = [tool] + args + [roles["ref"], roles["hyp"]]
    j = Judge(c, outs)
    c.replay = evalrun.replay_of(args, ref=texts[0], hyp=texts[1])
    log = d + "/log"

    def run(path, op, k=0, err=5):
        j.wipe()
        p = launch(cmd, {"LD_PRELOAD": shim, "KWS_F_PATH": path, "KWS_F_OP": op, "KWS_F_K": str(k), "KWS_F_ERR": str(err), "KWS_F_LOG": log})
        counts = {}
        try:
            f = open(log).read().split()
            counts = dict(zip(f[::2], map(int, f[1::2])))
            os.unlink(log)
        except OSError:
            pass
        return p, counts

    # the run without faults
    p, _ = run("/none", "none")
    files = {k: read(f) for k, f in outs.items()}
    c.evals += 1
    if p.returncode != 0 or model.parse_stdout(p.stdout) is None or any(not v for v in files.values()):
        c.bad("fault-free", evalrun.shown(cmd, p))
        return c
    j.good = (p.stdout, files)
    c.nontrivial = True
    for role, path in list(roles.items()) + list(outs.items()):
        inp = role in roles
        for op in ("open", "read") if inp else ("open", "write", "close"):
            _, n = run(path, "count")
            total = n.get(op, 0)
            if total == 0:
                continue
            ks = list(range(1, total + 1))
            cap = 400 if deep else 14
            if len(ks) > cap:
                c.count("points_sampled_of", len(ks))
                ks = sorted(set(ks[:4] + ks[-4:] + rng.sample(ks, cap - 8)))
            for k in ks:
                err = rng.choice(ERRS)
                p, n = run(path, op, k, err)
                if not n.get("fired"):
                    continue
                c.evals += 1
                c.count("faults." + role + "." + op)
                c.hash.append((i, role, op, k))
                what = "%s-%s %d of %d, errno %d" % (role, op, k, total, err)
                (j.input_fault if inp else j.output_fault)(what, cmd, p)
                if c.viols:
                    return c
        # operations that only do part of their work, or are interrupted, change nothing
        for op in ("short", "eintr"):
            p, n = run(path, op)
            if n.get("fired"):
                c.evals += 1
                c.count("harmless." + role + "." + op)
                c.hash.append((i, role, op))
                j.harmless("%s-%s" % (role, op), cmd, p)
    # unusable paths
    for role, path in list(roles.items()) + list(outs.items()):
        inp = role in roles
        for bad in ([d + "/missing", d, d + "/missing/x", roles["ref"] + "/x", "-", roles["ref"] + ".gz", "nowhere.txt"] if inp else [d, d + "/missing/x", "/dev/full", roles["ref"] + "/x"]):
            j.wipe()
            bc = [bad if a == path else a for a in cmd]
            p = launch(bc)
            c.evals += 1
            c.count("paths." + role)
            c.hash.append((i, role, "path", bad[len(d):]))
            (j.input_fault if inp else j.output_fault)("%s-path %s" % (role, bad), bc, p)
    c.sample = "%s: roles %s outputs %s, %d lines of references, %d of hypotheses; %d faults" % (
        kind, sorted(roles), sorted(outs), len(w.refs), len(w.hyps), c.evals)
    return c


def stream_case(rng, i, d, bins, deep):
    """Faults on standard output, standard input, and of all files at one size."""
    c = common.Case()
    c.hash = []
    kind, w, roles, outs, args, texts = scenario(rng, d, i % 8 == 0)
    tool = evalrun.tools_of(bins, kind, rng, .15)
    cmd = [tool] + args + [roles["ref"], roles["hyp"]]
    stdin_cmd = cmd[:-1]
    j = Judge(c, outs)
    c.replay = evalrun.replay_of(args, ref=texts[0], hyp=texts[1])
    p = launch(cmd)
    c.evals += 1
    files = {k: read(f) for k, f in outs.items()}
    if p.returncode != 0 or model.parse_stdout(p.stdout) is None or any(not v for v in files.values()):
        c.bad("fault-free", evalrun.shown(cmd, p))
        return c
    j.good = (p.stdout, files)
    c.nontrivial = True
    n = len(p.stdout)

    def point(kind_, *more):
        c.evals += 1
        c.count("streams." + kind_)
        c.hash.append((i, kind_) + more)
        j.wipe()

    # standard output cut off at each byte (nothing else is written)
    bare = [tool] + [a for k, a in enumerate(args) if not (a in ("--dump_matches", "--output_grp", "--output_mrp") or (k and args[k - 1] in ("--dump_matches", "--output_grp", "--output_mrp")))]
    bare += [roles["ref"], roles["hyp"]]
    cuts = range(n) if deep else sorted(rng.sample(range(n), min(n, 12)) + [0, n - 1])
    for k in cuts:
        point("stdout-limit", k)
        with open(d + "/stdout", "wb") as f:
            q = launch(bare, stdout=f, limit=k)
        j.output_fault("stdout-limit %d of %d bytes" % (k, n), bare, q)
    point("stdout-limit", n)
    with open(d + "/stdout", "wb") as f:
        q = launch(bare, stdout=f, limit=n)
    if q.returncode != 0 or (read(d + "/stdout") or b"").decode("latin-1") != p.stdout:
        c.bad("stdout-exact-limit", evalrun.shown(bare, q))
    # unusable standard output
    for name in ("full", "closed", "reading", "pipe"):
        point("stdout-" + name)
        if name == "full":
            with open("/dev/full", "wb") as f:
                q = launch(cmd, stdout=f)
        elif name == "closed":
            q = launch(cmd, stdout=subprocess.DEVNULL, close=(1,))
        elif name == "reading":
            with open(roles["ref"], "rb") as f:
                q = launch(cmd, stdout=f)
        else:
            a, b = os.pipe()
            os.close(a)
            q = launch(cmd, stdout=b)
            os.close(b)
        j.output_fault("stdout-" + name, cmd, q)
        if read(roles["ref"]).decode("latin-1") != texts[0]:
            c.bad("stdout-%s-overwrites" % name, evalrun.shown(cmd, q))
    # each output file cut off at each byte, standard output being a pipe
    for role, path in outs.items():
        size = len(files[role])
        one = bare[:1] + [{"dump": "--dump_matches", "grp": "--output_grp", "mrp": "--output_mrp"}[role], path] + bare[1:]
        cuts = sorted(set([0, 1, size - 1, size // 2] + rng.sample(range(size), min(size, 60 if deep else 5))))
        for k in cuts:
            point("limit-" + role, k)
            q = launch(one, limit=k)
            j.output_fault("%s-limit %d of %d bytes" % (role, k, size), one, q)
        point("limit-" + role, size)
        q = launch(one, limit=size)
        if q.returncode != 0 or read(path) != files[role] or q.stdout != p.stdout:
            c.bad("%s-exact-limit" % role, evalrun.shown(one, q))
    # hypotheses from standard input that cannot be read
    for name in ("closed", "directory", "writing", "hangup", "malformed", "good", "empty-good"):
        point("stdin-" + name)
        what = "stdin-" + name
        if name == "closed":
            q = launch(stdin_cmd, stdin=subprocess.DEVNULL, close=(0,))
        elif name == "directory":
            fd = os.open(d, os.O_RDONLY)
            q = launch(stdin_cmd, stdin=fd)
            os.close(fd)
        elif name == "writing":
            fd = os.open(d + "/w", os.O_WRONLY | os.O_CREAT)
            q = launch(stdin_cmd, stdin=fd)
            os.close(fd)
        elif name == "hangup":
            # a terminal whose other end is closed gives the data, then EIO
            try:
                m, s = os.openpty()
                a = termios.tcgetattr(s)
                a[1] &= ~termios.OPOST
                a[3] &= ~(termios.ECHO | termios.ICANON | termios.ISIG)
                termios.tcsetattr(s, termios.TCSANOW, a)
            except (OSError, termios.error):
                c.count("no_terminal")
                continue
            data = texts[1].encode("latin-1")[:rng.randrange(0, 2000)]
            data = data[:data.rfind(b"\n") + 1] if rng.random() < .5 else data
            os.write(s, data)
            os.close(s)
            q = launch(stdin_cmd, stdin=m)
            os.close(m)
        elif name == "malformed":
            q = launch(stdin_cmd, data=texts[1].encode("latin-1") + b"q\n")
        elif name == "good":
            q = launch(stdin_cmd, data=texts[1].encode("latin-1"))
            j.harmless(what, stdin_cmd, q)
            continue
        else:
            q = launch(stdin_cmd, data=b"")
            if q.returncode != 0 or model.parse_stdout(q.stdout) is None:
                c.bad(what, evalrun.shown(stdin_cmd, q))
            continue
        j.input_fault(what, stdin_cmd, q)
    # malformed files
    for role, path in roles.items():
        if role == "qset":
            continue
        good = read(path)
        lines = good.split(b"\n")[:-1]
        at = rng.randrange(len(lines) + 1)
        junk = rng.choice([b"word", b"", b"\t "]) if role == "groups" else rng.choice([b"q", b"q d 1 2 3 4 5 6 7", b"q\td"] + ([b"q d 1 2 3 x", b"q d 1 2 99999999999 4 0.5"] if kind == "icdar" else []))
        if kind == "simple" and role == "ref" and junk == b"q\td":
            junk = b"q"
        if role == "groups" and rng.random() < .6:
            junk = rng.choice([b"", b" ", lines[0].split()[0], lines[0].split()[1], lines[-1].split()[-1]]) if lines else b""
        if len(junk.strip()) == 0 and at == len(lines):
            at = 0                          # no blank line without an end, which is none
        for text, what in ((b"\n".join(lines[:at] + [junk] + lines[at:]) + b"\n", "line"), (b"\n".join(lines + [junk or b"x"]), "last-line"), (b"\x00\x01\x02" * 20, "binary")):
            if role == "groups" and what == "binary":
                continue
            point("malformed-" + role, what)
            bad = gen.write(d + "/bad", text.decode("latin-1"))
            bc = [bad if a == path else a for a in cmd]
            j.input_fault("%s-malformed %s %r" % (role, what, junk), bc, launch(bc))
    c.sample = "%s: %d faults of streams, sizes and contents" % (kind, c.evals)
    return c


def main(ctx):
    shim = ctx.scratch + "/shim.so"
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", common.VERIF + "/harness/shim.c", "-o", shim, "-ldl"], check=True)
    bins = evalrun.build_tools(ctx)
    ctx.cases(fault_case, ctx.n(40, 400), "files", (bins, shim, ctx.thorough()))
    ctx.cases(stream_case, ctx.n(40, 400), "streams", (bins, ctx.thorough()))
    return ctx.finish(1500, 1000, level="fault_enumeration")
