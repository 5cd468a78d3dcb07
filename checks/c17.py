"""C17: no bytes and no command line bring a tool down."""
import base64
import glob
import os
import re
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

from lib import common, evalrun, gen
from checks import c18

RULE = ("One evaluation is one run of a tool's main() on mutated files and command line: under libFuzzer in process (coverage-guided, address and undefined behaviour sanitizers), "
        "as a process (the same plus leaks and checked containers), or under valgrind memcheck (uninitialised memory). The verdict is the sanitizers', the exit status and the time. "
        "Non-trivial: the input is not plainly valid; distinct: corpus entries with coverage of their own, and process runs by files, words and outcome.")
ASSUMPTIONS = ["sample counts are at most a thousand, files at most some megabytes", "memory does not run out"]

FLAGS = ["--collapse_matches", "--interpolated_precision", "--trapezoid_integral", "--bootstrap_ci_gap", "--bootstrap_ci_map", "--bootstrap_ci_gndcg", "--bootstrap_ci_mndcg"]
WORDS = ["--sort", "asc", "desc", "none", "x", "--query_set", "--query_groups", "--dump_matches", "--output_grp", "--output_mrp", "--bootstrap_seed", "--bootstrap_alpha",
         "0", "1", "-1", "0.5", "1e308", "1e-320", "nan", "inf", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "true", "false", "", " ", "-", "--",
         "---", "--=", "--help", "-h", "--\xff", "%s%n%n", "A" * 5000, "out1", "out2", "/dev/null", "/dev/full", ".", "missing", "2", "3"] + FLAGS
NUMS = ["0", "1", "-1", "4294967295", "4294967296", "18446744073709551615", "99999999999999999999", "2147483648", "1e9", "0x10", "nan", "inf", "-inf", "1e38", "3.5e38", "-3.4e38",
        "1e-45", "1e-60", "", "+", "-", ".", "e", "1.", "00000000000000000001", "\xff", "1\x002"]


def spoil(rng, text):
    b = bytearray(text.encode("latin-1"))
    for _ in range(1 + int(rng.expovariate(0.4))):
        t = rng.randrange(12)
        p = rng.randrange(len(b) + 1)
        if t == 0 and b:
            b[p % len(b)] ^= 1 << rng.randrange(8)
        elif t == 1:
            b[p:p] = bytes(rng.randrange(256) for _ in range(rng.randrange(1, 9)))
        elif t == 2 and b:
            del b[p:p + rng.randrange(1, 40)]
        elif t == 3:
            b[p:p] = b[max(0, p - 60):p]
        elif t == 4:
            del b[p:]
        elif t == 5:
            b[p:p] = b"\x00" * rng.randrange(1, 5)
        elif t == 6:
            b[p:p] = b"A" * rng.choice([100, 5000, 70000])
        elif t == 7:
            b[p:p] = rng.choice([b"\n", b"\r", b" ", b"\t", b"#", b"\n#", b"\n\n", b"\v", b"\x1a", b"\xef\xbb\xbf"])
        else:
            # one field of one line
            lines = b.split(b"\n")
            k = rng.randrange(len(lines))
            f = lines[k].split(b" ")
            f[rng.randrange(len(f))] = rng.choice(NUMS).encode("latin-1")
            lines[k] = b" ".join(f)
            b = bytearray(b"\n".join(lines))
    return bytes(b)


def some_file(rng, d, name, text, plain=False):
    """-> (path, shape)"""
    t = rng.random()
    if rng.random() < (.9 if plain else .45):
        t = 0
    path = os.path.join(d, name)
    if t < .30:
        data, shape = text.encode("latin-1"), "valid"
    elif t < .80:
        data, shape = spoil(rng, text), "spoilt"
    elif t < .86:
        data, shape = bytes(rng.randrange(256) for _ in range(rng.randrange(300))), "random"
    elif t < .90:
        data, shape = b"", "empty"
    elif t < .93:
        data, shape = rng.choice([b"\n", b"#", b"\x00", b" ", b"# c\n", b"\n\n \n", b"\r"]) * rng.randrange(1, 500), "blank"
    elif t < .96:
        return rng.choice([d, path + "-missing", "/dev/null", "", path + "/x"]), "path"
    elif rng.random() < .6:
        # well-formed lines longer than any fixed buffer, beginning with any byte
        n = rng.choice([4096, 70000, 70000])
        starts = range(33, 127) if n > 5000 else [x for x in range(1, 256) if not 9 <= x <= 13 and x != 32]
        icdar = len(text.split("\n", 1)[0].split()) >= 6
        data, shape = b"".join(bytes([s]) + b"w" * n + b" d" + (b" 1 2 3 4" if icdar else b"") + (b" 0.5" if "hyp" in name else b"") + b"\n" for s in starts), "long-lines"
    else:
        data, shape = (b"q d " + b"1" * 40000 + b" 2 3 4 0.5\n" + b"w" * 300000), "long"
    with open(path, "wb") as f:
        f.write(data)
    return path, shape


def command(rng, d, kind, plain=False):
    w = gen.world(rng, kind, size=(rng.randrange(4), rng.randrange(4)) if plain and rng.random() < .4 else None)
    qs = sorted(set(x[0] for x in w.refs + w.hyps)) or ["q"]
    ref, s1 = some_file(rng, d, "ref", w.text("refs", rng, "odd" if rng.random() < .3 else None), plain)
    hyp, s2 = some_file(rng, d, "hyp", w.text("hyps", rng, "odd" if rng.random() < .3 else None), plain)
    args = ["--bootstrap_samples", str(rng.randrange(9)), "--rp_curve_samples", str(rng.randrange(40))]
    shapes = [s1, s2]
    for f in FLAGS:
        if rng.random() < .3:
            args += [f] + rng.choice([[], ["true"], ["false"]])
    if rng.random() < .5:
        args += ["--sort", rng.choice(["asc", "desc", "none", "?"])]
    elif args[-1] in FLAGS:
        args += ["true"]
    if rng.random() < .4:
        args += ["--bootstrap_alpha", rng.choice(["0", "1", "0.05", "1e-320", "0.9999999", "2"])]
    if rng.random() < .4:
        p, s = some_file(rng, d, "qset", "".join(q + rng.choice(["\n", " "]) for q in qs), plain)
        args += ["--query_set", p]
        shapes.append(s)
    if rng.random() < .4:
        p, s = some_file(rng, d, "groups", "".join("G%d %s\n" % (rng.randrange(3), q) for q in qs), plain)
        args += ["--query_groups", p]
        shapes.append(s)
    for o in ("--dump_matches", "--output_grp", "--output_mrp"):
        if rng.random() < .4:
            args += [o, rng.choice(["out1", "out2", "/dev/null"] if plain else ["out1", "out2", "/dev/null", "/dev/full", "."])]
    rng.random() < .2 and args.append("--")
    args += [ref] + ([hyp] if rng.random() < .85 else [])
    if not plain and rng.random() < .3:
        for _ in range(rng.randrange(1, 5)):
            t = rng.randrange(5)
            k = rng.randrange(len(args) + 1)
            if t == 0:
                args.insert(k, rng.choice(WORDS) if rng.random() < .8 else gen.near_option(rng))
            elif t == 1 and args:
                del args[k % len(args)]
            elif t == 2 and args:
                args[k % len(args)] = rng.choice(WORDS) if rng.random() < .8 else gen.near_option(rng)
            elif t == 3 and args:
                x = args[k % len(args)]
                if not x.startswith("/"):
                    x = x[:rng.randrange(len(x) + 1)] + rng.choice(["", "-", "\x01", "=", "\xe9"])
                    args[k % len(args)] = x
            else:
                rng.shuffle(args)
        if rng.random() < .2:
            args.insert(rng.randrange(len(args) + 1), rng.choice(["--", "--", "-", ""]) + rng.choice("ax=%/\xe9") * rng.choice([12, 30, 64, 200, 1000, 5000]))
        if rng.random() < .2 and args:
            args[rng.randrange(len(args))] = str(10 ** rng.randrange(1, 400)) + rng.choice(["", "x", ".5", "e5"])
        shapes.append("words")
        # read as an input, it would have no end
        args = ["." if "/dev/f" in x else x for x in args]
    # outputs stay in the case's directory; sample counts stay feasible
    inputs = (d,)
    out = []
    for k, x in enumerate(args):
        prev = out[-1] if out else ""
        if prev in ("--dump_matches", "--output_grp", "--output_mrp") and x not in ("/dev/null", "/dev/full", ".", "", "-", "--"):
            x = "out%d" % (k % 3)
        if prev in ("--bootstrap_samples", "--rp_curve_samples") and len(x) > 2:
            x = "9"
        out.append(x)
    # (also when the words above end up as something else)
    out = ["--bootstrap_samples", "4"] + out
    return w, out, hyp, shapes


def sizes_case(rng, i, d, bins):
    """Every small number of entries once or more: buffers that fit all sizes but one."""
    c = common.Case()
    kind = "icdar" if i % 2 else "simple"
    n = i // 2
    box = ["1", "1", "9", "9"] if kind == "icdar" else []
    hits, late = rng.randrange(n + 1), rng.random() < .5
    shape = rng.choice(["one", "one", "own", "mixed"])
    q = lambda k: "q" if shape == "one" else "q%d" % (k if shape == "own" else k % 3)
    # n entries: hits, then false positives or missed references
    wrong = rng.randrange(n - hits + 1)
    refs = [[q(k), "d%d" % k] + box for k in range(hits)] + [[q(k), "m%d" % k] + box for k in range(n - hits - wrong)]
    hyps = [[q(k), "d%d" % k] + box for k in range(hits)] + [[q(k), "w%d" % k] + box for k in range(wrong)]
    scores = gen.distinct_scores(rng, len(hyps)) if rng.random() < .6 else ["%d" % rng.randrange(3) for _ in hyps]
    hyps = [h + [s] for h, s in zip(hyps, scores)]
    o, args = gen.opts(rng, kind)
    rng.shuffle(refs)
    rng.shuffle(hyps)
    r = gen.write(d + "/ref", "".join(" ".join(x) + "\n" for x in refs))
    h = gen.write(d + "/hyp", "".join(" ".join(x) + "\n" for x in hyps))
    args = list(args) + ["--dump_matches", "out0", "--output_grp", "out1", "--output_mrp", "out2", "--rp_curve_samples", str(rng.choice([2, 3, n, n + 1, n + 2])),
                         "--bootstrap_ci_" + rng.choice(["gap", "map", "gndcg", "mndcg"]), "1", "--bootstrap_samples", str(rng.choice([1, 2, n]))]
    if rng.random() < .3:
        args += ["--query_groups", gen.write(d + "/groups", "".join("G%d %s\n" % (k % 2, x) for k, x in enumerate(sorted(set(y[0] for y in refs + hyps)))))]
    cmd = [bins[(kind, "san-full")]] + args + [r, h]
    p = common.run_tool(cmd[0], cmd[1:], timeout=100, cwd=d)
    c.evals = 1
    c.replay = {"args": args, "ref": open(r).read()[:3000], "hyp": open(h).read()[:3000]}
    verdict(c, cmd, p, "sizes")
    c.nontrivial = True
    c.count("entries", n)
    c.hash = (kind, n, hits, wrong, shape)
    c.sample = "sizes %s: %d entries, %d hits, %d false positives, status %s" % (kind, n, hits, wrong, p.returncode)
    return c


def verdict(c, cmd, p, what):
    if p.returncode in (0, 1):
        return True
    kind = {97: "leak", 98: "undefined", 99: "memory", 95: "uninitialised-or-leak", "hang": "hang"}.get(p.returncode, "crash")
    c.bad("%s-%s" % (what, kind), evalrun.shown(cmd, p))
    return False


def process_case(rng, i, d, bins, what, prefix):
    c = common.Case()
    kind = rng.choice(["icdar", "simple"])
    w, args, hyp, shapes = command(rng, d, kind, plain=bool(prefix) or rng.random() < .15)
    tool = bins[(kind, what)]
    cmd = list(prefix) + [tool] + args
    closing = ()
    stdin = b""
    if not prefix and rng.random() < .06:
        closing = tuple(x for x in (0, 1, 2) if rng.random() < .5)
    if os.path.isfile(hyp) and hyp not in args:
        stdin = open(hyp, "rb").read()
    cmd_b = [x.encode("latin-1").replace(b"\x00", b"") for x in cmd]
    e = dict(common.ENV)
    if closing:
        p = c18.launch(cmd_b, close=closing, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, cwd=d)
    else:
        try:
            p = common.run_capture(cmd_b, e, 60, stdin=stdin, cwd=d)
        except subprocess.TimeoutExpired:
            try:
                p = common.run_capture(cmd_b, e, 180, stdin=stdin, cwd=d)
            except subprocess.TimeoutExpired:
                p = common.Result("hang", "", "")
    c.evals = 1
    files = {}
    for n in ("ref", "hyp", "qset", "groups"):
        try:
            files[n] = base64.b64encode(open(os.path.join(d, n), "rb").read()[:200000]).decode()
        except OSError:
            pass
    c.replay = {"args": args, "stdin": "hyp" if stdin else "", "closed": closing, "files_base64": files}
    verdict(c, cmd, p, what)
    c.nontrivial = set(shapes) != {"valid"} or bool(closing)
    first = [x for x in p.stderr.split("\n") if x.startswith("ERROR")][:1]
    stage = re.sub(r'".*?"|\d+|\'.*?\'', "*", first[0]) if first else "done"
    c.count("outcome.%s" % stage[:60])
    for s in set(shapes):
        c.count("shape." + s)
    c.hash = (kind, args, shapes, files.get("ref", "")[:400], files.get("hyp", "")[:400], stage)
    c.sample = "%s: shapes %s, outcome %s, status %s" % (kind, shapes, stage, p.returncode)
    return c


def large_case(rng, i, d, bins):
    """Files of many lines, on a stack that a call per line would not fit in."""
    c = common.Case()
    kind = "icdar" if i % 2 == 0 else "simple"
    what = ("dbg", "rel", "san-full", "rel", "dbg", "rel")[(i // 2) % 6]
    w = gen.big_world(rng, kind, 30000 if what == "san-full" else 150000, rare=i == 0)
    o, args = gen.opts(rng, kind)
    r, h, rt, ht = evalrun.save_inputs(d, w)
    if rng.random() < .4:
        # a last line that is wrong: everything read so far is dropped again
        with open(rng.choice([r, h]), "a") as f:
            f.write("wrong\n")
    qs = sorted(set(x[0] for x in w.refs + w.hyps))
    if rng.random() < .5:
        args += ["--query_groups", gen.write(d + "/groups", "".join("G%d %s\n" % (k % 7, " ".join(qs[k:k + 50])) for k in range(0, len(qs), 50)))]
    elif rng.random() < .5:
        args += ["--query_set", gen.write(d + "/qset", " ".join(qs))]
    if rng.random() < .6:
        args += ["--dump_matches", d + "/dump", "--output_grp", d + "/g", "--output_mrp", d + "/m", "--rp_curve_samples", str(rng.choice([2, 100, 5000 if len(qs) < 500 else 5]))]
    if rng.random() < .5:
        args += ["--bootstrap_ci_gap", "1", "--bootstrap_ci_mndcg", "1", "--bootstrap_samples", "1"]
    stack = "unlimited" if what == "san-full" else "1024"
    tool = bins[(kind, what)]
    cmd = ["/bin/sh", "-c", 'ulimit -s %s; exec "$0" "$@"' % stack, tool] + args + [r, h]
    if what == "san-full":
        cmd = cmd[3:]
    p = None
    for t in (100, 250):
        try:
            p = common.run_capture(cmd, common.ENV, t, cwd=d)
            break
        except subprocess.TimeoutExpired:
            p = common.Result("hang", "", "")
    c.evals = 1
    c.replay = {"args": args, "shape": w.shape, "stack": stack, "head": [rt[:2000], ht[:2000]]}
    verdict(c, cmd, p, "large-" + what)
    c.nontrivial = True
    c.count("lines", len(w.refs) + len(w.hyps))
    c.hash = (kind, what, w.shape, len(w.refs), len(w.hyps), args)
    c.sample = "large %s %s: %d + %d lines, status %s" % (kind, w.shape, len(w.refs), len(w.hyps), p.returncode)
    return c


def fuzz(ctx, runs, jobs, seconds):
    if not ctx.part("libfuzzer") or ctx.only_case is not None:
        return
    import random
    rng = random.Random(ctx.seed)
    bins = {}

    def build(kind):
        out = "%s/fuzz-%s" % (ctx.scratch, kind)
        cmd = ["clang++", "-std=gnu++14", "-w", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=fuzzer,address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
               "-D_GLIBCXX_ASSERTIONS", "-I" + common.REPO, '-DTOOL_SRC="%s/tools/%s.cc"' % (common.REPO, evalrun.TOOL[kind]),
               common.VERIF + "/harness/C17fuzz.cc", "-o", out]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise RuntimeError("build failed\n" + p.stdout[-3000:])
        return kind, out

    with ThreadPoolExecutor(2) as ex:
        bins = dict(ex.map(build, ["icdar", "simple"]))

    def one(job):
        kind, n = job
        r = random.Random("%d/%s/%d" % (ctx.seed, kind, n))
        d = "%s/corpus-%s-%d" % (ctx.scratch, kind, n)
        os.makedirs(d + "/in")
        os.makedirs(d + "/new")
        for k in range(40):
            w = gen.world(r, kind, size=(r.randrange(8), r.randrange(10)))
            qs = sorted(set(x[0] for x in w.refs + w.hyps)) or ["q"]
            codes = bytes(r.randrange(46) for _ in range(r.randrange(9)))
            if r.random() < .7:
                codes = b"".join(bytes(x) for x in r.sample([(0, 18), (1, 18), (2, 18), (3, 29), (4, 31), (5, 30), (6, 17), (7, 17), (8, 17), (9, 17), (12, 23), (13, 26), (14, 31), (15, 31)], r.randrange(5)))
            parts = [codes, w.text("refs").encode("latin-1"), w.text("hyps").encode("latin-1"), "\n".join(qs).encode("latin-1"),
                     "".join("g %s\n" % q for q in qs).encode("latin-1")]
            if r.random() < .3:
                parts[r.randrange(1, 5)] = spoil(r, w.text("hyps"))[:2000]
            with open("%s/in/%d" % (d, k), "wb") as f:
                f.write(b"\x1e".join(x.replace(b"\x1e", b"") for x in parts))
        e = dict(common.ENV)
        e["ASAN_OPTIONS"] = "detect_leaks=1:exitcode=99:allocator_may_return_null=0:handle_abort=1"
        cmd = [bins[kind], "-seed=%d" % (ctx.seed * 100 + n + 1), "-runs=%d" % runs, "-max_total_time=%d" % seconds, "-max_len=4000", "-timeout=60", "-rss_limit_mb=3000",
               "-print_final_stats=1", "-detect_leaks=1", "-artifact_prefix=%s/crash-" % d, d + "/new", d + "/in"]
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=e, cwd=d, stdin=subprocess.DEVNULL)
        return kind, n, d, cmd[0], e, p.returncode, p.stderr.decode("latin-1")

    with ThreadPoolExecutor(jobs * 2) as ex:
        results = list(ex.map(one, [(k, n) for k in ("icdar", "simple") for n in range(jobs)]))
    for kind, n, d, binary, e, rc, err in results:
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", err)
        units = int(m.group(1)) if m else 0
        ctx.evals += units
        ctx.count("libfuzzer.%s.units" % kind, units)
        cov = re.findall(r"cov: (\d+) ft: (\d+)", err)
        if cov:
            ctx.stats["libfuzzer.%s.edges" % kind] = max(ctx.stats.get("libfuzzer.%s.edges" % kind, 0), int(cov[-1][0]))
            ctx.stats["libfuzzer.%s.features" % kind] = max(ctx.stats.get("libfuzzer.%s.features" % kind, 0), int(cov[-1][1]))
        for f in os.listdir(d + "/new"):
            ctx.hashes.add(("fuzz", f))
        crashes = sorted(glob.glob(d + "/crash-*"))
        if rc != 0:
            data = open(crashes[0], "rb").read() if crashes else b""
            shown = ""
            if crashes:
                q = subprocess.run([binary, crashes[0]], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=dict(e, KWS_SHOW="1"), stdin=subprocess.DEVNULL, cwd=d)
                shown = q.stderr.decode("latin-1")[:6000]
            m = re.search(r"SUMMARY: (\S+ \S+)|(BAD STATUS|SILENT FAILURE|STATUS 0 WITH)|runtime error: (.{0,60})", err)
            ctx.violation("libfuzzer-" + (m.group(0)[:50] if m else "crash"), (err[-2500:] + "\n" + shown),
                          {"property": "C17", "part": "libfuzzer", "tool": evalrun.TOOL[kind], "input_base64": base64.b64encode(data).decode(), "shown": shown})
        elif units < 50:
            raise common.Inconclusive("libFuzzer ran %d units only: %s" % (units, err[-800:]))
    ctx.sample({"libfuzzer": {k: v for k, v in ctx.stats.items() if k.startswith("libfuzzer")}})


def main(ctx):
    bins = evalrun.build_tools(ctx, ("san-full", "rel", "dbg"))
    fuzz(ctx, ctx.n(6000, 3000000), ctx.n(3, 4), ctx.n(60, 1500))
    ctx.cases(large_case, ctx.n(24, 400), "large", (bins,))
    ctx.cases(process_case, ctx.n(900, 30000), "process-sanitizers", (bins, "san-full", ()))
    ctx.cases(process_case, ctx.n(600, 20000), "process-release", (bins, "rel", ()))
    ctx.cases(sizes_case, ctx.n(2 * 140, 2 * 3000), "sizes", (bins,))
    ctx.cases(process_case, ctx.n(120, 3000), "memcheck", (bins, "dbg", (
        "valgrind", "-q", "--error-exitcode=95", "--leak-check=full", "--errors-for-leak-kinds=definite,possible", "--undef-value-errors=yes")))
    return ctx.finish(5000, 1000)
