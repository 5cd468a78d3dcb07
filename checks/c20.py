"""C20: same inputs, same outputs; used objects, threads (harness C20), environments (tools)."""
import os

from lib import common, evalrun, gen, model

RULE = ("One evaluation is one group of runs of a tool on one input in different environments (variables, locale, threads, "
        "memory fill, directory, build), whose every output byte must agree, or one harness case comparing used with fresh objects "
        "or eight concurrent threads with a sequential run. Non-trivial: the run writes metrics, dump, curves or intervals that are not "
        "trivial (some metric not 0); distinct by input sizes, options and metrics.")
ASSUMPTIONS = ["schedules are those the machine produced (barriers and short random delays between operations), judged by ThreadSanitizer and by value",
               "bootstrap uses the standard library's generator: same build, same sequence"]


def locales(scratch):
    """Names usable with LOCPATH=scratch/locale; first one with a decimal comma, built here."""
    out = []
    try:
        os.makedirs(scratch + "/locale", exist_ok=True)
        r = common.run_capture(["localedef", "-i", "de_DE", "-f", "UTF-8", scratch + "/locale/de_DE.UTF-8"], common.ENV, 120)
        env = dict(common.ENV)
        env.update({"LOCPATH": scratch + "/locale", "LC_ALL": "de_DE.UTF-8"})
        if common.run_capture(["/usr/bin/printf", "%.2f", "1,5"], env, 20).stdout == "1,50":
            out = ["de_DE.UTF-8"]
    except Exception:
        pass
    if out:
        return out
    try:
        r = common.run_capture(["locale", "-a"], common.ENV, 20)
        out = [x for x in r.stdout.split() if x not in ("C", "POSIX")]
    except Exception:
        pass
    return out[:5]


def case(rng, i, d, bins, locs, shim):
    c = common.Case()
    kind = "icdar" if rng.random() < 0.6 else "simple"
    o, args = gen.opts(rng, kind)
    w = gen.world(rng, kind, (rng.randrange(50, 400), rng.randrange(100, 600)) if rng.random() < .15 else None)
    r, h, rt, ht = evalrun.save_inputs(d, w, rng, "odd" if rng.random() < .3 else None)
    tool = evalrun.tools_of(bins, kind, rng, 0.3)
    base = list(args) + ["--rp_curve_samples", "23"]
    outs = []
    if rng.random() < .7:
        outs += [("--dump_matches", "dump"), ("--output_grp", "g"), ("--output_mrp", "m")]
    if rng.random() < .5:
        base += ["--bootstrap_ci_gap", "1", "--bootstrap_ci_map", "1", "--bootstrap_ci_mndcg", "1",
                 "--bootstrap_samples", "11", "--bootstrap_seed", str(rng.randrange(1000))]
    if rng.random() < .3:
        qs = sorted(set(x[0] for x in w.refs + w.hyps))
        base += ["--query_groups", gen.write(d + "/grp", "".join("G%d %s\n" % (k % 3, q) for k, q in enumerate(qs)))]
    envs = [
        {},
        {"OMP_NUM_THREADS": str(rng.choice([1, 2, 3, 16])), "LANG": "xx_YY.UTF-8", "TZ": "Asia/Tokyo",
         "KWS_EVAL": "1", "HOME": "/nonexistent", "POSIXLY_CORRECT": "1", "MALLOC_PERTURB_": "165"},
        {"LOCPATH": os.path.dirname(d) + "/locale" if "de_DE.UTF-8" in locs else None,
         "LC_ALL": rng.choice(locs) if locs else "C.UTF-8", "LANG": "de_DE.UTF-8", "LC_NUMERIC": "de_DE.UTF-8",
         "OMP_NUM_THREADS": "8", "OMP_DYNAMIC": "true", "MALLOC_ARENA_MAX": "1", "MALLOC_PERTURB_": "90",
         "X" * rng.randrange(1, 3000): "y" * rng.randrange(9000)},
        # hardly any variable at all, and the tool under another name
        {k: None for k in common.ENV if not k.endswith("SAN_OPTIONS")},
        # another clock, process number, user, terminal; the variables it asks for are noted ...
        {"LD_PRELOAD": shim, "KWS_E_LOG": d + "/asked", "KWS_E_ODD": str(rng.randrange(1, 6))},
        # ... and given a value
        {},
    ]
    results = []
    if tool != bins[(kind, "rel")]:
        del envs[4:]          # nothing may be preloaded before the sanitizers
    others = ["COLUMNS", "LINES", "TERM", "USER", "DEBUG", "VERBOSE", "SEED", "PRECISION", "NO_COLOR", "TMPDIR", "KWS_DEBUG", "GLOG_v", "LANGUAGE", "OMP_THREAD_LIMIT", "NUM_THREADS"]
    use_stdin = rng.random() < .2
    for k, extra in enumerate(envs):
        if k == 5:
            try:
                asked = set(open(d + "/asked", "rb").read().decode("latin-1").split("\n")) - {"", "GLIBCXX_TUNABLES"}
            except OSError:
                asked = set()
            asked = {x for x in asked if not x.startswith("KWS_E_") and not x.startswith("LD_")}
            c.count("variables_asked_for", len(asked))
            extra.update({x: rng.choice(["", "0", "1", "2", "7", "17", "true", "false", "C", "/tmp", "no", "de_DE.UTF-8"]) for x in sorted(asked) + rng.sample(others, 6)})
        sub = d + "/run%d" % k
        os.makedirs(sub)
        a = list(base)
        for name, f in outs:
            a += [name, f]
        if k == 2:
            for name, f in outs:
                gen.write(sub + "/" + f, "stale " * 5000)
        a += [r] if use_stdin else [r, h]
        binary = tool
        if k == 3:
            binary = sub + "/" + rng.choice(["x", "tool with blanks", "SimpleKwsEval", "--help"])
            os.symlink(tool, binary)
        p = common.run_tool(binary, a, stdin=ht.encode("latin-1") if use_stdin else None, env=extra, cwd=sub)
        files = {}
        for name, f in outs:
            try:
                files[f] = open(sub + "/" + f, "rb").read()
            except OSError:
                files[f] = None
        err = p.stderr
        results.append((p.returncode, p.stdout, err, files, a))
        c.count("runs")
    c.evals = 1
    c.replay = evalrun.replay_of(base, ref=rt, hyp=ht)
    for k in range(1, len(envs)):
        for part, name in ((0, "status"), (1, "stdout"), (2, "stderr"), (3, "files")):
            if results[k][part] != results[0][part]:
                c.bad("environment-changes-" + name, "environment %r\n%r\n----\n%r" % (
                    {x: y and y[:50] for x, y in envs[k].items() if len(x) < 100},
                    str(results[0][part])[:1500], str(results[k][part])[:1500]))
    if results[0][0] != 0:
        c.bad("status", "%r" % (results[0][:3],))
    elif not all(b for f, b in results[0][3].items()):
        c.bad("missing-file", "%r" % {f: b and len(b) for f, b in results[0][3].items()})
    parsed = model.parse_stdout(results[0][1])
    c.nontrivial = bool(parsed and any(parsed[n][0] for n in model.NAMES))
    c.count("output_bytes_compared", len(results[0][1]) + sum(len(b or b"") for b in results[0][3].values()))
    c.hash = (kind, base[:8], len(w.refs), len(w.hyps), results[0][1])
    c.sample = "%s, %d environments, outputs %s: %s" % (kind, len(envs), [f for _, f in outs], results[0][1].replace("\n", "; "))
    return c


def main(ctx):
    harness = os.path.exists(common.VERIF + "/harness/C20.cc")
    b = ctx.build([("C20", v) for v in ("san-tool", "rel", "tsan")] if harness else [])
    bins = evalrun.build_tools(ctx)
    if harness:
        ctx.harness(b[("C20", "san-tool")], ctx.n(400, 30000), "reuse-san", env={"C20_MODE": "reuse"})
        ctx.harness(b[("C20", "rel")], ctx.n(1500, 100000), "reuse-rel", env={"C20_MODE": "reuse"})
        ctx.harness(b[("C20", "tsan")], ctx.n(64, 4000), "threads-tsan", env={"C20_MODE": "threads"}, shards=2)
        ctx.harness(b[("C20", "rel")], ctx.n(150, 20000), "threads-rel", env={"C20_MODE": "threads"}, shards=2)
    locs = locales(ctx.scratch)
    ctx.count("locale_with_decimal_comma", int("de_DE.UTF-8" in locs))
    shim = ctx.scratch + "/envshim.so"
    common.run_capture(["gcc", "-O1", "-shared", "-fPIC", common.VERIF + "/harness/envshim.c", "-o", shim, "-ldl"], common.ENV, 100)
    if not os.path.exists(shim):
        raise RuntimeError("envshim.c does not build")
    ctx.cases(case, ctx.n(240, 9000), "environments", (bins, locs, shim))
    return ctx.finish(1000, 600)
