"""C14: curve files of the tools, and the sampling function (harness C14)."""
import os

from lib import common, evalrun, gen, model

RULE = ("One evaluation is one run writing a global and/or mean curve whose file is compared with the model's sampled "
        "curve, or one call of the library's sampling function compared with its definition. Non-trivial: at least two points and "
        "a value strictly between 0 and 1; or a degenerate request (fewer than two points, nothing to evaluate).")
ASSUMPTIONS = ["as C01",
               "where a grid point meets a recall value only up to rounding, both neighbouring values are accepted "
               "(points and recalls that are exact binary fractions are decided exactly)"]


def dyadic(num, den):
    """num/den exactly representable with few bits?"""
    if num == 0:
        return True
    from math import gcd
    den //= gcd(num, den)
    return den & (den - 1) == 0


def expected(pts, o, n):
    """Possible values at every grid point: list of tuples."""
    total = sum(p[3] for p in pts)
    pr, rc = model.curve(pts, o.interpolate)
    xs = model.grid(n)
    mid = model.sample_curve(pr, rc, xs, o.trapezoid)
    lo = model.sample_curve(pr, rc, xs, o.trapezoid, -1e-12)
    hi = model.sample_curve(pr, rc, xs, o.trapezoid, 1e-12)
    res = []
    for k in range(n if n > 1 else 0):
        exact = dyadic(k, n - 1)
        if exact:
            # a recall equal to this point is num/total with the same binary fraction
            res.append((mid[k],))
        else:
            res.append(tuple(sorted(set((lo[k], mid[k], hi[k])))))
    return res


def read_curve(path):
    text = open(path, "rb").read().decode("latin-1")
    if text and not text.endswith("\n"):
        raise ValueError("last line not terminated")
    rows = []
    for line in text.split("\n")[:-1]:
        a, b = line.split()
        rows.append((float(a), float(b)))
    return rows


def near(a, b):
    return abs(a - b) <= 6e-7 * max(abs(a), abs(b)) + 1e-9


def judge(c, what, path, n, choices, cmd, p):
    try:
        rows = read_curve(path)
    except (OSError, ValueError) as e:
        c.bad(what + "-unreadable", "%r\n%s" % (e, evalrun.shown(cmd, p)))
        return None
    xs = model.grid(n)
    if len(rows) != len(xs):
        c.bad(what + "-points", "%d points instead of %d\n%s" % (len(rows), len(xs), evalrun.shown(cmd, p)))
        return None
    for k, (x, y) in enumerate(rows):
        if not near(x, xs[k]):
            c.bad(what + "-recall", "point %d at recall %r instead of %r\n%s" % (k, x, xs[k], evalrun.shown(cmd, p)))
            return None
        if not (0 <= y <= 1):
            c.bad(what + "-range", "precision %r at point %d\n%s" % (y, k, evalrun.shown(cmd, p)))
            return None
        lo, hi = choices[k]
        if not (near(y, lo) or near(y, hi) or lo <= y <= hi):
            c.bad(what + "-value", "precision %r at recall %r, by definition %s\n%s" % (
                y, x, (lo, hi), evalrun.shown(cmd, p)))
            return None
    return rows


def case(rng, i, d, bins):
    c = common.Case()
    kind = "icdar" if rng.random() < 0.6 else "simple"
    o, args = gen.opts(rng, kind)
    t = rng.random()
    size = None
    if t < .25:
        # recalls that are exact binary fractions
        size = (rng.choice([1, 2, 4, 8, 16]), rng.randrange(0, 40))
    w = gen.world(rng, kind, size=size, scores=evalrun.distinct_if_needed(kind, o.collapse, o.order))
    if size and len(set(map(tuple, w.refs))) != len(w.refs):
        pass
    q2g = None
    args = list(args)
    if rng.random() < .3:
        qs = sorted(set(r[0] for r in w.refs + w.hyps))
        if rng.random() < .2:
            qs = ["absent"]
        txt = "".join("G%d %s\n" % (rng.randrange(3), q) for q in qs if rng.random() < .8)
        args += ["--query_groups", gen.write(d + "/grp", txt)]
        q2g = model.read_query_groups(txt)
    r, h, rt, ht = evalrun.save_inputs(d, w)
    n = rng.choice([0, 1, 2, 3, 4, 5, 9, 11, 17, 33, 64, 101, 257, 1001, 1001, None])
    if rng.random() < .02:
        n = rng.choice([20002, 32769, 70000])
    a2 = list(args)
    files = {}
    which = rng.choice(["g", "m", "gm", "gm"])
    for ch in which:
        files[ch] = d + "/" + ch + "rp.txt"
        if rng.random() < .3:
            gen.write(files[ch], "9 9\n" * 20000)      # longer than what is written
        a2 += ["--output_%srp" % ch, files[ch]]
    if n is not None:
        a2 += ["--rp_curve_samples", str(n)]
    else:
        n = 10000
    tool = evalrun.tools_of(bins, kind, rng, .3)
    cmd = [tool] + a2 + [r, h]
    p = common.run_tool(tool, a2 + [r, h])
    c.evals = 1
    c.replay = evalrun.replay_of(a2, ref=rt, hyp=ht)
    out = evalrun.check_ok(c, cmd, p)
    if not out:
        return c
    want, entries, rep, groups = model.evaluate(kind, w.ref_events(), w.hyp_events(), o, q2g)
    evalrun.check_values(c, out, want, cmd, p, "metric-with-curves")
    mid = 0
    if "g" in which:
        opt = expected(model.to_points(entries, o.collapse), o, n)
        rows = judge(c, "global", files["g"], n, [(min(v), max(v)) for v in opt], cmd, p)
        for x, y in rows or ():
            mid += 0 < y < 1
        c.count("points.global", len(rows or ()))
    if "m" in which:
        per = [expected(model.to_points(g, o.collapse), o, n) for g in groups]
        ch = []
        for k in range(len(model.grid(n))):
            if per:
                ch.append((sum(min(v[k]) for v in per) / len(per), sum(max(v[k]) for v in per) / len(per)))
            else:
                ch.append((0.0, 0.0))
        rows = judge(c, "mean", files["m"], n, ch, cmd, p)
        for x, y in rows or ():
            mid += 0 < y < 1
        c.count("points.mean", len(rows or ()))
        if not groups:
            c.count("mean_curves_without_queries")
    c.count("requested.%d" % n)
    c.nontrivial = (n > 1 and mid > 0) or n < 2 or not groups
    c.hash = (kind, sorted(args[:6]), which, n, sorted(out.items()))
    c.sample = "%s %s n=%d refs=%d hyps=%d %s" % (kind, which, n, len(w.refs), len(w.hyps), " ".join(args[:6]))
    return c


def large_case(rng, i, d, bins):
    """The mean curve of thousands of queries, at few points."""
    c = common.Case()
    kind = "icdar" if i % 2 == 0 else "simple"
    o, args = gen.opts(rng, kind)
    w = gen.World(kind)
    nq = rng.choice([300, 1500, 5000, 20000])
    box = ["1", "1", "9", "9"] if kind == "icdar" else []
    deep = rng.random() < .4                # long lists with little to be found
    if deep:
        nq = rng.choice([5, 13, 30, 80])
        c.count("long_lists")
    for q in range(nq):
        if deep:
            k, m = rng.randrange(1, 3), rng.choice([90, 120, 300, 1100])
            w.refs += [["q%d" % q, "d%d" % j] + box for j in range(k)]
            w.hyps += [["q%d" % q, "%s%d" % (("d", "x")[j >= k], j)] + box for j in range(m)]
            continue
        k, g = rng.randrange(1, 4), rng.randrange(0, 3)
        w.refs += [["q%d" % q, "d%d" % j] + box for j in range(k)]
        w.hyps += [["q%d" % q, "%s%d" % (rng.choice("dddx"), j)] + box for j in range(k + g)]
    for q in range(rng.choice([0, 1, 3])):  # hypotheses only, few or a crowd; references only
        w.hyps += [["n%d" % q, "d%d" % j] + box for j in range(rng.choice([1, 300, 5000, 9000]))]
        w.refs += [["m%d" % q, "d%d" % j] + box for j in range(rng.choice([1, 300, 5000]))]
        c.count("one_sided_queries", 2)
    scores = gen.distinct_scores(rng, len(w.hyps))
    w.hyps = [h + [s] for h, s in zip(w.hyps, scores)]
    rng.shuffle(w.refs)
    rng.shuffle(w.hyps)
    r, h, rt, ht = evalrun.save_inputs(d, w)
    n = rng.choice([2, 3, 5, 9, 12])
    files = {ch: d + "/" + ch for ch in "gm"}
    a2 = args + ["--output_grp", files["g"], "--output_mrp", files["m"], "--rp_curve_samples", str(n)]
    tool = bins[(kind, "rel")]
    cmd = [tool] + a2 + [r, h]
    p = common.run_tool(tool, cmd[1:], timeout=100)
    c.evals = 1
    c.replay = {"args": a2, "head": [rt[:2000], ht[:2000]]}
    out = evalrun.check_ok(c, cmd, p)
    if not out:
        return c
    want, entries, rep, groups = model.evaluate(kind, w.ref_events(), w.hyp_events(), o)
    opt = expected(model.to_points(entries, o.collapse), o, n)
    judge(c, "global", files["g"], n, [(min(v), max(v)) for v in opt], cmd, p)
    per = [expected(model.to_points(g, o.collapse), o, n) for g in groups]
    ch = [(sum(min(v[k]) for v in per) / len(per), sum(max(v[k]) for v in per) / len(per)) for k in range(n)]
    rows = judge(c, "mean", files["m"], n, ch, cmd, p)
    c.count("mean_curves_of_many_queries")
    c.count("points.mean", len(rows or ()))
    c.nontrivial = True
    c.hash = ("large", kind, n, nq, sorted(out.items()))
    c.sample = "large %s %d queries n=%d -> %s" % (kind, nq, n, rows)
    return c


def main(ctx):
    b = ctx.build([("C14", "san"), ("C14", "rel")] + [(t, v) for t in evalrun.TOOL.values() for v in ("san", "rel")])
    bins = {(k, v): b[(t, v)] for k, t in evalrun.TOOL.items() for v in ("san", "rel")}
    ctx.cases(case, ctx.n(1100, 24000), "files", (bins,))
    ctx.cases(large_case, ctx.n(10, 300), "many-queries", (bins,))
    for v in ("san", "rel"):
        ctx.harness(b[("C14", v)], ctx.n(6000, 300000), "sampling-" + v)
    return ctx.finish(500, 200)
