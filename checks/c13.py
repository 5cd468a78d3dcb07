"""C13: bootstrap intervals, in the library (harness C13) and printed by the tools."""
from lib import common, evalrun, gen, model

RULE = ("One evaluation is one bootstrap computation: in the harness, with a recording statistic and sampler whose order "
        "statistics are recomputed; in the tools, runs with intervals requested (several alpha/samples/seed values over one input). "
        "Non-trivial: R >= 2 with at least two different deviations, or an edge case (R <= 1, alpha 0 or 1).")
ASSUMPTIONS = [
    "tool runs: intervals are judged by relations (order, nesting, range, repeatability, point estimate), the order statistics themselves in the harness",
    "known findings: with --sort asc/none, or uncollapsed ties, the tools re-sort the matches before computing the point estimate",
]
FLAGS = {"gAP": "bootstrap_ci_gap", "mAP": "bootstrap_ci_map", "gNDCG": "bootstrap_ci_gndcg", "mNDCG": "bootstrap_ci_mndcg"}


def eq(a, b):
    return abs(a - b) <= 1.1e-5 * max(abs(a), abs(b)) + 1e-9


def case(rng, i, d, bins, boot):
    c = common.Case()
    kind = "icdar" if rng.random() < 0.6 else "simple"
    o, args = gen.opts(rng, kind)
    # uncollapsed ties: known finding, probed separately
    rare = rng.random() < .1               # hits so few that a sample may have none
    w = gen.world(rng, kind, size=(rng.randrange(1, 3), rng.randrange(5, 25)) if rare else (rng.randrange(0, 14), rng.randrange(0, 25)),
                  scores="distinct" if not o.collapse or rng.random() < .3 else None)
    if rare and w.hyps and rng.random() < .6:
        q = rng.choice(w.hyps)[0]
        w.refs, w.hyps = [[q] + list(x[1:]) for x in w.refs], [[q] + list(x[1:]) for x in w.hyps]
    r, h, rt, ht = evalrun.save_inputs(d, w)
    tool = evalrun.tools_of(bins, kind, rng)
    want, entries, rep, groups = model.evaluate(kind, w.ref_events(), w.hyp_events(), o)
    want2 = model.metrics(model.resorted(entries), [model.resorted(g) for g in groups],
                          o.collapse, o.interpolate, o.trapezoid)
    stats = [n for n in model.NAMES if rng.random() < .5] or [rng.choice(model.NAMES)]
    seed = str(rng.choice([0, 1, 74565, rng.randrange(1 << 32)]))
    R = rng.choice([0, 1, 2, 3, 7, 20, 50, 51]) if not rare else rng.choice([50, 101, 150, 257])
    alphas = sorted(rng.sample([0.0, 0.01, 0.05, 0.1, 0.25, 0.5, 0.9, 0.95, 0.99, 1.0], 3))
    res = []
    c.replay = evalrun.replay_of([args, stats, seed, R, alphas], ref=rt, hyp=ht)
    for a in alphas + [alphas[0]]:
        a2 = list(args)
        for n in stats:
            a2 += ["--" + FLAGS[n]] + rng.choice([[], ["true"], ["1"]])
        a2 += ["--bootstrap_samples", str(R), "--bootstrap_seed", seed, "--bootstrap_alpha", repr(a)]
        cmd = [tool] + a2 + [r, h]
        p = common.run_tool(tool, a2 + [r, h])
        c.evals += 1
        out = evalrun.check_ok(c, cmd, p)
        if not out:
            return c
        res.append((a, out, cmd, p))
        # the same interval computed with the library, sample by sample
        q = common.run_capture([boot, kind, r, h, o.order] + [str(int(x)) for x in (o.collapse, o.interpolate, o.trapezoid)] +
                               [str(R), repr(a), seed], common.ENV, 120)
        lib = [[float(x) for x in ln.split()] for ln in q.stdout.split("\n") if ln]
        if q.returncode != 0 or len(lib) != 4:
            c.inconclusive = "interval harness: status %s %s" % (q.returncode, q.stderr[-500:])
            return c
        for n in model.NAMES:
            v, ci = out[n]
            if (ci is not None) != (n in stats):
                c.bad("interval-presence", "%s\n%s" % (n, evalrun.shown(cmd, p)))
                return c
            ok = model.close(v, want[n])
            if not ok and o.order in ("asc", "none") and n in stats and model.close(v, want2[n]):
                ok = True                       # the known finding, and nothing else
                c.count("point_estimate_resorted")
            if not ok:
                c.bad("point-estimate", "%s printed %r, without intervals %r\n%s" % (
                    n, v, want[n], evalrun.shown(cmd, p)))
                return c
            if ci is None:
                continue
            lo, up = ci
            tol = 2e-5
            _, llo, lup = lib[model.NAMES.index(n)]
            if not (eq(lo, llo) and eq(up, lup)):
                c.bad("interval", "%s: with the requested samples, seed and alpha the interval is [%.9g, %.9g]\n%s" % (
                    n, llo, lup, evalrun.shown(cmd, p)))
                return c
            c.count("intervals_recomputed")
            if not lo <= up + tol * (abs(lo) + 1e-3):
                c.bad("bounds-order", "%s\n%s" % (n, evalrun.shown(cmd, p)))
            elif lo < 2 * v - 1 - tol or up > 2 * v + tol:
                c.bad("bounds-range", "%s outside [2v-1, 2v]\n%s" % (n, evalrun.shown(cmd, p)))
            elif (R == 0 and not (eq(lo, v) and eq(up, v))) or (R == 1 and not eq(lo, up)) or \
                    (a == 1.0 and not eq(lo, up)):
                c.bad("bounds-degenerate", "%s\n%s" % (n, evalrun.shown(cmd, p)))
            if lo < up:
                c.count("intervals_with_width")
                c.nontrivial = True
            else:
                c.count("intervals_without_width")
    if R <= 1 or alphas[0] == 0.0 or alphas[-1] == 1.0:
        c.nontrivial = True
    if res[0][3].stdout != res[-1][3].stdout:
        c.bad("not-repeatable", evalrun.shown(res[0][2], res[0][3]) + evalrun.shown(res[-1][2], res[-1][3]))
    for (a1, o1, c1, p1), (a2, o2, c2, p2) in zip(res, res[1:3]):
        for n in stats:
            (l1, u1), (l2, u2) = o1[n][1], o2[n][1]
            t = 2e-5
            if l2 < l1 - t * (abs(l1) + 1e-3) or u2 > u1 + t * (abs(u1) + 1e-3):
                c.bad("not-nested", "%s alpha %r and %r\n%s\n%s" % (n, a1, a2, evalrun.shown(c1, p1), evalrun.shown(c2, p2)))
    c.count("R.%d" % R)
    c.hash = (kind, sorted(args), stats, R, seed, sorted(res[0][1].items()))
    c.sample = "%s R=%d seed=%s alphas=%s: %s" % (kind, R, seed, alphas, res[0][3].stdout.replace("\n", "; "))
    return c


PROBE_REF = "q1 d 0 0 10 10\nq1 d 20 0 10 10\nq2 d 0 0 10 10\n"
PROBE_HYP = ("q1 d 0 0 10 10 0.9\nq1 d 50 0 10 10 0.5\nq2 d 0 0 10 10 0.4\nq1 d 20 0 10 10 0.3\n"
             "q2 d 90 0 10 10 0.2\n")


def probes(ctx, bins):
    """The known findings, each on its own input: value with an interval against value without."""
    if ctx.only_case is not None or ctx.only_part not in (None, "probes"):
        return
    d = ctx.scratch
    tool = bins[("icdar", "san")]
    ties_ref = "".join("q%02d d %d 0 10 10\n" % (k % 3, 20 * k) for k in range(40))
    ties_hyp = "".join("q%02d d %d 0 10 10 0.5\n" % (k % 3, 20 * k if k % 2 else 5000 + 20 * k) for k in range(40))
    probes_ = [("bootstrap-sort-asc", ["--sort", "asc"], PROBE_REF, PROBE_HYP),
               ("bootstrap-sort-none", ["--sort", "none"], PROBE_REF,
                "\n".join(reversed(PROBE_HYP.strip().split("\n"))) + "\n"),
               ("bootstrap-uncollapsed-ties", ["--collapse_matches", "false"], ties_ref, ties_hyp)]
    for key, extra, rt, ht in probes_:
        r, h = gen.write(d + "/pr", rt), gen.write(d + "/ph", ht)
        p0 = common.run_tool(tool, extra + [r, h])
        a = list(extra)
        for n in model.NAMES:
            a += ["--" + FLAGS[n]]
        a += ["--bootstrap_samples", "5"]
        p1 = common.run_tool(tool, a + [r, h])
        o0, o1 = model.parse_stdout(p0.stdout), model.parse_stdout(p1.stdout)
        ctx.evals += 1
        if o0 is None or o1 is None:
            ctx.violation("probe-run", evalrun.shown([tool] + a, p1), {"property": "C13", "probe": key})
        elif any(not eq(o0[n][0], o1[n][0]) for n in model.NAMES):
            ctx.known_hits.append((key, "%s\n%s" % (p0.stdout, p1.stdout)))


def main(ctx):
    b = ctx.build([("C13", "san"), ("C13", "rel"), ("BOOT", "rel")] + [(t, v) for t in evalrun.TOOL.values() for v in ("san", "rel")])
    bins = {(k, v): b[(t, v)] for k, t in evalrun.TOOL.items() for v in ("san", "rel")}
    for v in ("san", "rel"):
        ctx.harness(b[("C13", v)], ctx.n(2500, 120000), "library-" + v)
    ctx.cases(case, ctx.n(400, 9000), "tools", (bins, b[("BOOT", "rel")]))
    probes(ctx, bins)
    return ctx.finish(500, 200)
