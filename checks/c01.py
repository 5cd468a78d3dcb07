"""C01: printed metrics against the reference model, on whole runs of the tools."""
import os
import random

from lib import common, evalrun, gen, model

RULE = ("One evaluation is one run of a tool on a generated (or example) pair of files with one option set, "
        "its four printed metrics compared with the reference model. Non-trivial: at least one hypothesis, one "
        "reference and a metric strictly between 0 and 1, or one of the degenerate kinds (no references, no "
        "hypotheses, a query without references); distinct by kind, printed metrics, options and sizes.")
ASSUMPTIONS = [
    "far edges and areas below 2^32; no overlap ratio within single-precision rounding of the threshold for areas above 2^24",
    "the simple tool's order of equal scores is not fixed: with ties it is only run collapsed or unsorted",
]


def note(c, kind, w, o, out, entries):
    c.count("runs." + kind)
    c.count("order." + o.order)
    c.count("options.c%di%dt%d" % (o.collapse, o.interpolate, o.trapezoid))
    hits = sum(1 for e in entries if e.hyp is not None and e.ref is not None)
    fps = sum(1 for e in entries if e.ref is None)
    miss = sum(1 for e in entries if e.hyp is None)
    c.count("events.hits", hits)
    c.count("events.false_positives", fps)
    c.count("events.misses", miss)
    c.count("events.repetitions", len(w.hyps) - hits - fps)
    mid = any(0 < out[n][0] < 1 for n in model.NAMES)
    refq = set(r[0] for r in w.refs)
    noref = any(h[0] not in refq for h in w.hyps)
    if noref:
        c.count("with_query_without_references")
    if not w.refs:
        c.count("without_references")
    if not w.hyps:
        c.count("without_hypotheses")
    c.nontrivial = bool(mid or noref or not w.refs or not w.hyps)


def case(rng, i, d, bins):
    c = common.Case()
    kind = "icdar" if rng.random() < 0.65 else "simple"
    o, args = gen.opts(rng, kind)
    w = gen.world(rng, kind, scores=evalrun.distinct_if_needed(kind, o.collapse, o.order))
    r, h, rt, ht = evalrun.save_inputs(d, w, rng, "odd" if rng.random() < .3 else None)
    if rng.random() < .15:          # writing the curves or the matches changes no metric
        for name in rng.sample(["output_grp", "output_mrp", "dump_matches"], rng.randrange(1, 4)):
            args = args + ["--" + name, d + "/" + name]
        if rng.random() < .5:
            args = args + ["--rp_curve_samples", str(rng.choice([0, 1, 2, 7, 100]))]
        c.count("runs.with_outputs")
    want, entries, rep, groups = model.evaluate(kind, w.ref_events(), w.hyp_events(), o)
    tool = evalrun.tools_of(bins, kind, rng)
    cmd = [tool] + args + [r, h]
    p = common.run_tool(tool, args + [r, h])
    c.evals = 1
    c.replay = evalrun.replay_of(args, ref=rt, hyp=ht)
    out = evalrun.check_ok(c, cmd, p)
    if out:
        evalrun.check_values(c, out, want, cmd, p)
        note(c, kind, w, o, out, entries)
        c.hash = (kind, sorted(args), len(w.refs), len(w.hyps), sorted((k, v[0]) for k, v in out.items()))
        c.sample = "%s refs=%d hyps=%d args=%s -> %s" % (
            kind, len(w.refs), len(w.hyps), " ".join(args), p.stdout.replace("\n", "; "))
    return c


def corpus_case(rng, i, d, bins, files):
    """A run over a shipped corpus with a simulated spotting system."""
    c = common.Case()
    kind, path = files[i % len(files)]
    text = open(path, "rb").read().decode("latin-1")
    # (the shipped ground truth has a few negative coordinates: known finding of C06)
    refs = []
    for line in text.split("\n"):
        try:
            refs += model.read_events(kind, False, line)
        except model.Bad:
            c.count("corpus_lines_left_out")
    o, args = gen.opts(rng, kind)
    w = gen.World(kind)
    take = refs if len(refs) < 6000 else rng.sample(refs, rng.choice([2000, 6000, min(len(refs), 15000)]))
    w.refs = [list(x[:2]) + [str(v) for v in x[2:]] for x in take]
    n = rng.choice([500, 3000, 8000])
    distinct = evalrun.distinct_if_needed(kind, o.collapse, o.order)
    scores = gen.distinct_scores(rng, n) if distinct else ["%.3f" % rng.random() for _ in range(n)]
    qs = sorted(set(x[0] for x in take))[:400]
    for k in range(n):
        x = rng.choice(take)
        if kind == "icdar":
            b = gen.derive_box(rng, x[2:6], "page") if rng.random() < .8 else gen.rand_box(rng, "page")
            row = [x[0] if rng.random() < .8 else rng.choice(qs), x[1]] + [str(v) for v in b]
        else:
            row = [x[0] if rng.random() < .7 else rng.choice(qs), x[1]]
        w.hyps.append(row + [scores[k]])
    r, h, rt, ht = evalrun.save_inputs(d, w)
    want, entries, rep, groups = model.evaluate(kind, w.ref_events(), w.hyp_events(), o)
    tool = bins[(kind, "rel")]
    p = common.run_tool(tool, args + [r, h], timeout=120)
    c.evals = 1
    c.replay = {"args": args, "corpus": path}
    out = evalrun.check_ok(c, [tool] + args + [r, h], p)
    if out:
        evalrun.check_values(c, out, want, [tool] + args + [r, h], p)
        note(c, kind, w, o, out, entries)
        c.hash = (path, sorted(args), len(w.refs), n, sorted((k, v[0]) for k, v in out.items()))
        c.sample = "corpus %s refs=%d hyps=%d args=%s -> %s" % (
            os.path.basename(path), len(w.refs), n, " ".join(args), p.stdout.replace("\n", "; "))
    return c


def big_case(rng, i, d, bins):
    """Very large inputs, and many boxes over each other (release build)."""
    c = common.Case()
    kind = "icdar" if i % 2 == 0 else "simple"
    w = gen.big_world(rng, kind)
    o, args = gen.opts(rng, kind)
    if kind == "simple" and not w.distinct and o.order != "none":
        o.collapse = True
        args = ["--collapse_matches", "true"] + [a for k, a in enumerate(args) if a != "--collapse_matches" and (k == 0 or args[k - 1] != "--collapse_matches")]
    r, h, rt, ht = evalrun.save_inputs(d, w)
    want, entries, rep, groups = model.evaluate(kind, w.ref_events(), w.hyp_events(), o)
    tool = bins[(kind, "rel")]
    p = common.run_tool(tool, args + [r, h], timeout=150)
    c.evals = 1
    c.replay = {"args": args, "shape": w.shape, "head": [rt[:3000], ht[:3000]]}
    out = evalrun.check_ok(c, [tool] + args + [r, h], p)
    if out:
        evalrun.check_values(c, out, want, [tool] + args + [r, h], p)
        note(c, kind, w, o, out, entries)
        c.count("big." + w.shape)
        c.hash = ("big", kind, sorted(args), len(w.refs), len(w.hyps), sorted((k, v[0]) for k, v in out.items()))
        c.sample = "big %s %s refs=%d hyps=%d groups=%d args=%s -> %s" % (
            kind, w.shape, len(w.refs), len(w.hyps), len(groups), " ".join(args), p.stdout.replace("\n", "; "))
    return c


def main(ctx):
    bins = evalrun.build_tools(ctx)
    ctx.cases(big_case, ctx.n(20, 400), "big", (bins,))
    ctx.cases(case, ctx.n(2400, 60000), "generated", (bins,))
    ex = common.REPO + "/examples/"
    files = []
    for kind, rel in (("icdar", "Icdar17KwsEval/Valid_KWS_GT.ALL.2x.txt"),
                      ("simple", "SimpleKwsEval/ref_cv1.txt"), ("simple", "SimpleKwsEval/ref_cv3.txt"),
                      ("icdar", "Icdar17KwsEval/ref.txt")):
        if os.path.exists(ex + rel):
            files.append((kind, ex + rel))
    if files:
        ctx.cases(corpus_case, ctx.n(16, 240), "corpus", (bins, files))
    return ctx.finish(1000, 300)
