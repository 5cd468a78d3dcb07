"""C10: metamorphic pairs of runs of the tools."""
import os

from lib import common, evalrun, gen, model

RULE = ("One evaluation is one pair of runs: the original input and the same evaluation presented differently by "
        "one to four composed transformations; the four printed metrics must agree. Non-trivial: the transformation "
        "changed the bytes given to the tool and some metric is not 0; distinct by kind, transformations, sizes and metrics.")
ASSUMPTIONS = ["metrics are compared at the printed precision (one unit of the sixth digit)",
               "ascending sort on negated scores is only compared when scores are distinct (ties contend in their sort order)"]


def fresh_names(rng, names, forbidden_hash):
    pool = list(names)
    style = rng.randrange(4)
    if style == 0:                       # a permutation of the same names
        new = pool[:]
        rng.shuffle(new)
    elif style == 1:
        new = ["n%05d" % k for k in rng.sample(range(99999), len(pool))]
    elif style == 2:
        # long, equal but for the end
        n = rng.choice([14, 30, 62, 126, 254, 510, 1022, 2046])
        new = ["L" * (n + rng.randrange(4)) + "%x" % k for k in rng.sample(range(99999), len(pool))]
    else:
        new = [gen.enc("\u00e9%x\u4e2d" % k) for k in rng.sample(range(99999), len(pool))]
    return dict(zip(pool, new))


def t_reorder(rng, w):
    rng.shuffle(w.refs)
    rng.shuffle(w.hyps)


def t_dup(rng, w):
    for _ in range(rng.randrange(1, 5)):
        if w.refs:
            w.refs.insert(rng.randrange(len(w.refs) + 1), list(rng.choice(w.refs)))


def t_rename_query(rng, w):
    m = fresh_names(rng, sorted(set(r[0] for r in w.refs + w.hyps)), True)
    for r in w.refs + w.hyps:
        r[0] = m[r[0]]


def t_rename_doc(rng, w):
    m = fresh_names(rng, sorted(set(r[1] for r in w.refs + w.hyps)), False)
    for r in w.refs + w.hyps:
        r[1] = m[r[1]]


def t_translate(rng, w):
    if w.kind != "icdar":
        return t_rename_doc(rng, w)
    by_doc = {}
    for r in w.refs + w.hyps:
        by_doc.setdefault(r[1], []).append(r)
    for rows in by_doc.values():
        for k, size in ((2, 4), (3, 5)):
            lo = min(int(r[k]) for r in rows)
            hi = model.U32 - 1 - max(int(r[k]) + int(r[size]) for r in rows)
            d = rng.choice([-lo, hi, rng.randrange(-lo, hi + 1), rng.randrange(-min(lo, 50), min(hi, 50) + 1)])
            for r in rows:
                r[k] = str(int(r[k]) + d)


def t_scores(rng, w):
    vals = sorted(set(model.strtof(h[-1]) for h in w.hyps))
    start = rng.randrange(-1000, 1000)
    step = rng.choice([1, 3, 1000])
    mode = rng.randrange(2)
    if mode == 0:
        new = {v: str(start + step * k) for k, v in enumerate(vals)}
    else:
        new = {v: "%de-3" % (start + step * k) for k, v in enumerate(vals)}
        if len(set(model.strtof(t) for t in new.values())) != len(vals):
            return
    for h in w.hyps:
        h[-1] = new[model.strtof(h[-1]) + 0.0]


TRANS = {"reorder": t_reorder, "duplicate_refs": t_dup, "rename_queries": t_rename_query,
         "rename_documents": t_rename_doc, "translate": t_translate, "rescale_scores": t_scores}


def case(rng, i, d, bins, large=False):
    c = common.Case()
    kind = "icdar" if rng.random() < 0.65 else "simple"
    o, args = gen.opts(rng, kind)
    # default sort and collapsing; interpolation and integration may vary
    args = [a for k in range(0, len(args), 2) if args[k] not in ("--sort", "--collapse_matches")
            for a in args[k:k + 2]]
    negate = rng.random() < 0.15
    if large:
        negate = False
        w = gen.big_world(rng, kind, 70000)
        c.count("shape." + w.shape)
    else:
        w = gen.world(rng, kind, scores="distinct" if negate else None)
    tool = evalrun.tools_of(bins, kind, rng, 0.0 if large else 0.3)
    r, h, rt, ht = evalrun.save_inputs(d, w)
    p1 = common.run_tool(tool, args + [r, h])
    out1 = evalrun.check_ok(c, [tool] + args + [r, h], p1)
    names = rng.sample(sorted(TRANS), rng.choice([1, 1, 1, 2, 3]))
    args2 = list(args)
    for n in names:
        TRANS[n](rng, w)
    style = "odd" if rng.random() < .3 else None
    stdin = None
    if style:
        names.append("comments_blanks")
    if negate:
        names.append("negated_ascending")
        for row in w.hyps:
            v = -model.strtof(row[-1])
            row[-1] = repr(v)
        args2 += ["--sort", "asc"]
    r2 = gen.write(d + "/ref2.txt", w.text("refs", rng, style))
    ht2 = w.text("hyps", rng, style)
    files = [r2]
    if rng.random() < .25:
        names.append("stdin")
        stdin = ht2.encode("latin-1")
    else:
        files.append(gen.write(d + "/hyp2.txt", ht2))
    p2 = common.run_tool(tool, args2 + files, stdin=stdin)
    out2 = evalrun.check_ok(c, [tool] + args2 + files, p2)
    c.evals = 1
    c.replay = evalrun.replay_of([args, args2], ref=rt, hyp=ht, ref2=w.text("refs"), hyp2=ht2)
    for n in names:
        c.count("with." + n)
    if out1 and out2:
        for n in model.NAMES:
            a, b = out1[n][0], out2[n][0]
            if not abs(a - b) <= 1.1e-5 * max(abs(a), abs(b)) + 1e-9:
                c.bad("changed-by-" + "+".join(sorted(names)), "%s: %r became %r\n%s\n%s" % (
                    n, a, b, evalrun.shown([tool] + args + [r, h], p1),
                    evalrun.shown([tool] + args2 + files, p2)))
                break
        c.nontrivial = any(out1[n][0] for n in model.NAMES)
        c.hash = (kind, sorted(names), len(w.refs), len(w.hyps), sorted(out1.items()))
        c.sample = "%s %s refs=%d hyps=%d: %s" % (kind, "+".join(names), len(w.refs), len(w.hyps),
                                                  p1.stdout.replace("\n", "; "))
    return c


def main(ctx):
    bins = evalrun.build_tools(ctx)
    ctx.cases(case, ctx.n(1600, 40000), "pairs", (bins,))
    ctx.cases(case, ctx.n(16, 400), "large", (bins, True))
    return ctx.finish(800, 300)
