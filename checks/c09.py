"""C09: harness C09."""
RULE = "One evaluation is one list or grouped collection whose NDCG is compared with a long double definition, with range, perfect-ranking, hit-moved-up and rank-of-misses checks. Non-trivial: at least two entries (or groups) and a reference; distinct by the contents."
ASSUMPTIONS = ["errors of one pair are below 1 on both sides (a pair with an error of 1 is not told from a miss by the error alone)"]


def main(ctx):
    b = ctx.build([("C09", "san"), ("C09", "rel")])
    ctx.harness(b[("C09", "san")], ctx.n(8000, 400000), "san")
    ctx.harness(b[("C09", "rel")], ctx.n(40000, 5000000), "rel")
    return ctx.finish(8000, 4000)
