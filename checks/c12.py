"""C12: bootstrap samplers (harness C12)."""
RULE = ("One evaluation is one collection of matches from which 12 or 1500-2000 samples are drawn, each into a fresh or used output and judged match by match, "
        "with draw frequencies, repeatability and difference of seeds. Non-trivial: at least two groups and three matches (flat: three matches); distinct by seed and sizes.")
ASSUMPTIONS = ["seeds from 1 to 2^31-3 (the engine takes seeds modulo 2^31-1, and 0 as 1)",
               "frequencies are judged at 7 standard deviations of the binomial law"]


def main(ctx):
    b = ctx.build([("C12", "san"), ("C12", "rel")])
    ctx.harness(b[("C12", "san")], ctx.n(1500, 60000), "san")
    ctx.harness(b[("C12", "rel")], ctx.n(8000, 600000), "rel")
    return ctx.finish(3000, 1000)
