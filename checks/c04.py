"""C04: scorers against exact ratios (harness C04)."""
RULE = ("One evaluation is one reference/hypothesis pair scored by the four scorers, two of them at up to 17 thresholds including ones just "
        "below, at and above the pair's own ratio, against exact ratios. Non-trivial: equal queries and a positive intersection; distinct by the boxes.")
ASSUMPTIONS = ["union area below 2^32", "a ratio within 5e-7 of the threshold (relative), but not equal to it, may go either way"]


def main(ctx):
    b = ctx.build([("C04", "san"), ("C04", "rel")])
    ctx.harness(b[("C04", "san")], ctx.n(8000, 600000), "san")
    ctx.harness(b[("C04", "rel")], ctx.n(60000, 6000000), "rel")
    return ctx.finish(5000, 2000)
