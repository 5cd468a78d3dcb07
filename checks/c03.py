"""C03: exact areas (harness C03)."""
RULE = ("One evaluation is one batch: one box against all 625 placements of another on a 5x5 grid (anywhere in the coordinate range), or "
        "80 random pairs of any magnitude, for one of six coordinate types, through all members, free functions and events, compared with "
        "cell counting and 128-bit interval arithmetic. Non-trivial: some pair of the batch intersects; distinct by type and box.")
ASSUMPTIONS = ["box sizes are not negative; far edges and the sum of both areas are representable"]


def main(ctx):
    b = ctx.build([("C03", "san"), ("C03", "rel")])
    ctx.harness(b[("C03", "san")], ctx.n(4000, 200000), "san")
    ctx.harness(b[("C03", "rel")], ctx.n(20000, 1500000), "rel")
    return ctx.finish(4000, 1000)
