"""C08: harness C08."""
RULE = "One evaluation is one list of errors, counts or matches (or one free curve) whose every point, interpolated or not, and average precision, trapezoid or not, are compared with long double definitions, with range, monotonicity, repetition and hit-count checks. Non-trivial: at least two entries and a reference; distinct by the list and options."
ASSUMPTIONS = ["errors of one pair are below 1 on both sides (a pair with an error of 1 is not told from a miss by the error alone)"]


def main(ctx):
    b = ctx.build([("C08", "san"), ("C08", "rel")])
    ctx.harness(b[("C08", "san")], ctx.n(8000, 400000), "san")
    ctx.harness(b[("C08", "rel")], ctx.n(40000, 5000000), "rel")
    return ctx.finish(8000, 4000)
