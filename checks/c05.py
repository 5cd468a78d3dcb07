"""C05: comparison operators against tuples (harness C05)."""
RULE = ("One evaluation is one group of 9 to 14 values of a kind, all of whose pairs (six operators) and triples (transitivity) are checked "
        "against the order of plain tuples. Non-trivial: the group has distinct as well as equal values; distinct by the values.")
ASSUMPTIONS = ["scores are numbers (no NaN)"]


def main(ctx):
    b = ctx.build([("C05", "san-tool"), ("C05", "rel")])
    ctx.harness(b[("C05", "san-tool")], ctx.n(2000, 200000), "san")
    ctx.harness(b[("C05", "rel")], ctx.n(12000, 1500000), "rel")
    return ctx.finish(3000, 1000)
