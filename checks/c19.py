"""C19: matches and error counts (harness C19)."""
RULE = ("One evaluation is one history of up to 42 constructions, copies, assignments, moves, changes, swaps and destructions of up to 8 matches, all of whose contents "
        "and the number of live events inside are compared after every step, or one sum of errors taken in two orders and ways. "
        "Non-trivial: more than two effective steps (sums: more than two terms); distinct by the history and final contents.")
ASSUMPTIONS = ["what a moved-from match holds is not specified; it may be destroyed or assigned"]


def main(ctx):
    b = ctx.build([("C19", "san"), ("C19", "rel")])
    ctx.harness(b[("C19", "san")], ctx.n(8000, 400000), "san")
    ctx.harness(b[("C19", "rel")], ctx.n(40000, 3000000), "rel")
    return ctx.finish(10000, 4000)
