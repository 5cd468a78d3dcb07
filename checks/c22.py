"""C22: grouping, sorting and collapsing of matches (harness C22)."""
RULE = ("One evaluation is one list of matches grouped, sorted or collapsed by the library, every resulting match and total compared with the list it came from, "
        "or one set of groups whose pooled and mean AP are compared with those of their error lists. Non-trivial: more than one group and fewer groups than matches; "
        "some entries merged and some not; or a value other than 0. Distinct by all contents.")
ASSUMPTIONS = ["scores are finite; the order of equal scores after sorting is not specified, values that depend on it are not compared"]


def main(ctx):
    b = ctx.build([("C22", "san"), ("C22", "rel")])
    ctx.harness(b[("C22", "san")], ctx.n(4000, 250000), "san")
    ctx.harness(b[("C22", "rel")], ctx.n(24000, 2000000), "rel")
    return ctx.finish(8000, 3000)
