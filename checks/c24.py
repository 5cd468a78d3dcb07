"""C24: printing and reading boxes and events (harness C24)."""
RULE = ("One evaluation is one to four values of one of 17 kinds written to a stream and read back, compared field by field and position by position, and one text "
        "with a field missing or spoilt whose reading must fail. Every case is non-trivial; distinct by kind and text.")
ASSUMPTIONS = ["streams have their default format; real coordinates and scores have at most six significant digits; unsigned fields given negative numbers belong to C06"]


def main(ctx):
    b = ctx.build([("C24", "san"), ("C24", "rel")])
    ctx.harness(b[("C24", "san")], ctx.n(8000, 400000), "san")
    ctx.harness(b[("C24", "rel")], ctx.n(60000, 4000000), "rel")
    return ctx.finish(20000, 10000)
