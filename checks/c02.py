"""C02: matching against an independent greedy model (harness C02)."""
RULE = ("One evaluation is one Match() call on generated references and hypotheses with one of seven scorers, whose whole result is "
        "compared with an independent greedy matching and checked for conservation. Non-trivial: at least one hit and "
        "one false positive, repetition or miss; distinct by the numbers of each.")
ASSUMPTIONS = ["box edges and areas below 2^32", "scorers are functions of the pair's contents"]


def main(ctx):
    b = ctx.build([("C02", "san"), ("C02", "rel")])
    ctx.harness(b[("C02", "san")], ctx.n(4000, 400000), "san")
    ctx.harness(b[("C02", "rel")], ctx.n(20000, 2000000), "rel")
    return ctx.finish(5000, 1000)
