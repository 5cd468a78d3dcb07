"""C07: histories of event sets against plain sets (harness C07)."""
RULE = ("One evaluation is one history of up to 150 insertions, removals, clears, copies and overlap queries on a set built empty or from a range, "
        "its size compared after each step and each query's result list compared exactly with a plain set. "
        "Non-trivial: at least two steps changed the set, one of them a removal; distinct by the history.")
ASSUMPTIONS = ["far edges and areas fit in 32 bits"]


def main(ctx):
    b = ctx.build([("C07", "san"), ("C07", "rel")])
    ctx.harness(b[("C07", "san")], ctx.n(6000, 300000), "san")
    ctx.harness(b[("C07", "rel")], ctx.n(30000, 2500000), "rel")
    return ctx.finish(5000, 2000)
