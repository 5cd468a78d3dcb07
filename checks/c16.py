"""C16: name tables (harness C16)."""
RULE = ("One evaluation is one history of up to 900 mappings of names, events and scored events through an owning mapper, copies, assigned and borrowing mappers "
        "over one table, checked against the order of first appearance; 8-bit tables are filled, 16-bit ones too now and then, and one table a run holds more than 2^24 names. "
        "Non-trivial: more than two new names and more than one seen again; distinct by the names.")
ASSUMPTIONS = ["the owner of a table outlives the mappers sharing it", "of two new names in one event either may take the lower number",
               "a failed event whose query and location were both new may have recorded one of them"]


def main(ctx):
    b = ctx.build([("C16", "san"), ("C16", "rel")])
    ctx.harness(b[("C16", "san")], ctx.n(800, 80000), "san")
    ctx.harness(b[("C16", "rel")], ctx.n(5000, 600000), "rel")
    ctx.harness(b[("C16", "rel")], 1, "giant", env={"VERIF_GIANT": "1"})
    return ctx.finish(3000, 1000)
