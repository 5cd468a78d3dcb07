"""C15: command lines (harness C15), and the options of the tools."""
from lib import common, evalrun, gen, model

RULE = ("One evaluation is one random set of registered options and arguments of every type with one or two command lines whose verdict and resulting values are "
        "compared with an independent parser, or one tool run with a valid or spoilt option list. Non-trivial: at least two words and one variable; distinct by words and types.")
ASSUMPTIONS = ["literals are decimal; an empty word right after an option of truth value is left out (the tests fix that it means true)"]


BOOLS = ["collapse_matches", "interpolated_precision", "trapezoid_integral", "bootstrap_ci_gap", "bootstrap_ci_map", "bootstrap_ci_gndcg", "bootstrap_ci_mndcg"]


def tool_case(rng, i, d, bins):
    """The tools' own options: spoilt lines are refused with status 1, no metric, and a message."""
    c = common.Case()
    kind = rng.choice(["icdar", "simple"])
    tool = evalrun.tools_of(bins, kind, rng)
    w = gen.world(rng, kind, size=(4, 6))
    r, h, rt, ht = evalrun.save_inputs(d, w)
    good = [["--" + b] + rng.choice([["true"], ["false"], ["1"], ["0"]]) for b in rng.sample(BOOLS[:3], rng.randrange(0, 3))]
    good += [["--bootstrap_samples", str(rng.randrange(100))], ["--bootstrap_alpha", rng.choice(["0", "1", "0.5", "1e-3", ".25"])],
             ["--bootstrap_seed", rng.choice(["0", "18446744073709551615", "7"])], ["--rp_curve_samples", "5"], ["--sort", rng.choice(["asc", "desc", "none", "none", "Desc", "ascending", "", "asc ", "0"])]]
    rng.shuffle(good)
    good = good[:rng.randrange(0, 6)]
    if good and rng.random() < .3:           # given twice: the last one counts
        again = rng.choice(good)[0]
        good.append([again, rng.choice({"--sort": ["asc", "desc", "none"], "--bootstrap_alpha": ["0.25"]}.get(again, ["0", "1"]))])
        c.count("options_given_twice")
    for k, g in enumerate(good):            # an option of truth value needs no value
        if g[0][2:] in BOOLS[:3] and g[1] in ("true", "1") and k + 1 < len(good) and rng.random() < .5:
            good[k] = [g[0]]
    bad = rng.random() < .6
    pos = [r, h]
    if bad:
        b = rng.choice([["--unknown"], ["-sort", "desc"], ["--Sort", "desc"], ["--sort=desc"], ["--sor", "desc"], ["-x"], ["--bootstrap_samples", "-1"],
                        ["--bootstrap_samples", "1.5"], ["--bootstrap_samples", "ten"], ["--bootstrap_samples", ""], ["--bootstrap_alpha", "1.5"],
                        ["--bootstrap_alpha", "-0.1"], ["--bootstrap_alpha", "x"], ["--bootstrap_alpha", "nan"], ["--bootstrap_alpha", "0.5x"],
                        ["--bootstrap_seed", "18446744073709551616"], ["--rp_curve_samples", "-5"], ["--rp_curve_samples", "5 "],
                        ["--collapse_matches", "maybe"], ["--trapezoid_integral", "2"], ["--interpolated_precision", "True"], [gen.near_option(rng)], [gen.near_option(rng), "1"],
                        ["--collapse_matches", "False"], ["--trapezoid_integral", "yes"],
                        ["--bootstrap_seed", "-1"], ["--rp_curve_samples", "1e3"], ["--bootstrap_alpha", "5%"], ["--bootstrap_alpha", "1e400"], ["-" + rng.choice(gen.OPTION_NAMES)],
                        ["---" + rng.choice(gen.OPTION_NAMES)], "extra", "none", "last"])
        if b == "extra":
            pos = [r, h, h]
        elif b == "none":
            pos = []
        elif b == "last":
            pos = []
            good.append([rng.choice(["--sort", "--bootstrap_seed", "--query_set"])])
        else:
            good = [g for g in good if g[0] != b[0]]
            good.insert(rng.randrange(len(good) + 1), b)
    args = [x for g in good for x in g] + (["--"] if rng.random() < .3 else []) + pos
    cmd = [tool] + args
    p = common.run_tool(tool, args)
    c.evals = 1
    c.hash = (kind, args[:-2])
    c.nontrivial = True
    c.replay = evalrun.replay_of(args, ref=rt, hyp=ht)
    c.count("tool_lines_spoilt" if bad else "tool_lines_valid")
    if bad:
        if p.returncode != 1 or p.stdout or not p.stderr.strip():
            c.bad("tool-rejection", evalrun.shown(cmd, p))
        return c
    o = model.Opts()
    for g in good:
        if g[0][2:] in BOOLS[:3]:
            setattr(o, {"c": "collapse", "i": "interpolate", "t": "trapezoid"}[g[0][2]], g[1:] in ([], ["true"], ["1"]))
        if g[0] == "--sort":
            o.order = g[1] if g[1] in ("asc", "desc") else "none"     # anything else is announced and leaves the order of the file
    out = evalrun.check_ok(c, cmd, p)
    if out and not (kind == "simple" and not o.collapse and o.order != "none"):
        want = model.evaluate(kind, w.ref_events(), w.hyp_events(), o)[0]
        evalrun.check_values(c, out, want, cmd, p)
    return c


def main(ctx):
    b = ctx.build([("C15", "san"), ("C15", "rel")] + [(t, v) for t in evalrun.TOOL.values() for v in ("san", "rel")])
    bins = {(k, v): b[(t, v)] for k, t in evalrun.TOOL.items() for v in ("san", "rel")}
    ctx.harness(b[("C15", "san")], ctx.n(12000, 600000), "san")
    ctx.harness(b[("C15", "rel")], ctx.n(60000, 5000000), "rel")
    ctx.cases(tool_case, ctx.n(300, 6000), "tools", (bins,))
    return ctx.finish(20000, 5000)
