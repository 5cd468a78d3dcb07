"""C23: help texts (harness C23), and --help of the tools."""
import os

from lib import common, evalrun, gen, model

RULE = ("One evaluation is one random program (name, description, options and arguments of every type) whose help text is taken apart line by line before and after values change, "
        "one refused registration, one --help in a child process, or one tool run asking for --help. Non-trivial: several options and an argument; distinct by the text.")
ASSUMPTIONS = ["help texts and names are of one line, names without blanks; floating types may be called anything"]

OPTIONS = {  # name -> (type, default)
    "bootstrap_alpha": (None, "0.05"), "bootstrap_ci_gap": ("bool", "false"), "bootstrap_ci_gndcg": ("bool", "false"),
    "bootstrap_ci_map": ("bool", "false"), "bootstrap_ci_mndcg": ("bool", "false"), "bootstrap_samples": ("uint64_t", "10000"),
    "bootstrap_seed": ("uint64_t", "74565"), "collapse_matches": ("bool", "true"), "dump_matches": ("string", ""),
    "interpolated_precision": ("bool", "true"), "output_grp": ("string", ""), "output_mrp": ("string", ""), "query_groups": ("string", ""),
    "query_set": ("string", ""), "rp_curve_samples": ("uint64_t", "10000"), "sort": ("string", "desc"), "trapezoid_integral": ("bool", "true"),
}


def tool_case(rng, i, d, bins):
    c = common.Case()
    kind = rng.choice(["icdar", "simple"])
    tool = evalrun.tools_of(bins, kind, rng)
    w = gen.world(rng, kind, size=(4, 6))
    r, h, rt, ht = evalrun.save_inputs(d, w)
    values = {k: v for k, (t, v) in OPTIONS.items()}
    groups = []
    for name in rng.sample(sorted(OPTIONS), rng.randrange(0, 6)):
        t = OPTIONS[name][0]
        v = (rng.choice(["true", "false"]) if t == "bool" else str(rng.randrange(1000)) if t == "uint64_t" else
             rng.choice(["0.5", "0.25", "1"]) if t is None else rng.choice(["asc", "none"]) if name == "sort" else os.path.join(d, "out-" + name))
        groups.append(["--" + name, v])
        values[name] = v
    groups.insert(rng.randrange(len(groups) + 1), ["--help"])
    pos = rng.choice([[], [r], [r, h], ["/nonexistent"], ["--", r, h]])
    args = [x for g in groups for x in g] + pos
    p = common.run_tool(tool, args, cwd=d)
    c.evals = 1
    c.nontrivial = True
    c.hash = (kind, args)
    c.replay = evalrun.replay_of(args)
    c.count("tool_help_runs")
    shown = evalrun.shown([tool] + args, p)
    if p.returncode != 0:
        c.bad("tool-help-status", shown)
    if p.stdout:
        c.bad("tool-help-stdout", shown)
    left = sorted(os.listdir(d))
    if left != ["hyp.txt", "ref.txt"]:
        c.bad("tool-help-evaluated", "files written: %r\n%s" % (left, shown))
    if "INFO" in p.stderr:
        c.bad("tool-help-evaluated", shown)
    rows = []
    for line in p.stderr.split("\n"):
        t = line.split()
        if len(t) > 2 and (t[0].startswith("--") or t[0] in ("references", "hypotheses")) and t[1] == ":":
            rows.append((t[0], line))
    want = ["references", "hypotheses"] + ["--" + n for n in sorted(OPTIONS)]
    # options of later versions may join these, in order
    got = [n for n, _ in rows]
    if [n for n in got if n in want] != want or got[2:] != sorted(got[2:]):
        c.bad("tool-help-lines", "%r\n%s" % (got, shown))
    for n, line in rows:
        if n.startswith("--") and n[2:] in values:
            t, _ = OPTIONS[n[2:]]
            tail = ', value = "%s")' % values[n[2:]]
            if not line.endswith(tail) or (t and "(type = %s," % t not in line):
                c.bad("tool-help-value", "%r want %r type %r" % (line, tail, t))
    usage = [x for x in p.stderr.split("\n") if x.startswith("Usage:")]
    if not usage or tool not in usage[0] or not usage[0].endswith("references [ hypotheses ]"):
        c.bad("tool-help-usage", "%r" % usage)
    c.sample = "%s %s" % (kind, " ".join(args))
    return c


def main(ctx):
    b = ctx.build([("C23", "san"), ("C23", "rel")] + [(t, v) for t in evalrun.TOOL.values() for v in ("san", "rel")])
    bins = {(k, v): b[(t, v)] for k, t in evalrun.TOOL.items() for v in ("san", "rel")}
    ctx.harness(b[("C23", "san")], ctx.n(5000, 300000), "san")
    ctx.harness(b[("C23", "rel")], ctx.n(24000, 2000000), "rel")
    ctx.cases(tool_case, ctx.n(240, 5000), "tools", (bins,))
    return ctx.finish(8000, 3000)
