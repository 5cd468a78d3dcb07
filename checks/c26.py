"""C26: the numbers of events, queries, groups and effective hypotheses that a run reports."""
import re

from lib import common, evalrun, gen, model

RULE = ("One evaluation is one run of a tool whose every number reported on standard error is compared with the number counted in the files by the model. "
        "Non-trivial: some events are dropped or repetitions, or a selection was read, or the run was refused after a first file was read; distinct by kind, options and counts.")
ASSUMPTIONS = ["as C01", "a number is found by the words before it in the message (the wording is that of the tools as they are)"]

LINES = {
    "refs": re.compile(r"Number of reference events read = (\S+)"),
    "hyps": re.compile(r"Number of hypothesis events read = (\S+)"),
    "kept_refs": re.compile(r"Number of kept reference events = (\S+)"),
    "kept_hyps": re.compile(r"Number of kept hypothesis events = (\S+)"),
    "queries": re.compile(r"(\S+) queries were read from "),
    "groups": re.compile(r"(\S+) groups were read from "),
    "effective": re.compile(r"Effective number of hypotheses is ([^\s.]+)"),
}


def judge(c, want, cmd, p):
    got = {}
    for name, rx in LINES.items():
        found = rx.findall(p.stderr)
        if len(found) > 1:
            c.bad("reported-twice", "%s\n%s" % (name, evalrun.shown(cmd, p)))
        if found:
            got[name] = found[0]
    for name in LINES:
        if got.get(name) != (str(want[name]) if name in want else None):
            c.bad("count-" + name, "reported %s, counted %s\n%s" % (got.get(name), want.get(name), evalrun.shown(cmd, p)))
        elif name in want:
            c.count("numbers." + name)


def million_case(rng, i, d, bins):
    """More than a million of everything; what is counted follows from how the files are built."""
    c = common.Case()
    n, h, rep, sel = [1000003 + rng.randrange(200000) for _ in range(3)] + [1000001 + rng.randrange(3)]
    grouped = i % 2 == 0
    r = gen.write(d + "/refs", "".join("q%d d\n" % k for k in range(n)))
    y = gen.write(d + "/hyps", "".join("q%d d %d\n" % (k, k % 100) for k in range(h)) + "".join("q%d d 0\n" % k for k in range(rep)))
    q = gen.write(d + "/sel", "".join("%sq%d\n" % ("g%d " % k if grouped else "", k) for k in range(sel)))
    args = ["--query_groups" if grouped else "--query_set", q, r, y]
    tool = bins[("simple", "rel")]
    p = common.run_tool(tool, args, timeout=300)
    c.evals = 1
    c.replay = "refs: q0 d .. q%d d; hyps: q0 d .. q%d d with scores number modulo 100, then q0 d 0 .. q%d d 0; selection q0 .. q%d\n" % (n - 1, h - 1, rep - 1, sel - 1)
    if not evalrun.check_ok(c, [tool] + args, p):
        return c
    want = {"refs": n, "hyps": h + rep, "queries": sel, "kept_refs": min(n, sel), "kept_hyps": min(h, sel) + min(rep, sel), "effective": min(max(h, rep), sel)}
    # both of a pair match the one reference, so that the second is a repetition
    if grouped:
        want["groups"] = sel
    want = {k: v for k, v in want.items() if not (k == "kept_refs" and v == n or k == "kept_hyps" and v == h + rep)}
    judge(c, want, [tool] + args, p)
    c.nontrivial = True
    c.hash = ("million", n, h, rep, sel)
    c.sample = str(want)
    return c


def case(rng, i, d, bins, large=False):
    c = common.Case()
    kind = rng.choice(["icdar", "simple"])
    o, args = gen.opts(rng, kind)
    args = list(args)
    if large:
        w = gen.big_world(rng, kind, 70000)
    elif rng.random() < .25:
        w = gen.world(rng, kind, size=(rng.randrange(0, 4), rng.randrange(0, 5)))
    else:
        w = gen.world(rng, kind, size=(rng.randrange(60, 300), rng.randrange(60, 400)) if rng.random() < .1 else None)
    if not large and w.hyps and rng.random() < .3:         # repetitions
        w.hyps += [list(rng.choice(w.hyps)) for _ in range(rng.randrange(1, 6))]
    if not large and w.refs and rng.random() < .3:
        w.refs += [list(rng.choice(w.refs)) for _ in range(rng.randrange(1, 4))]
    if not large and rng.random() < .12:                   # a single repetition, or none
        rest = []
        for x in w.hyps:
            if all(y[:-1] != x[:-1] for y in rest):
                rest.append(x)
        w.hyps = rest
        hits = [x for x in rest if list(x[:-1]) in [list(y) for y in w.refs]]
        if hits and rng.random() < .8:
            w.hyps.insert(rng.randrange(len(rest) + 1), list(rng.choice(hits)))
        c.count("single_repetitions")
    qs = sorted(set(x[0] for x in w.refs + w.hyps))
    rng.shuffle(qs)
    q2g, extra = None, {}
    t = rng.random()
    if t < .6:
        listed = qs[:rng.randrange(len(qs) + 1)] + ["absent%d" % k for k in range(rng.randrange(3))]
        if rng.random() < .25:
            listed = qs[:]
        listed += [rng.choice(listed) for _ in range(rng.randrange(3)) if listed]
        rng.shuffle(listed)
        if t < .3 or t > .5:
            extra["set"] = "".join(q + rng.choice([" ", "\n", "\n\n"]) for q in listed)
            q2g = {q: q for q in listed}
        if t >= .3:
            rows, k = [], 0
            most, names = rng.choice([1, 3, 3, 10]), rng.choice([1, 4, 4, 1000])
            while k < len(listed):
                n = rng.randrange(1, most + 1)
                rows.append("G%d %s\n" % (rng.randrange(names), " ".join(listed[k:k + n])))
                k += n
            extra["groups"] = "".join(rows)
            q2g = model.read_query_groups(extra["groups"])
    r, h, rt, ht = evalrun.save_inputs(d, w, rng, "odd" if rng.random() < .4 and not large else None)
    if "set" in extra:
        args += ["--query_set", gen.write(d + "/set", extra["set"])]
    if "groups" in extra:
        args += ["--query_groups", gen.write(d + "/groups", extra["groups"])]
    bad = rng.random() < .08
    if bad:                                 # the hypotheses cannot be read
        with open(h, "a") as f:
            f.write("one\n" if ht.endswith("\n") or not ht else "\none\n")
    use_stdin = rng.random() < .2
    tool = bins[(kind, "rel")] if large else evalrun.tools_of(bins, kind, rng)
    cmd = [tool] + args + ([r] if use_stdin else [r, h])
    p = common.run_tool(tool, cmd[1:], stdin=open(h, "rb").read() if use_stdin else None, timeout=100)
    c.evals = 1
    c.replay = evalrun.replay_of(args, ref=rt, hyp=ht, **extra)
    re_, he = w.ref_events(), w.hyp_events()
    want = {"refs": len(re_)}
    if bad:
        if p.returncode != 1:
            c.bad("status", evalrun.shown(cmd, p))
        c.count("refused")
    else:
        if not evalrun.check_ok(c, cmd, p):
            return c
        want["hyps"] = len(he)
        kr, kh = re_, he
        if q2g is not None:
            kr, kh = [x for x in re_ if x[0] in q2g], [x for x in he if x[0] in q2g]
            want["queries"] = len(q2g)
            if "groups" in extra:
                want["groups"] = len(set(q2g.values()))
            if len(kr) != len(re_):
                want["kept_refs"] = len(kr)
            if len(kh) != len(he):
                want["kept_hyps"] = len(kh)
        entries = model.evaluate(kind, re_, he, o, q2g)[1]
        n = sum(1 for e in entries if e.hyp is not None)
        if n != len(kh):
            want["effective"] = n
    judge(c, want, cmd, p)
    if not bad and "contact the author" in p.stderr:
        c.bad("impossible", evalrun.shown(cmd, p))
    c.nontrivial = len(want) > 2 or bad
    c.hash = (kind, sorted(want.items()), args[:6], bad)
    c.sample = "%s: %s" % (kind, want)
    return c


def main(ctx):
    bins = evalrun.build_tools(ctx)
    ctx.cases(case, ctx.n(1800, 40000), "runs", (bins,))
    ctx.cases(case, ctx.n(10, 200), "large", (bins, True))
    ctx.cases(million_case, ctx.n(2, 8), "million", (bins,))
    return ctx.finish(1000, 300)
