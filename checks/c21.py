"""C21: the dump of matches accounts for every event and for the metrics."""
import collections
import math
import re

from lib import common, evalrun, gen, model

RULE = ("One evaluation is one run with --dump_matches whose dump is parsed back into match lines and repetitions and "
        "checked for conservation of events, order, errors, and for the metrics recomputed from the match lines alone. "
        "Non-trivial: at least two of hits, false positives, misses, repetitions occur; distinct by kind, options and line counts.")
ASSUMPTIONS = ["as C01; names contain no blank, so that a dump line can be split again",
               "the simple tool dumps internal numbers: they are resolved by order of first appearance, query or location first"]

LINE = re.compile(r"Match\[(?:Hyp=(?P<h>.*?), )?(?:Ref=(?P<r>.*?), )?Error=MatchError\[fp=(?P<fp>[^,]+), "
                  r"fn=(?P<fn>[^,]+), nh=(?P<nh>\d+), nr=(?P<nr>\d+)\]\]\Z", re.S)


def numbering(refs, hyps, first):
    ids = {}
    for ev in list(refs) + list(hyps):
        for k in ((0, 1) if first == "query" else (1, 0)):
            ids.setdefault(ev[k], len(ids))
    return {str(v): k for k, v in ids.items()}


def parse_event(kind, text, scored, names):
    f = text.split(" ")
    if len(f) != (6 if kind == "icdar" else 2) + (1 if scored else 0):
        raise ValueError("fields of %r" % text)
    ev = list(f[:2])
    if kind == "icdar":
        ev += [int(x) for x in f[2:6]]
    else:
        ev = [names[ev[0]], names[ev[1]]]
    if scored:
        ev.append(float(f[-1]))
    return tuple(ev)


def judge(kind, text, refs, hyps, o, q2g, names):
    """-> (problem or None, entries, number of repetitions)"""
    lines = text.split("\n")
    if lines[-1] != "":
        return "last line not terminated", [], 0
    lines.pop()
    marks = [k for k, x in enumerate(lines) if x.startswith("####")]
    if len(marks) != 1:
        return "%d marker lines" % len(marks), [], 0
    entries, reps = [], []
    try:
        for k, x in enumerate(lines):
            if k == marks[0]:
                continue
            if k > marks[0]:
                if not x.startswith("## "):
                    return "repetition line %r" % x, [], 0
                x = x[3:]
            m = LINE.match(x)
            if not m:
                return "line %r" % x, [], 0
            h = parse_event(kind, m.group("h"), True, names) if m.group("h") is not None else None
            r = parse_event(kind, m.group("r"), False, names) if m.group("r") is not None else None
            if h is None and r is None:
                return "line without events %r" % x, [], 0
            e = model.Entry(h, r, float(m.group("fp")), float(m.group("fn")))
            err = (e.fp, e.fn, int(m.group("nh")), int(m.group("nr")))
            want = (0, 0, 1, 1) if h and r else (1, 0, 1, 0) if h else (0, 1, 0, 1)
            if err != want:
                return "error %s for %r" % (err, x), [], 0
            (entries if k < marks[0] else reps).append(e)
    except (ValueError, KeyError) as ex:
        return "unreadable: %r" % ex, [], 0
    # conservation (scores as printed, with six digits)
    want_h = collections.Counter(h[:-1] + (float("%g" % h[-1]),) for h in hyps)
    got_h = collections.Counter(e.hyp for e in entries if e.hyp)
    if got_h - want_h:
        return "match lines with hypotheses that were not given: %r" % list((got_h - want_h).items())[:3], [], 0
    left = want_h - got_h
    rep_h = collections.Counter(e.hyp for e in reps)
    most = {}
    for (h, _), n in collections.Counter((e.hyp, e.ref) for e in reps).items():
        most[h] = max(most.get(h, 0), n)
    for h in left:
        if not rep_h[h]:
            return "hypothesis in no line: %r" % (h,), [], 0
        # each repetition has a line for the references it met
        if most[h] < left[h]:
            return "fewer lines than repetitions: %r, %d times" % (h, left[h]), [], 0
    if set(rep_h) - set(want_h):
        return "repetition of a hypothesis that was not given", [], 0
    want_r = set(refs)
    got_r = collections.Counter(e.ref for e in entries if e.ref)
    if set(got_r) != want_r or any(v != 1 for v in got_r.values()):
        return "references do not appear once each: %r" % [
            x for x in set(got_r) ^ want_r or [k for k, v in got_r.items() if v != 1]][:3], [], 0
    for e in entries + reps:
        if e.hyp and e.ref:
            h, r = e.hyp, e.ref
            ok = h[:2] == r[:2] and (kind == "simple" or
                                     2 * model.inter(h[2:6], r[2:6]) >= model.area(h[2:6]) > 0)
            if not ok or r not in want_r:
                return "unacceptable pair %r %r" % (h, r), [], 0
    # order
    seen_miss = False
    last = None
    for e in entries:
        if e.hyp is None:
            seen_miss = True
            continue
        if seen_miss:
            return "hypothesis after a missed reference", [], 0
        s = e.hyp[-1]
        if last is not None and o.order in ("asc", "desc"):
            if (s > last) if o.order == "desc" else (s < last):
                return "scores not in %s order" % o.order, [], 0
        last = s
    if o.order == "none":
        it = iter([h[:-1] + (float("%g" % h[-1]),) for h in hyps])
        for e in entries:
            if e.hyp is not None and not any(x == e.hyp for x in it):
                return "hypotheses not in file order", [], 0
    return None, entries, len(reps)


def case(rng, i, d, bins, large=False):
    c = common.Case()
    kind = "icdar" if rng.random() < 0.6 else "simple"
    o, args = gen.opts(rng, kind)
    while True:
        if large:
            w = gen.big_world(rng, kind, 40000)
            for h in w.hyps:
                h[-1] = "%g" % model.strtof(h[-1])
            if not all(float("%g" % model.strtof(h[-1])) == float(h[-1]) for h in w.hyps):
                continue
            w.distinct = len(set(model.strtof(h[-1]) for h in w.hyps)) == len(w.hyps)
            if kind == "simple" and not w.distinct and o.order != "none":
                o.collapse, args = True, [a for k, a in enumerate(args) if a != "--collapse_matches" and (k == 0 or args[k - 1] != "--collapse_matches")]
            c.count("shape." + w.shape)
            break
        w = gen.world(rng, kind, scores=evalrun.distinct_if_needed(kind, o.collapse, o.order))
        for h in w.hyps:           # at most six digits, so that the dump shows the score itself
            h[-1] = "%g" % model.strtof(h[-1])
        # keep scores whose printed form reads back as the same single-precision number
        if all(float("%g" % model.strtof(h[-1])) == float(h[-1]) for h in w.hyps):
            break
    args = list(args)
    if not large and w.hyps and rng.random() < .3:         # the same hypothesis again and again
        for _ in range(rng.randrange(1, 5)):
            w.hyps.insert(rng.randrange(len(w.hyps) + 1), list(rng.choice(w.hyps)))
    q2g = None
    if rng.random() < .3:
        qs = sorted(set(r[0] for r in w.refs + w.hyps))
        listed = [q for q in qs if rng.random() < .6]
        if rng.random() < .5:
            args += ["--query_set", gen.write(d + "/set", "\n".join(listed) + "\n")]
            q2g = {q: q for q in listed}
        else:
            t = "".join("G%d %s\n" % (rng.randrange(3), q) for q in listed)
            args += ["--query_groups", gen.write(d + "/grp", t)]
            q2g = model.read_query_groups(t)
    r, h, rt, ht = evalrun.save_inputs(d, w)
    dump = d + "/dump.txt"
    if rng.random() < .3:
        gen.write(dump, "old content\n" * 500)
    tool = evalrun.tools_of(bins, kind, rng, 0.0 if large else 0.4)
    a2 = args + ["--dump_matches", dump]
    rng_pos = rng.random() < .5
    if rng_pos:
        a2 = ["--dump_matches", dump] + args
    cmd = [tool] + a2 + [r, h]
    p = common.run_tool(tool, a2 + [r, h])
    c.evals = 1
    c.replay = evalrun.replay_of(a2, ref=rt, hyp=ht)
    out = evalrun.check_ok(c, cmd, p)
    if not out:
        return c
    p0 = common.run_tool(tool, args + [r, h])
    if p0.stdout != p.stdout or p0.returncode != p.returncode:
        c.bad("dump-changes-metrics", evalrun.shown(cmd, p) + evalrun.shown(["without dump"], p0))
    try:
        text = open(dump, "rb").read().decode("latin-1")
    except OSError:
        c.bad("no-dump", evalrun.shown(cmd, p))
        return c
    re_, he = w.ref_events(), w.hyp_events()
    kr = [x for x in re_ if q2g is None or x[0] in q2g]
    kh = [x for x in he if q2g is None or x[0] in q2g]
    problem = entries = None
    for first in ("location", "query"):
        names = numbering(re_, he, first) if kind == "simple" else None
        pb, en, nrep = judge(kind, text, kr, kh, o, q2g, names)
        if pb is None:
            problem, entries = None, en
            break
        problem = problem or pb
        if kind == "icdar":
            break
    if entries is None:
        c.bad("dump", problem + "\n" + evalrun.shown(cmd, p) + "\ndump:\n" + text[:2500])
        return c
    groups = model.group(entries, q2g or {})
    want = model.metrics(entries, groups, o.collapse, o.interpolate, o.trapezoid)
    evalrun.check_values(c, out, want, cmd, p, "metric-from-dump", rel=1.2e-5 if large else 5.2e-6)
    hits = sum(1 for e in entries if e.hyp and e.ref)
    kinds = [hits, sum(1 for e in entries if not e.ref), sum(1 for e in entries if not e.hyp), nrep]
    for n, v in zip(("hits", "false_positives", "misses", "repetition_lines"), kinds):
        c.count("lines." + n, v)
    c.nontrivial = sum(1 for v in kinds if v) >= 2
    c.hash = (kind, sorted(args[:6]), kinds, sorted(out.items()))
    c.sample = "%s dump: %d hits %d false positives %d misses %d repetition lines" % ((kind,) + tuple(kinds))
    return c


def main(ctx):
    bins = evalrun.build_tools(ctx)
    ctx.cases(case, ctx.n(1200, 30000), "dumps", (bins,))
    ctx.cases(case, ctx.n(10, 200), "large", (bins, True))
    return ctx.finish(600, 300)
