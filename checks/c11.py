"""C11: query sets and groups against the model and against filtered files."""
from lib import common, evalrun, gen, model

RULE = ("One evaluation is one run with a query-set and/or query-groups file, compared with the reference model and "
        "(query sets) with a run on files filtered by hand; malformed groups files must be refused. Non-trivial: the "
        "selection keeps some and drops some events, or groups merge queries, or is empty, or is malformed; distinct by kind, "
        "mode, sizes and metrics.")
ASSUMPTIONS = ["as C01"]


SPECIAL = ["*", "?", "a*", "%", ".", ".*", "ALL", "all", "any", "-", "--", "none", "NONE", "default", "!", "!q", "~", "@", "@f", ";", ":", "g:q", ",", "a,b", "(", "[a]",
           "\\", "'", "0", "-1", "NULL", "query", "group"]


def words_text(rng, words):
    out = rng.choice(["", "", "\n", " "])
    for w in words:
        out += w + rng.choice([" ", "\n", "\n", "\t", "\r\n", "  \n\n", "\v", "\f"])
    if rng.random() < .3:
        out = out.rstrip(gen.model.WS)
    return out


def groups_text(rng, lines):
    out = ""
    for f in lines:
        s = rng.choice(["", "", " ", "\t"])
        for k, x in enumerate(f):
            s += (rng.choice([" ", " ", "\t", "  "]) if k else "") + x
        out += s + rng.choice(["", "", " ", "\r"]) + "\n"
    if out and rng.random() < .3:
        out = out[:-1]
    return out


def case(rng, i, d, bins):
    c = common.Case()
    kind = "icdar" if rng.random() < 0.55 else "simple"
    o, args = gen.opts(rng, kind)
    w = gen.world(rng, kind, scores=evalrun.distinct_if_needed(kind, o.collapse, o.order))
    qs = sorted(set(r[0] for r in w.refs + w.hyps))
    if qs and rng.random() < .08:           # a name longer than usual buffers
        old = rng.choice(qs)
        new = old + "L" * rng.choice([250, 256, 1023, 1024, 4090, 4096, 5000, 8192, 65530, 65536, 70001])
        if new not in qs:
            for x in w.refs + w.hyps:
                if x[0] == old:
                    x[0] = new
            qs = sorted(set(r[0] for r in w.refs + w.hyps))
            c.count("long_names")
    if qs and rng.random() < .15:           # a name that might stand for something else
        old, new = rng.choice(qs), rng.choice(SPECIAL)
        if new not in qs:
            for x in w.refs + w.hyps:
                if x[0] == old:
                    x[0] = new
            qs = sorted(set(r[0] for r in w.refs + w.hyps))
            c.count("special_names")
    rng.shuffle(qs)
    others = ["absent", "zz9", "#q", "#", gen.enc("\u00e9absent"), rng.choice(SPECIAL)] + sorted(set(r[1] for r in w.refs))[:2]
    mode = rng.choice(["set", "set", "groups", "groups", "groups", "both", "badgroups"])
    listed = qs[:rng.randrange(0, len(qs) + 1)] + rng.sample(others, rng.randrange(0, 3))
    if rng.random() < .1:
        listed = []
    if rng.random() < .1:
        listed = rng.sample(others, 1)
    elif rng.random() < .08:
        listed = [rng.choice(SPECIAL[:7] if rng.random() < .5 else SPECIAL)]
    rng.shuffle(listed)
    listed += [rng.choice(listed) for _ in range(rng.randrange(3)) if listed]
    files = {}
    q2g = {q: q for q in listed}
    bad = False
    if mode in ("set", "both"):
        files["set"] = words_text(rng, listed)
    if mode != "set":
        names = rng.sample(["g1", "g2", "G", "1", "#", "#g", "#g1", "//", "\"g1\"", rng.choice(SPECIAL)] + qs[:3] + others[:1], rng.randrange(1, 4)) if qs else ["g"]
        pool = listed if mode != "both" else rng.sample(qs, rng.randrange(0, len(qs) + 1)) + ["absent"]
        lines, k = [], 0
        while k < len(pool):
            n = rng.randrange(1, rng.choice([5, 5, 13]))
            lines.append([rng.choice(names)] + pool[k:k + n])
            k += n
        if lines and rng.random() < .4:     # listed twice: the later line wins
            ln = rng.choice(lines)
            again = [rng.choice(names)] + [rng.choice(ln[1:]) for _ in range(rng.choice([1, 1, 2, 8]))]
            if rng.random() < .3:
                again += rng.sample(pool, rng.randrange(1, min(len(pool), 8) + 1))
            lines.insert(rng.choice([len(lines), len(lines), rng.randrange(len(lines) + 1)]), again)
        if mode == "badgroups":
            bad = True
            lines.insert(rng.randrange(len(lines) + 1), [rng.choice([rng.choice(names), "", " "])])
        files["groups"] = groups_text(rng, lines)
        if mode == "badgroups" and lines[-1][0].strip() == "" and not files["groups"].endswith("\n"):
            files["groups"] += "\n"
        try:
            q2g = model.read_query_groups(files["groups"])
            bad = False
        except model.Bad:
            bad = True
    r, h, rt, ht = evalrun.save_inputs(d, w)
    a2 = list(args)
    if "set" in files:
        a2 += ["--query_set", gen.write(d + "/set.txt", files["set"])]
    if "groups" in files:
        a2 += ["--query_groups", gen.write(d + "/groups.txt", files["groups"])]
    tool = evalrun.tools_of(bins, kind, rng)
    cmd = [tool] + a2 + [r, h]
    p = common.run_tool(tool, a2 + [r, h])
    c.evals = 1
    c.count("mode." + mode)
    c.replay = evalrun.replay_of(a2, ref=rt, hyp=ht, **files)
    if bad:
        c.count("malformed_groups")
        if p.returncode != 1 or "AP =" in p.stdout or "NDCG =" in p.stdout or not p.stderr.strip():
            c.bad("malformed-groups-accepted", evalrun.shown(cmd, p))
        c.nontrivial = True
        c.hash = (kind, "bad", files["groups"])
        return c
    out = evalrun.check_ok(c, cmd, p)
    if not out:
        return c
    re, he = w.ref_events(), w.hyp_events()
    want, entries, rep, groups = model.evaluate(kind, re, he, o, q2g)
    evalrun.check_values(c, out, want, cmd, p)
    kr = [k for k, r_ in enumerate(re) if r_[0] in q2g]
    kh = [k for k, h_ in enumerate(he) if h_[0] in q2g]
    if not q2g:
        c.count("empty_selection")
    if mode == "set" and rng.random() < .5:
        w2 = gen.World(kind)
        w2.refs = [w.refs[k] for k in kr]
        w2.hyps = [w.hyps[k] for k in kh]
        r2 = gen.write(d + "/r2", w2.text("refs"))
        h2 = gen.write(d + "/h2", w2.text("hyps"))
        p2 = common.run_tool(tool, args + [r2, h2])
        out2 = evalrun.check_ok(c, [tool] + args + [r2, h2], p2)
        c.count("compared_with_filtered_files")
        if out2:
            for n in model.NAMES:
                if abs(out[n][0] - out2[n][0]) > 1.1e-5 * abs(out2[n][0]) + 1e-9:
                    c.bad("set-differs-from-filtering", evalrun.shown(cmd, p) + evalrun.shown(["filtered"], p2))
                    break
    c.count("events.kept", len(kr) + len(kh))
    c.count("events.dropped", len(re) + len(he) - len(kr) - len(kh))
    nq = len(set(e.query() for e in entries))
    c.count("groups_evaluated", len(groups))
    if len(groups) < nq:
        c.count("runs_with_merged_queries")
    c.nontrivial = 0 < len(kr) + len(kh) < len(re) + len(he) or len(groups) < nq or not q2g
    c.hash = (kind, mode, len(kr), len(kh), len(groups), sorted(out.items()))
    c.sample = "%s %s kept %d/%d refs %d/%d hyps, %d groups of %d queries -> %s" % (
        kind, mode, len(kr), len(re), len(kh), len(he), len(groups), nq, p.stdout.replace("\n", "; "))
    return c


def large_case(rng, i, d, bins):
    """Hundreds to thousands of groups, tens of thousands of queries."""
    c = common.Case()
    kind = "icdar" if i % 2 == 0 else "simple"
    w = gen.big_world(rng, kind, 70000)
    o, args = gen.opts(rng, kind)
    if kind == "simple" and not w.distinct and o.order != "none":
        o.collapse, args = True, [a for k, a in enumerate(args) if a != "--collapse_matches" and (k == 0 or args[k - 1] != "--collapse_matches")]
    qs = sorted(set(x[0] for x in w.refs + w.hyps))
    rng.shuffle(qs)
    keep = qs[:max(1, int(len(qs) * rng.choice([.5, .9, 1])))]
    ng = rng.choice([3, 300, 1000, 5000])
    if rng.random() < .3:
        text = words_text(rng, keep + keep[:100])
        q2g, a2 = {q: q for q in keep}, ["--query_set", gen.write(d + "/set", text)]
    else:
        lines, k = [], 0
        while k < len(keep):
            n = min(rng.choice([1, 2, 30, 3000]), len(keep) - k)
            lines.append(["G%d" % rng.randrange(ng)] + keep[k:k + n])
            k += n
        for q in keep[:50]:
            lines.append(["late%d" % rng.randrange(3), q])
        text = groups_text(rng, lines)
        q2g, a2 = model.read_query_groups(text), ["--query_groups", gen.write(d + "/groups", text)]
    r, h, rt, ht = evalrun.save_inputs(d, w)
    tool = bins[(kind, "rel")]
    cmd = [tool] + args + a2 + [r, h]
    p = common.run_tool(tool, cmd[1:], timeout=100)
    c.evals = 1
    c.replay = {"args": args + a2, "shape": w.shape, "head": [rt[:2000], ht[:2000], text[:2000]]}
    out = evalrun.check_ok(c, cmd, p)
    if out:
        want, entries, rep, groups = model.evaluate(kind, w.ref_events(), w.hyp_events(), o, q2g)
        evalrun.check_values(c, out, want, cmd, p, rel=1.2e-5)
        c.count("groups_evaluated", len(groups))
        c.count("shape." + w.shape)
        c.nontrivial = len(groups) > 1
        c.hash = ("large", kind, len(groups), sorted(out.items()))
        c.sample = "large %s: %d queries kept in %d groups -> %s" % (kind, len(q2g), len(groups), p.stdout.replace("\n", "; "))
    return c


def main(ctx):
    bins = evalrun.build_tools(ctx)
    ctx.cases(case, ctx.n(1800, 40000), "selection", (bins,))
    ctx.cases(large_case, ctx.n(16, 400), "large", (bins,))
    return ctx.finish(800, 300)
