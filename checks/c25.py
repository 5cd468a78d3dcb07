"""C25: a run reads its inputs and writes its requested outputs, and touches nothing else."""
import os
import re
import stat
import subprocess

from lib import common, evalrun, gen, model

RULE = ("One evaluation is one run of a tool, valid or to be refused, in a directory with its inputs, earlier outputs and bystanders, whose every name, content, mode and "
        "modification time is compared before and after; the release build also has every path it opens, creates, renames or removes recorded, and every process or socket "
        "it starts. Non-trivial: outputs were requested, or the run was refused; distinct by kind, command, files and outcome.")
ASSUMPTIONS = ["outputs are requested under names of their own, different from each other and from the inputs"]

OPTS = {"dump": "--dump_matches", "grp": "--output_grp", "mrp": "--output_mrp"}


def snapshot(top):
    out = {}
    for base, dirs, files in os.walk(top):
        for n in dirs + files:
            p = os.path.join(base, n)
            s = os.lstat(p)
            if stat.S_ISLNK(s.st_mode):
                out[p] = ("link", os.readlink(p))
            elif stat.S_ISDIR(s.st_mode):
                out[p] = ("dir", s.st_mode)
            else:
                out[p] = (open(p, "rb").read(), s.st_mode, s.st_mtime_ns, s.st_ino)
    return out


def spoil(rng, kind, roles, args, outs):
    """One mistake that makes the run be refused before it evaluates anything; -> (args, its name)."""
    t = rng.choice(["ref-line", "hyp-line", "hyp-line", "ref-missing", "hyp-missing", "option", "value", "alpha", "extra", "none", "directory"] +
                   [r + s for r in ("qset", "groups") if r in roles for s in ("-missing",)] + (["groups-line"] * 2 if "groups" in roles else []))
    pos = [roles["ref"], roles["hyp"]]
    if t.endswith("-line"):
        p = roles[t[:-5]]
        rows = open(p, "rb").read().split(b"\n")[:-1]
        k = len(rows) if rng.random() < .5 else rng.randrange(len(rows) + 1)
        rows.insert(k, b"one" if rng.random() < .5 or t == "groups-line" else b"q d 1 2 3 4 x y z")
        with open(p, "wb") as f:
            f.write(b"\n".join(rows) + b"\n")
    elif t.endswith("-missing"):
        os.unlink(roles[t[:-8]])
    elif t == "option":
        args = args + ["--no_such_option", "1"]
    elif t == "value":
        args = args + ["--rp_curve_samples", "many"]
    elif t == "alpha":
        args = args + ["--bootstrap_alpha", rng.choice(["1.5", "-1", "2"])]
    elif t == "extra":
        pos = pos + [pos[0]]
    elif t == "none":
        pos = []
    else:
        os.mkdir(os.path.dirname(roles["hyp"]) + "/a-directory")
        pos[rng.randrange(2)] = os.path.dirname(roles["hyp"]) + "/a-directory"
    return args, pos, t


def case(rng, i, d, bins, shim):
    c = common.Case()
    kind = rng.choice(["icdar", "simple"])
    w = gen.world(rng, kind, size=(rng.randrange(200, 500), rng.randrange(300, 700)) if rng.random() < .05 else None)
    o, args = gen.opts(rng, kind)
    args = list(args)
    top = d + "/world"
    os.mkdir(top)
    os.mkdir(top + "/run")
    os.mkdir(top + "/in")
    cwd = top + "/run"
    relative = rng.random() < .5
    indir = rng.choice([top + "/in", cwd])
    roles = {"ref": gen.write(indir + "/" + rng.choice(["ref", "gt.txt", "a b", "r.gz", "refs.tmp"]), w.text("refs")),
             "hyp": gen.write(indir + "/" + rng.choice(["hyp", "sub.txt", "c d", "h.zip", ".hyp"]), w.text("hyps"))}
    qs = sorted(set(x[0] for x in w.refs + w.hyps)) or ["q"]
    if rng.random() < .15:
        qs += ["other%d" % k for k in range(rng.choice([40, 70, 300, 1100]))]    # more than the events have
    if rng.random() < .35:
        roles["qset"] = gen.write(indir + "/queries", "\n".join(qs) + "\n")
        args += ["--query_set", roles["qset"]]
    if rng.random() < .35:
        roles["groups"] = gen.write(indir + "/groups", "".join("G%d %s\n" % (rng.randrange(3), q) for q in qs))
        args += ["--query_groups", roles["groups"]]
        if "qset" in roles and rng.random() < .5:
            pass
    if rng.random() < .3:
        args += ["--bootstrap_ci_" + rng.choice(["gap", "map", "gndcg", "mndcg"]), "true", "--bootstrap_samples", "5"]
    args += ["--rp_curve_samples", str(rng.choice([0, 2, 7, 50]))]
    outs = {}
    for role, opt in OPTS.items():
        if rng.random() < .5:
            outs[role] = "%s/%s" % (rng.choice([cwd, top + "/in"]), role + rng.choice(["", ".txt", ".out", " x"]))
            args += [opt, outs[role]]
            if rng.random() < .5:
                gen.write(outs[role], rng.choice(["before\n" * 3000, "x", ""]))
    # bystanders: near the names of inputs and outputs, and those a tool may like
    near = list(roles.values()) + list(outs.values()) + [cwd + "/" + role for role in OPTS]
    for p in rng.sample(near, min(len(near), 4)):
        n = p + rng.choice(["~", ".tmp", ".bak", ".old", ".part", ".lock", ".gz", ".cache", ".idx", "1"])
        if not os.path.exists(n):
            gen.write(n, "keep %d\n" % rng.randrange(1000))
    for n in rng.sample(["dump", "matches.txt", "core", "log", "kws.log", "results", ".kwseval", "tmp", "curve.txt", "-", "true", "false"], 3):
        if not os.path.exists(cwd + "/" + n):
            gen.write(cwd + "/" + n, "q d\n" * rng.randrange(4))
    if "dump" in outs and not outs["dump"].startswith(cwd) and rng.random() < .5:
        os.makedirs(cwd + "/dump.d", exist_ok=True)
    pos, fault = [roles["ref"], roles["hyp"]], None
    if rng.random() < .4:
        args, pos, fault = spoil(rng, kind, roles, args, outs)
        if fault == "qset-missing" and "groups" in roles:
            fault = None                       # superseded, so it is not read at all
    elif rng.random() < .08:
        args, fault = args + ["--help"], "help"
    use_stdin = fault in (None, "ref-line", "ref-missing") and rng.random() < .25
    if relative:
        args, pos = [[os.path.relpath(x, cwd) if x.startswith(top) else x for x in y] for y in (args, pos)]
    if use_stdin:
        pos = pos[:1]
    tool = evalrun.tools_of(bins, kind, rng, .25)
    cmd = [tool] + args + pos
    for p, s in list(snapshot(top).items()):   # some time ago
        if s[0] not in ("link", "dir"):
            os.utime(p, ns=(10 ** 18 + rng.randrange(10 ** 9), 10 ** 18 + rng.randrange(10 ** 9)))
    if rng.random() < .3:
        for p in roles.values():
            if os.path.exists(p):
                os.chmod(p, 0o444)
    before = snapshot(top)
    env = dict(common.ENV)
    log = None
    if tool == bins[(kind, "rel")]:
        log = d + "/log"
        env.update({"LD_PRELOAD": shim, "KWS_O_LOG": log})
    given = gen.write(d + "/stdin", w.text("hyps"))
    piped = rng.random() < .5 and os.path.getsize(given) < 60000   # what a library has buffered of a file, it gives back at its end
    if piped:
        fd, end = os.pipe()
        os.write(end, w.text("hyps").encode("latin-1"))
        os.close(end)
    else:
        fd = os.open(given, os.O_RDONLY)
    try:
        q = subprocess.run(cmd, env=env, cwd=cwd, stdin=fd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
        if piped:
            at = os.path.getsize(given)
            while True:
                rest = os.read(fd, 1 << 16)
                if not rest:
                    break
                at -= len(rest)
        else:
            at = os.lseek(fd, 0, os.SEEK_CUR)
    except subprocess.TimeoutExpired:
        c.inconclusive = "a run took more than 200 s"
        return c
    finally:
        os.close(fd)
    p = common.Result(q.returncode, q.stdout.decode("latin-1"), q.stderr.decode("latin-1"))
    after = snapshot(top)
    c.evals = 1
    c.replay = evalrun.replay_of(args, ref=w.text("refs"), hyp=w.text("hyps"), fault=str(fault), outputs=str(outs))
    c.count("runs." + (fault or "valid"))
    c.nontrivial = bool(outs) or fault is not None
    shown = evalrun.shown(cmd, p)
    if fault not in (None, "help"):
        if p.returncode != 1 or p.stdout:
            c.bad("not-refused", "%s\n%s" % (fault, shown))
            return c
    elif p.returncode != 0:
        c.bad("status", shown)
        return c
    evaluated = fault is None
    if evaluated and model.parse_stdout(p.stdout) is None:
        c.bad("standard-output", shown)
    if not evaluated and p.stdout:
        c.bad("standard-output", shown)
    if re.search(r"^[gm](AP|NDCG) ?=", p.stderr, re.M):
        c.bad("results-on-standard-error", shown)
    # the files
    wanted = set(outs.values()) if evaluated else set()
    for n in sorted(set(before) | set(after)):
        if n in wanted:
            continue
        if n not in after:
            c.bad("removed-file", "%s\n%s" % (n, shown))
        elif n not in before:
            c.bad("created-file", "%s %r\n%s" % (n, after[n][:1], shown))
        elif before[n] != after[n]:
            c.bad("changed-" + ("input" if n in roles.values() else "output-of-refused-run" if n in outs.values() else "bystander"),
                  "%s\n%r\n%r\n%s" % (n, str(before[n])[:300], str(after[n])[:300], shown))
        c.count("files_unchanged")
    for role, n in outs.items():
        if evaluated:
            c.count("outputs_written")
            if n not in after or after[n][0] in ("dir", "link"):
                c.bad("no-output", "%s\n%s" % (n, shown))
            elif b"before" in after[n][0] or after[n][0] == b"x":
                c.bad("old-content", "%s %r\n%s" % (n, after[n][0][:200], shown))
            elif n in before and before[n][2] == after[n][2]:
                c.bad("output-not-written", "%s\n%s" % (n, shown))
    # standard input
    if not use_stdin and at != 0:
        c.bad("reads-standard-input", "%d bytes\n%s" % (at, shown))
    if use_stdin and evaluated and at != os.path.getsize(given):
        c.bad("leaves-standard-input", "%d bytes of %d\n%s" % (at, os.path.getsize(given), shown))
    # everything it opened
    if log:
        try:
            calls = open(log, "rb").read().decode("latin-1").split("\n")[:-1]
        except OSError:
            calls = []
        # relative to the top, so that names the same for the tool are the same here
        ok_r = {os.path.abspath(x) for x in roles.values()} | {top + "/in/a-directory", cwd + "/a-directory"}
        if use_stdin:
            ok_r.discard(roles["hyp"])
        for x in calls:
            what, path = x[0], x[2:]
            path = os.path.abspath(os.path.join(cwd, path)) if what not in "X" else path
            inside = path.startswith(d + "/")
            c.count("calls." + what)
            if what == "W" and path in {os.path.abspath(y) for y in wanted}:
                continue
            if what == "R" and (not inside or path in ok_r):
                continue
            if what == "R" and path in {os.path.abspath(y) for y in wanted}:
                c.bad("reads-output", "%s\n%s" % (x, shown))
            else:
                c.bad("touches", "%s\n%s" % (x, shown))
        if evaluated and not any(x[0] == "R" for x in calls):
            c.bad("record", "no open recorded\n" + shown)
    c.hash = (kind, fault, sorted(outs), args[:8], relative, use_stdin, p.stdout, len(w.refs), len(w.hyps))
    c.sample = "%s, %s, outputs %s, standard input %s: %d names compared, %s" % (
        kind, fault or "valid", sorted(outs), "used" if use_stdin else "unused", len(before), p.stdout.replace("\n", "; ") or p.stderr[:80])
    return c


def main(ctx):
    bins = evalrun.build_tools(ctx)
    shim = ctx.scratch + "/openshim.so"
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", common.VERIF + "/harness/openshim.c", "-o", shim, "-ldl"], check=True)
    ctx.cases(case, ctx.n(1600, 40000), "runs", (bins, shim))
    return ctx.finish(1000, 500)
