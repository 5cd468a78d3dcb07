"""Running a tool on a generated world and judging its whole output."""
import os

from . import common, gen, model

TOOL = {"icdar": "Icdar17KwsEval", "simple": "SimpleKwsEval"}


def build_tools(ctx, variants=("san", "rel"), kinds=("icdar", "simple")):
    b = ctx.build([(TOOL[k], v) for k in kinds for v in variants])
    return {(k, v): b[(TOOL[k], v)] for k in kinds for v in variants}


def tools_of(bins, kind, rng, san_share=0.4):
    """One binary: instrumented or release."""
    return bins[(kind, "san" if rng.random() < san_share else "rel")]


def shown(cmd, p):
    return "command: %s\nstatus: %s\nstdout:\n%s\nstderr:\n%s" % (
        " ".join(repr(a) for a in cmd), p.returncode, p.stdout[-1500:], p.stderr[-1500:])


def check_ok(c, cmd, p, key="run"):
    """Status 0 and four metric lines; -> parsed or None (violation recorded)."""
    if p.returncode != 0:
        c.bad(key + "-status", "well-formed input, status %s\n%s" % (p.returncode, shown(cmd, p)))
        return None
    out = model.parse_stdout(p.stdout)
    if out is None:
        c.bad(key + "-format", "stdout is not the four metric lines\n" + shown(cmd, p))
        return None
    return out


def check_values(c, out, want, cmd, p, key="metric", rel=5.2e-6):
    for name in model.NAMES:
        if not model.close(out[name][0], want[name], rel):
            c.bad("%s-%s" % (key, name), "%s printed %r, by definition %.9g\n%s" % (
                name, out[name][0], want[name], shown(cmd, p)))
            return False
    return True


def save_inputs(d, w, rng=None, style=None):
    rt, ht = w.text("refs", rng, style), w.text("hyps", rng, style)
    r = gen.write(os.path.join(d, "ref.txt"), rt)
    h = gen.write(os.path.join(d, "hyp.txt"), ht)
    return r, h, rt, ht


def replay_of(args, **texts):
    return {"args": args, "files": {k: v[:20000] for k, v in texts.items()}}


def distinct_if_needed(kind, collapse, order):
    """The simple tool orders equal scores by internal numbers: only then avoid ties."""
    return "distinct" if kind == "simple" and not collapse and order != "none" else None
