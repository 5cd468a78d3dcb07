"""Workload generators: worlds of events, file styles, option sets."""
import math
import struct

from . import model

NAME_POOLS = [
    ["a", "b", "c", "d", "e"],
    ["word", "words", "wor", "Word", "WORD", "word.", "word2"],
    ["1", "2", "10", "01", "-1", "1.5", "1e3"],
    ["\u00e9t\u00e9", "\u4e2d\u6587", "\u0430", "a\u0301", "\u00fc"],
    ["--help", "-x", "true", "a#b", "a/b", "\"q\"", "a,b", "$x", "%s%n", "\\"],
    ["x" * 40, "x" * 41, "x" * 300],
    ["\u00a0", "\u0085x", "\u2003w", "\x01", "\x7f"],
]
DOC_POOLS = [
    ["p1", "p2", "p3"],
    ["#doc", "doc", "doc#", "001", "1"],
    ["page-\u00e1", "page-a", "page-b.jpg"],
    ["z" * 60, "z" * 61],
    ["scan-0001-left", "scan-0001-left.png", "scan-0001-left.xml", "scan-0001-left.", "dir/scan-0001-left", "./scan-0001-left", "SCAN-0001-LEFT", "scan-1-left"],
]


def enc(s):
    return s.encode("utf-8").decode("latin-1")


def pick_names(rng, n, pools, no_hash):
    out = []
    mixed = rng.random() < 0.3
    pool = rng.choice(pools)
    while len(out) < n:
        if mixed:
            pool = rng.choice(pools)
        s = rng.choice(pool)
        if rng.random() < 0.3 or n > len(pool):
            s += str(rng.randrange(max(2, n)))
        s = enc(s)
        if no_hash and s.startswith("#"):
            s = "q" + s
        if s not in out:
            out.append(s)
    return out


def fmt_u32(rng, v):
    s = str(v)
    t = rng.random()
    if t < 0.03:
        s = "+" + s
    elif t < 0.06:
        s = "0" * rng.randrange(1, 4) + s
    return s


def score_pool(rng, n):
    """Score texts, with the patterns of ties that matter."""
    mode = rng.randrange(9)
    if mode == 0:
        vals = ["%g" % rng.random() for _ in range(rng.randrange(1, 4))]
        return [rng.choice(vals) for _ in range(n)]
    if mode == 1:
        return ["%.6f" % rng.random() for _ in range(n)]
    if mode == 2:
        return [str(rng.randrange(-3, 4)) for _ in range(n)]
    if mode == 3:
        s = rng.choice(["1", "0", "-5.5", "1e-3"])
        return [s] * n
    if mode == 4:
        vals = ["0", "-0", "0.0", "-0.0", "+0", "1e-40", "-1e-40", "0e5"]
        return [rng.choice(vals) for _ in range(n)]
    if mode == 5:
        # distinct decimals, some of them equal in single precision
        vals = ["16777216", "16777217", "16777218", "0.1", "0.10000000149", "0.100000001",
                "0.2", "1.00000001", "1", "1e0", "10e-1"]
        return [rng.choice(vals) for _ in range(n)]
    if mode == 6:
        return ["%.3fe%d" % (rng.uniform(-9, 9), rng.randrange(-30, 31)) for _ in range(n)]
    if mode == 8:
        vals = ["3.4028234e38", "-3.4028234e38", "3.4028235e38", "-3.4028235e38", "-3e38", "1e-38", "0", "1", "1.0000001", "1.00000012", "0.99999994"]
        return [rng.choice(vals) for _ in range(n)]
    vals = ["%d" % -rng.randrange(1000) if rng.random() < .5 else ".%d" % rng.randrange(100)
            for _ in range(max(1, n // 2))]
    return [rng.choice(vals) for _ in range(n)]


def distinct_scores(rng, n):
    base = list(range(n))
    rng.shuffle(base)
    k = rng.choice([1.0, 0.25, 0.0009765625])
    return [repr((b - n // 3) * k) for b in base]


class World(object):
    """refs/hyps as lists of (field texts); ref_events/hyp_events as model tuples."""

    def __init__(self, kind):
        self.kind = kind
        self.refs, self.hyps = [], []

    def text(self, which, rng=None, style=None):
        rows = self.refs if which == "refs" else self.hyps
        return write_rows(rows, rng, style)

    def ref_events(self):
        return [self._ev(r, False) for r in self.refs]

    def hyp_events(self):
        return [self._ev(h, True) for h in self.hyps]

    def _ev(self, row, scored):
        ev = list(row[:2])
        if self.kind == "icdar":
            ev += [int(t) for t in row[2:6]]
        if scored:
            ev.append(model.strtof(row[-1]))
        return tuple(ev)


def size_class(rng, big=0.02):
    t = rng.random()
    if t < 0.05:
        return rng.randrange(0, 2), rng.randrange(0, 2)
    if t < 0.35:
        return rng.randrange(0, 6), rng.randrange(0, 8)
    if t < 0.85:
        return rng.randrange(1, 25), rng.randrange(1, 40)
    if t < 1 - big:
        return rng.randrange(20, 120), rng.randrange(20, 200)
    return rng.randrange(200, 900), rng.randrange(300, 1500)


def rand_box(rng, geo):
    if geo == "grid":
        return (rng.randrange(8), rng.randrange(8), rng.randrange(0, 7), rng.randrange(0, 7))
    if geo == "line":
        return (rng.randrange(30), 0, rng.randrange(1, 12), 1)
    if geo == "page":
        return (rng.randrange(2500), rng.randrange(3500), rng.randrange(5, 400), rng.randrange(5, 120))
    if geo == "far":
        w, h = rng.randrange(1, 1000), rng.randrange(1, 1000)
        return (model.U32 - 1 - w - rng.randrange(50), model.U32 - 1 - h - rng.randrange(50), w, h)
    # "vast": one side large, areas below 2^32
    w = 1 << rng.randrange(0, 31)
    h = max(1, min((model.U32 - 1) // w, 1 << rng.randrange(0, 31)))
    return (rng.randrange(4), rng.randrange(4), w, h)


def derive_box(rng, b, geo):
    """A hypothesis box in a chosen relation to a reference box."""
    x, y, w, h = b
    t = rng.randrange(11)
    if t == 0:
        nb = b
    elif t == 1:      # exactly half of the hypothesis covered (even width)
        nb = (x, y, w * 2, h)
    elif t == 2:      # shifted by half its width
        nb = (x + w // 2, y, w, h)
    elif t == 3:      # just under half
        nb = (x, y, w * 2 + 1, h)
    elif t == 4:      # contained
        nb = (x + w // 4, y + h // 4, max(1, w // 2), max(1, h // 2))
    elif t == 5:      # containing
        nb = (max(0, x - 1), max(0, y - 1), w + 2, h + 2)
    elif t == 6:      # touching edges
        nb = (x + w, y, w, h)
    elif t == 7:      # touching corner
        nb = (x + w, y + h, max(1, w), max(1, h))
    elif t == 8:      # no area
        nb = (x + w // 2, y + h // 2, 0, h) if rng.random() < .5 else (x, y, w, 0)
    elif t == 9:      # half in each direction
        nb = (x, y + (h + 1) // 2, w, h)
    else:             # jitter
        d = max(1, (w + h) // 6)
        nb = (max(0, x + rng.randrange(-d, d + 1)), max(0, y + rng.randrange(-d, d + 1)),
              max(0, w + rng.randrange(-d, d + 1)), max(0, h + rng.randrange(-d, d + 1)))
    e = ("q", "d") + nb
    return nb if model.in_domain([e]) else b


def world(rng, kind, size=None, scores=None, tidy=False):
    """tidy: no odd number spellings."""
    for _ in range(200):
        w = World(kind)
        nr, nh = size or size_class(rng)
        nq = 1 if rng.random() < 0.15 else rng.randrange(1, max(2, min(12, nr + nh + 1)) + 1)
        if kind == "icdar" and nr > 30 and rng.random() < .5:
            nq = rng.randrange(1, 4)
        qs = pick_names(rng, nq, NAME_POOLS, True)
        ds = pick_names(rng, rng.randrange(1, 4), DOC_POOLS, False)
        geo = rng.choice(["grid", "grid", "line", "page", "page", "far", "vast"])
        if rng.random() < 0.15:
            ds = ds[:2] + qs[:1]        # a document named as a query
        u = (lambda v: str(v)) if tidy else (lambda v: fmt_u32(rng, v))
        refs = []
        if kind == "icdar":
            for _i in range(nr):
                if refs and rng.random() < 0.08:
                    refs.append(rng.choice(refs))
                elif refs and rng.random() < 0.06:       # one box under two queries, or in two documents
                    r = rng.choice(refs)
                    refs.append((rng.choice(qs), r[1]) + r[2:] if rng.random() < .6 else (r[0], rng.choice(ds)) + r[2:])
                else:
                    refs.append((rng.choice(qs), rng.choice(ds)) + rand_box(rng, geo))
        else:
            locs = pick_names(rng, max(1, int(nr * rng.choice([0.3, 1, 2]))), DOC_POOLS + NAME_POOLS, False)
            for _i in range(nr):
                refs.append((rng.choice(qs), rng.choice(locs)))
        texts = (distinct_scores(rng, nh) if scores == "distinct" else score_pool(rng, nh))
        hyps = []
        extra = pick_names(rng, 2, NAME_POOLS, True)
        for i in range(nh):
            t = rng.random()
            if refs and t < 0.75:
                r = rng.choice(refs)
                q = r[0]
                if rng.random() < 0.08:
                    q = rng.choice(qs + extra)
                d = r[1]
                if rng.random() < 0.08:
                    d = rng.choice(ds)
                ev = (q, d)
                if kind == "icdar":
                    ev += derive_box(rng, r[2:6], geo)
            elif hyps and t < 0.8:
                ev = rng.choice(hyps)
            else:
                ev = (rng.choice(qs + extra), rng.choice(ds))
                if kind == "icdar":
                    ev += rand_box(rng, geo)
            hyps.append(ev)
        w.refs = [list(r[:2]) + [u(v) for v in r[2:]] for r in refs]
        w.hyps = [list(h[:2]) + [u(v) for v in h[2:]] + [s] for h, s in zip(hyps, texts)]
        if kind == "icdar":
            re, he = w.ref_events(), w.hyp_events()
            if not (model.in_domain(re) and model.in_domain(he)) or model.near_threshold(re, he):
                continue
        return w
    raise RuntimeError("no world in the domain")


def big_world(rng, kind, most=90000, rare=False):
    """Tens of thousands of events, or crowds of overlapping ones: what narrow counters and capped tables do not hold."""
    w = World(kind)
    shape = rng.choice(["many", "many", "wide", "rare", "crowd" if kind == "icdar" else "many"])
    if rare:
        shape = "rare"
    if shape == "rare":
        # very few references among many hypotheses, hit late: metrics close to zero
        nr, nh = rng.randrange(1, 4) if not rare else 1, rng.randrange(most // 2 if rare else 20000, most)
        qs, ds = ["q%d" % i for i in range(rng.choice([1, 1, 2]))], ["d"]
        refs = [(rng.choice(qs), rng.choice(ds)) + ((i, 0, 10, 10) if kind == "icdar" else ()) for i in range(nr)]
    elif shape == "crowd":
        nr, nh = rng.randrange(300, 1500), rng.randrange(500, min(3000, most))
        qs, ds = ["q%d" % i for i in range(rng.randrange(1, 4))], ["d%d" % i for i in range(rng.randrange(1, 3))]
        side = rng.choice([40, 2000])
        refs = [(rng.choice(qs), rng.choice(ds), rng.randrange(side), rng.randrange(side), rng.randrange(1, side), rng.randrange(1, side)) for _ in range(nr)]
    else:
        nr, nh = (min(most, rng.choice([33000, 65536, 70000, most])) for _ in range(2))
        nq = rng.choice([1, 3, 300]) if shape == "many" else rng.choice([20000, min(most, 70000)])
        qs = ["q%d" % i for i in range(nq)]
        ds = ["d%d" % i for i in range(nr if kind == "simple" else nr // 3)]
        refs = []
        for i in range(nr):
            e = (qs[i % nq], rng.choice(ds))
            refs.append(e + (rng.randrange(3000), rng.randrange(3000), rng.randrange(20, 400), rng.randrange(10, 90)) if kind == "icdar" else e)
    hit = rng.choice([.5, .9])
    hyps = []
    for i in range(nh):
        r = rng.choice(refs)
        if shape == "rare":
            if i < nh - 3 or rng.random() < .3:
                r = (rng.choice(qs), "e%d" % i) + r[2:]
        elif rng.random() >= hit:
            r = (rng.choice(qs), rng.choice(ds)) + r[2:]
        elif kind == "icdar" and rng.random() < .5:
            r = r[:2] + (r[2] + rng.randrange(9), r[3], r[4], r[5])
        hyps.append(r)
    t = rng.randrange(3) if shape != "rare" else 0
    scores = distinct_scores(rng, nh) if t == 0 else [str(rng.randrange(5)) for _ in range(nh)] if t == 1 else ["%.4f" % rng.random() for _ in range(nh)]
    if shape == "rare":             # the hits come last in any order
        scores = ["%d" % (nh - i) for i in range(nh)]
        if rng.random() < .3:
            scores.reverse()
    w.refs = [list(r[:2]) + [str(v) for v in r[2:]] for r in refs]
    w.hyps = [list(h[:2]) + [str(v) for v in h[2:]] + [s] for h, s in zip(hyps, scores)]
    w.shape, w.distinct = shape, t == 0
    return w


# what some formats say in comments
WORDS = ["end", "!end", "EOF", "end of file", " end", "include x", "!/bin/sh", "include <x>", "define q d", "if 0", "endif", " stop", " skip", "1", " 1", " query document", " vim: set ft=x:",
         "-*- coding: utf-8 -*-", "threshold 0.9", " sorted", " version 2", "\\", " continued \\", "/*", " */", "\"", "'", "(", "{", "<!--", "[section]", "ref", "hyp", "!ignore", "nosort", " " * 50]


def write_rows(rows, rng=None, style=None):
    """style None: plain; 'odd': blanks, tabs, comments, CRLF, no final newline."""
    if rng is None or style is None:
        return "".join(" ".join(r) + "\n" for r in rows)
    out = []
    eol = rng.choice(["\n", "\n", "\r\n"])
    if rng.random() < .3:
        out.append("#" + rng.choice([" created by a program of some name, version 1.2, on a day of some month", "=" * 80, "query document x y w h score", "#" * 300]) + eol)

    def sep():
        return rng.choice([" ", " ", "\t", "  ", " \t ", "\v", "\f", "\r"])
    for r in rows:
        while rng.random() < 0.12:
            out.append(rng.choice(["", "   ", "\t", "\r", "# a comment", "  #x 1 2 3 4 5 0.5", "#", "\v#", "#" + rng.choice(WORDS)]) + eol)
        lead = rng.choice(["", "", "", " ", "\t", " \r "])
        trail = rng.choice(["", "", "", " ", "\t\t", " \v"])
        line = lead
        for i, f in enumerate(r):
            line += (sep() if i else "") + f
        out.append(line + trail + eol)
    while rng.random() < 0.15:
        out.append(rng.choice(["", " ", "# end"]) + eol)
    text = "".join(out)
    if text and rng.random() < 0.3:
        text = text[:-1]               # no final newline (a \r may remain)
    return text


def opts(rng, kind):
    o = model.Opts()
    args = []

    def flag(name):
        t = rng.random()
        if t < 0.4:
            return True
        v = rng.random() < 0.35
        args.append(("--" + name, rng.choice(["true", "1"]) if v else rng.choice(["false", "0"])))
        return v
    o.collapse = flag("collapse_matches")
    o.interpolate = flag("interpolated_precision")
    o.trapezoid = flag("trapezoid_integral")
    t = rng.random()
    if t < 0.5:
        o.order = rng.choice(["desc", "asc", "none"])
        args.append(("--sort", o.order))
    rng.shuffle(args)
    return o, [x for a in args for x in a]


def write(path, text):
    with open(path, "wb") as f:
        f.write(text.encode("latin-1"))
    return path


OPTION_NAMES = ["help", "sort", "collapse_matches", "interpolated_precision", "trapezoid_integral", "query_set", "query_groups", "bootstrap_samples", "bootstrap_alpha",
         "bootstrap_seed", "bootstrap_ci_gap", "bootstrap_ci_map", "bootstrap_ci_gndcg", "bootstrap_ci_mndcg", "output_grp", "output_mrp", "dump_matches",
         "rp_curve_samples"]


def near_option(rng):
    """Almost an option of the tools."""
    n = "help" if rng.random() < .2 else rng.choice(OPTION_NAMES)
    k = rng.randrange(len(n))
    while True:
        t = rng.randrange(12)
        s = (n.replace("_", "-"), n[:k], n[:k] + n[k].upper() + n[k + 1:], n + "=", n + "=1", n.replace("_", ""), "no" + n, n[:k] + n[k + 1:], n + "s",
             n + "".join(rng.choice("abcxyz_-=1") for _ in range(rng.randrange(1, 9))), n[:k] + n[k:].upper(), " " + n)[t]
        if s and s not in OPTION_NAMES:
            return "--" + s
