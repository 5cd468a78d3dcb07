"""Independent reference of what the tools compute, written from the definitions.

Text is handled as latin-1 strings, that is, byte by byte. Boxes are exact
integers, ratios are compared as integers, scores are IEEE single precision
(what an event holds), metrics are double precision.
"""
import ctypes
import math
import re
import struct

_libc = ctypes.CDLL(None)
_libc.strtof.restype = ctypes.c_float
_libc.strtof.argtypes = [ctypes.c_char_p, ctypes.c_void_p]

WS = " \t\n\v\f\r"
U32 = 1 << 32
FLOAT_RE = re.compile(r"[+-]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?\Z")
UINT_RE = re.compile(r"\+?[0-9]+\Z")


def strtof(s):
    return float(_libc.strtof(s.encode("latin-1"), None))


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


def parse_float(tok):
    if not FLOAT_RE.match(tok):
        return None
    v = strtof(tok)
    return None if math.isinf(v) else v


def parse_u32(tok):
    if not UINT_RE.match(tok):
        return None
    v = int(tok)
    return v if v < U32 else None


class Bad(Exception):
    """Malformed file; args[0] is the 1-based line."""


def split_fields(line):
    out, cur = [], ""
    for ch in line:
        if ch in WS:
            if cur:
                out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur:
        out.append(cur)
    return out


def lines_of(text):
    """Lines as terminated by newline; a last one may lack it."""
    parts = text.split("\n")
    if parts and parts[-1] == "":
        parts.pop()
    return parts


def read_events(kind, scored, text):
    """kind 'icdar': (query, doc, x, y, w, h[, score]); 'simple': (query, loc[, score])."""
    events = []
    for n, line in enumerate(lines_of(text), 1):
        f = split_fields(line)
        if not f or f[0][0] == "#":
            continue
        want = (6 if kind == "icdar" else 2) + (1 if scored else 0)
        if len(f) != want:
            raise Bad(n)
        ev = list(f[:2])
        if kind == "icdar":
            for t in f[2:6]:
                v = parse_u32(t)
                if v is None:
                    raise Bad(n)
                ev.append(v)
        if scored:
            s = parse_float(f[-1])
            if s is None:
                raise Bad(n)
            ev.append(s)
        events.append(tuple(ev))
    return events


# ---- geometry ------------------------------------------------------------
def area(b):
    return b[2] * b[3]


def inter(a, b):
    """a, b: (x, y, w, h); area of the common region."""
    w = min(a[0] + a[2], b[0] + b[2]) - max(a[0], b[0])
    h = min(a[1] + a[3], b[1] + b[3]) - max(a[1], b[1])
    return w * h if w > 0 and h > 0 else 0


def in_domain(events):
    """Edges and areas representable (32 bits)."""
    for e in events:
        x, y, w, h = e[2:6]
        if x + w >= U32 or y + h >= U32 or w * h >= U32:
            return False
    return True


def near_threshold(refs, hyps):
    """Is some pair's overlap so near one half that single precision decides it?"""
    by = {}
    for r in refs:
        by.setdefault(r[:2], []).append(r)
    for h in hyps:
        ah = area(h[2:6])
        if ah <= 1 << 24:
            continue
        for r in by.get(h[:2], ()):
            d = abs(2 * inter(r[2:6], h[2:6]) - ah)
            if d and d * (1 << 18) < ah:
                return True
    return False


# ---- matching ------------------------------------------------------------
class Entry(object):
    __slots__ = ("hyp", "ref", "fp", "fn")

    def __init__(self, hyp, ref, fp, fn):
        self.hyp, self.ref, self.fp, self.fn = hyp, ref, fp, fn

    def query(self):
        return (self.ref or self.hyp)[0]

    def score(self):
        return self.hyp[-1] if self.hyp is not None else -math.inf


def sort_hyps(kind, hyps, order):
    if order not in ("asc", "desc"):
        return list(hyps)
    return sorted(hyps, key=lambda h: (h[-1],) + tuple(h[:-1]), reverse=order == "desc")


def match(kind, refs, hyps):
    """-> entries (in order; misses last), repetitions."""
    free = set(refs)
    distinct = set(refs)
    by = {}
    for r in distinct:
        by.setdefault(r[:2], []).append(r)
    out, rep = [], []
    for h in hyps:
        loc = h[:2]
        if kind == "icdar":
            cand = []
            for r in by.get(loc, ()):
                i = inter(r[2:6], h[2:6])
                if i > 0:
                    cand.append((i, r))
            cand.sort(reverse=True)
            ah = area(h[2:6])
            ok = [r for i, r in cand if 2 * i >= ah]
        else:
            ok = [loc] if loc in distinct else []
        if not ok:
            out.append(Entry(h, None, 1.0, 0.0))
            continue
        for r in ok:
            if r in free:
                free.discard(r)
                out.append(Entry(h, r, 0.0, 0.0))
                break
            rep.append((h, r))
    out.extend(Entry(None, r, 0.0, 1.0) for r in sorted(free))
    return out, rep


# ---- statistics ----------------------------------------------------------
def counts(e):
    """(fp, fn, nh, nr) of one entry."""
    return (e.fp, e.fn, 1 if e.hyp is not None else 0, 1 if e.ref is not None else 0)


def to_points(entries, collapse):
    pts, last = [], None
    for e in entries:
        c = counts(e)
        s = e.score()
        if collapse and pts and s == last:
            pts[-1] = tuple(a + b for a, b in zip(pts[-1], c))
        else:
            pts.append(c)
        last = s
    return pts


def curve(pts, interpolate):
    total = sum(p[3] for p in pts)
    pr, rc = [], []
    fp = fn = nh = nr = 0
    for p in pts:
        fp += p[0]
        fn += p[1]
        nh += p[2]
        nr += p[3]
        pr.append(1.0 - fp / nh if nh else 1.0)
        rc.append((nr - fn) / total if total else 1.0)
    if interpolate:
        best = -math.inf
        for i in range(len(pr) - 1, -1, -1):
            best = max(best, pr[i])
            pr[i] = best
    return pr, rc


def average_precision(pts, interpolate, trapezoid):
    if not sum(p[3] for p in pts):
        return 0.0
    pr, rc = curve(pts, interpolate)
    terms, prev = [], 0.0
    for i in range(len(pr)):
        hgt = (pr[i] + pr[i - 1]) / 2 if trapezoid and i else pr[i]
        terms.append((rc[i] - prev) * hgt)
        prev = rc[i]
    return math.fsum(terms)


def ndcg(pts):
    total = sum(p[3] for p in pts)
    if not total:
        return 0.0
    terms, rank = [], 0
    for fp, fn, nh, nr in pts:
        if nh:
            gain = 2.0 ** (1.0 - fp / nh) - 1.0
            for _ in range(nh):
                rank += 1
                terms.append(gain / math.log2(rank + 1))
    z = math.fsum(1.0 / math.log2(k + 1) for k in range(1, total + 1))
    return math.fsum(terms) / z


def group(entries, q2g):
    groups = {}
    for e in entries:
        q = e.query()
        groups.setdefault(q2g.get(q, q), []).append(e)
    return list(groups.values())


def metrics(entries, groups, collapse, interpolate, trapezoid):
    g = to_points(entries, collapse)
    out = {"gAP": average_precision(g, interpolate, trapezoid), "gNDCG": ndcg(g)}
    aps = [average_precision(to_points(m, collapse), interpolate, trapezoid) for m in groups]
    nds = [ndcg(to_points(m, collapse)) for m in groups]
    out["mAP"] = math.fsum(aps) / len(aps) if aps else 0.0
    out["mNDCG"] = math.fsum(nds) / len(nds) if nds else 0.0
    return out


def resorted(entries):
    """Stable decreasing score, misses last."""
    return sorted(entries, key=lambda e: (0, -e.score()) if e.hyp is not None else (1, 0.0))


# ---- query sets and groups -----------------------------------------------
def read_query_set(text):
    return {q: q for q in split_fields(text)}


def read_query_groups(text):
    q2g = {}
    for line in lines_of(text):
        f = split_fields(line)
        if len(f) < 2:
            raise Bad(0)
        for q in f[1:]:
            q2g[q] = f[0]
    return q2g


# ---- curves --------------------------------------------------------------
def sample_curve(pr, rc, xs, linear, shift=0.0):
    ys = []
    for x in xs:
        x = x + shift
        j = 0
        lo, hi = 0, len(rc)
        while lo < hi:                 # first point with rc >= x (rc never decreases)
            mid = (lo + hi) // 2
            if rc[mid] < x:
                lo = mid + 1
            else:
                hi = mid
        j = lo
        if j == len(rc):
            ys.append(0.0)
        elif not linear or j == 0:
            ys.append(pr[j])
        else:
            t = (rc[j] - x) / (rc[j] - rc[j - 1])
            ys.append(t * pr[j - 1] + (1 - t) * pr[j])
    return ys


def grid(n):
    return [k / (n - 1) for k in range(n)] if n > 1 else []


# ---- one evaluation ------------------------------------------------------
class Opts(object):
    def __init__(self):
        self.collapse = self.interpolate = self.trapezoid = True
        self.order = "desc"


def evaluate(kind, refs, hyps, o, q2g=None):
    if q2g is not None:
        refs = [r for r in refs if r[0] in q2g]
        hyps = [h for h in hyps if h[0] in q2g]
    hyps = sort_hyps(kind, hyps, o.order)
    entries, rep = match(kind, refs, hyps)
    groups = group(entries, q2g or {})
    m = metrics(entries, groups, o.collapse, o.interpolate, o.trapezoid)
    return m, entries, rep, groups


NAMES = ["gAP", "mAP", "gNDCG", "mNDCG"]
_NUM = r"(-?(?:[0-9]+(?:\.[0-9]+)?(?:e[+-]?[0-9]+)?|nan|inf))"
LINE_RE = re.compile(r"([gm](?:AP|NDCG)) = " + _NUM + r"(?: \[" + _NUM + r", " + _NUM + r"\])?\Z")


def parse_stdout(text):
    """-> {name: (value, (lo, up) or None)} in exactly the four expected lines, or None."""
    lines = text.split("\n")
    if len(lines) != 5 or lines[4] != "":
        return None
    out = {}
    for name, line in zip(NAMES, lines):
        m = LINE_RE.match(line)
        if not m or m.group(1) != name:
            return None
        ci = (float(m.group(3)), float(m.group(4))) if m.group(3) is not None else None
        out[name] = (float(m.group(2)), ci)
    return out


def close(printed, value, rel=5.2e-6):
    """Equal at the printed precision (six significant digits)."""
    if math.isnan(printed) or math.isinf(printed):
        return False
    return abs(printed - value) <= rel * abs(value) + 1e-9
