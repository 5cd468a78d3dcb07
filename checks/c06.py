"""C06: what the readers return for generated files, field by field, against the model; both tools on the same files."""
import os
import re
import struct

from lib import common, evalrun, gen, model

RULE = ("One evaluation is one file read three ways (from the path over a non-empty output, from a stream over a non-empty and an empty output) "
        "whose events, verdict and reported line are compared with an independent parser, or one tool run on such a file. Non-trivial: the file "
        "has at least two event lines, or is malformed at a line other than the first; distinct by the bytes of the file and the kind of event.")
ASSUMPTIONS = [
    "unsigned coordinates written with a minus sign are left out of the generated files: known finding, probed on its own",
    "numbers are decimal literals (an optional sign, digits, point, exponent) and scores that overflow single precision do not fit their type",
]
RANGES = {"icdar": (0, 2 ** 32 - 1), "int32": (-2 ** 31, 2 ** 31 - 1), "int64": (-2 ** 63, 2 ** 63 - 1), "uint16": (0, 65535)}
KINDS = ["icdar-ref", "icdar-hyp", "icdar-hyp", "int32-ref", "int64-hyp", "uint16-hyp", "simple-ref", "simple-hyp", "mapped-ref", "mapped-hyp"]
INT_RE = re.compile(r"[+-]?[0-9]+\Z")


def parse(kind, text):
    """-> list of field tuples, or Bad(line)."""
    base, what = kind.split("-")
    lo_hi = RANGES.get(base)
    out = []
    for n, line in enumerate(model.lines_of(text), 1):
        f = model.split_fields(line)
        if not f or f[0][0] == "#":
            continue
        if len(f) != (6 if lo_hi else 2) + (what == "hyp"):
            raise model.Bad(n)
        row = list(f[:2])
        for t in f[2:6] if lo_hi else ():
            if not INT_RE.match(t) or not lo_hi[0] <= int(t) <= lo_hi[1]:
                raise model.Bad(n)
            row.append(int(t))
        if what == "hyp":
            s = model.parse_float(f[-1])
            if s is None:
                raise model.Bad(n)
            row.append(s)
        out.append(tuple(row))
    return out


def unhex(s):
    return bytes.fromhex(s[1:]).decode("latin-1")


def int_token(rng, base):
    lo, hi = RANGES[base]
    t = rng.random()
    if t < .6:
        v = rng.randrange(0, 3000)
    elif t < .8:
        v = rng.choice([0, 1, hi, hi - 1, hi // 2])
    else:
        v = rng.randrange(max(lo, -2 ** 40), min(hi, 2 ** 40) + 1)
    s = str(v)
    if v >= 0 and rng.random() < .1:
        s = rng.choice(["+", "0", "00", "+0"]) + s
    return s


def bad_int(rng, base):
    lo, hi = RANGES[base]
    out = rng.choice([str(hi + 1), str(hi * 10 + 5), "99999999999999999999999", "1.5", "1e3", "0x10", "abc", "1a", "5#", "5,", "1_0", "+", "-",
                      "--5", "+-5", "inf", "nan", "\xb2", "5\x01", "", "5-", "3.0", ".5", "'5'", "1,000", "1'000", "12'345", "1 000".replace(" ", "\xa0"), "5L", "5u", "0b1", "1e0", "5%", "5px",
                      "\uff15".encode().decode("latin-1"), "5/1", "(5)", "$5", "5;", ";5", "\"5\"", "5\x00", "5\x1a"])
    if lo < 0 and rng.random() < .2:
        out = str(lo - 1)
    return out


def score_token(rng):
    return rng.choice(["0.5", "1", "-1", "-0", "+2.5", ".5", "5.", "1e5", "1E-5", "1e-45", "1e-60", "3.4028234e38", "-3.4e38", "0000.25", "16777217",
                       "0.1", "%.9g" % rng.uniform(-1, 1), "%d" % rng.randrange(-9999, 9999), "1.17549e-38", "123456789012345678901234567890"])


def bad_score(rng):
    return rng.choice(["1e39", "-1e40", "1e", "1e+", ".", "-", "+", "abc", "1x", "0x1p3", "nan", "inf", "-inf", "1.2.3", "1,5", "1e5e5", "1f", "e5",
                       "infinity", "NAN", "1e999999", "--1", "+-1", "1#", "\xa01", "1\x00", "0x10", "1e1.5", "1'000.5", "1_0.5", "50%", "1/2", "0.5L", "1d3", "1D3", "0,5", "0.5;", "+.e1", "1e0x1",
                       "1 e5".replace(" ", "\xa0"), "\"0.5\"", "0.5\x1a", "nan(1)", "INFINITY", "Infinity", "snan"])


NAMES = ["a", "b", "word", "w#x", "d#", "1", "-1", "+", "0.5", "\"q\"", "\xc3\xa9", "\xa0", "\x85", "x" * 300, "\x01", "\x7f", "a\x00b", "%s", "//", ";;", ";;x", ";", "!x", "%%", "%x", "*", "--", "---", "/*", "'", "\"", "REM", "@", "\\", "\\n", "\x1a", "\x04", "\xfe", "\xff\xfe", "N/A", "NULL", "-", "=", "query", "[a]", "é".encode().decode("latin-1")]
BLANKS = [" ", " ", " ", "  ", "\t", " \t ", "\v", "\f", "\r", " " * 40]


def gen_file(rng, kind):
    base, what = kind.split("-")
    n = rng.choice([0, 1, 2, 3, 5, 8, 20, 60])
    malformed = rng.random() < .45
    lines = []
    for i in range(n):
        t = rng.random()
        if t < .08:
            lines.append(rng.choice(["", " ", "\t", "\r", " \v\f "]))
            continue
        if t < .16:
            lines.append(rng.choice(["#", " # x", "\t#a b 1 2 3 4", "## 1", "#" * 50, "\r#x", "#\x00", "#" + rng.choice(gen.WORDS)]))
            continue
        q, d = rng.choice(NAMES), rng.choice(NAMES + ["#hash", "#"])
        f = [q if q[0] != "#" else "q" + q, d]
        if base in RANGES:
            f += [int_token(rng, base) for _ in range(4)]
        if what == "hyp":
            f.append(score_token(rng))
        lines.append(f)
    if malformed and lines:
        for i in rng.sample(range(len(lines)), min(len(lines), rng.choice([1, 1, 2]))):
            f = lines[i]
            if not isinstance(f, list):
                lines[i] = rng.choice(["x", "x y 1", "1 2 3", "- - -", "\x00", "\x1a", "\x04", "\x1b", "\xff", ";", "//", "--", "%", "[a]", "EOF", ".", "\\", "---", "END", "\xef\xbb\xbf"])
                continue
            f = list(f)
            t = rng.randrange(7)
            if t == 0:
                del f[rng.randrange(len(f))]
            elif t == 1:
                f.append(rng.choice(["x", "#", "#c", "0", "0.5", "\xa0", "\x00"]))
            elif t == 2:
                f = f[:rng.randrange(1, len(f))]
            elif t in (3, 4) and base in RANGES:
                f[rng.randrange(2, 6)] = bad_int(rng, base)
            elif what == "hyp":
                f[-1] = bad_score(rng)
            elif t == 5:
                f.insert(0, rng.choice(["z", "0"]))
            else:
                f = [f[0] + f[1]] + f[2:]
            lines[i] = f
    out = []
    for f in lines:
        if isinstance(f, list):
            s = rng.choice(["", "", "", " ", "\t", " \r"])
            s += "".join(x + rng.choice(BLANKS) if k < len(f) - 1 else x for k, x in enumerate(f))
            s += rng.choice(["", "", "", " ", "\t ", "\r", "  \r"])
            out.append(s)
        else:
            out.append(f)
    text = "\n".join(out)
    if rng.random() < .7:
        text += rng.choice(["\n", "\n", "\n\n", "\r\n"])
    if rng.random() < .05:
        text = "\xef\xbb\xbf" + text
    if rng.random() < .08 and text:          # arbitrary damage
        p = rng.randrange(len(text))
        text = text[:p] + chr(rng.choice([0, 10, 32, 35, 45, 46, 48, 101, 255])) + text[p + rng.randrange(2):]
    return text


LENGTHS = [254, 255, 256, 257, 511, 512, 1022, 1023, 1024, 1025, 2047, 2048, 4094, 4095, 4096, 4097, 8191, 8192, 16384, 65534, 65535, 65536, 65537, 100000, 200000]


def long_file(rng, kind):
    """Lines, names and blanks of lengths around those of buffers."""
    base, what = kind.split("-")
    rows = []
    for _ in range(rng.randrange(1, 5)):
        n = rng.choice(LENGTHS) + rng.choice([0, 0, -3, 2])
        t = rng.randrange(5)
        f = ["q", "d"] + ([int_token(rng, base) for _k in range(4)] if base in RANGES else []) + (["0.5"] if what == "hyp" else [])
        if t == 0:
            f[rng.randrange(2)] = "n" * n
        elif t == 1:
            rows.append("#" + "c" * n)
        elif t == 2:
            k = rng.randrange(2, len(f) + 1)
            f.insert(k, " " * max(1, n - len(" ".join(f))))
        elif t == 3:
            rows.append(" " * n)
        else:
            f[1] = "m" * max(1, n - len(" ".join(f)) + 1)
        rows.append(" ".join(x for x in f))
    if rng.random() < .3:
        rows.append(rng.choice(["x", "q d " + "9" * rng.choice(LENGTHS), "q d" + " z" * 5000]))
        rows.append("q d 1 1 1 1 1")
    return "\n".join(rows) + rng.choice(["", "\n", "\n"])


def many_lines(rng, kind):
    """More lines than 16 bits count, a bad one maybe late among them."""
    base, what = kind.split("-")
    n = rng.choice([65535, 65536, 65537, 70000, 33000])
    tail = (" 1 2 3 4" if base in RANGES else "") + (" 0.5" if what == "hyp" else "")
    rows = ["q%d d%d%s" % (i % 300, i, tail) if rng.random() < .9 else "# %d" % i for i in range(n)]
    if rng.random() < .6:
        rows[rng.randrange(n * 3 // 4, n) if rng.random() < .5 else n - 1] = "q"
    return "\n".join(rows) + "\n"


NEG_RE = re.compile(r"-[0-9]")


def excluded(kind, text):
    """Minus signs in unsigned coordinates: the known finding."""
    base = kind.split("-")[0]
    if base not in ("icdar", "uint16"):
        return False
    for line in model.lines_of(text):
        f = model.split_fields(line)
        if f and f[0][0] != "#" and any(NEG_RE.match(t) for t in f[2:6]):
            return True
    return False


def expect(kind, text):
    try:
        rows = parse(kind, text)
    except model.Bad as e:
        return None, e.args[0]
    if kind.startswith("mapped"):
        return rows, None
    return rows, None


def parse_row(kind, line):
    base = kind.split("-")[0]
    f = line.split(" ")
    row = []
    for t in f:
        if t[0] == "x":
            row.append(unhex(t))
        elif t[0] == "f":
            row.append(struct.unpack("f", struct.pack("I", int(t[1:])))[0])
        else:
            row.append(int(t))
    return tuple(row)


def judge(kind, want, bad_line, out, c, text):
    """out: list of (way, verdict, size, at_end, err, rows)."""
    for way, verdict, size, at_end, err, rows in out:
        at = "%s, way %d: %r" % (kind, way, text[:1500])
        if verdict == "again":
            if bad_line is None and (rows[0][0] != str(len(want)) or rows[0][2:] != ["0"]):
                c.bad("exhausted-stream", "events, verdict, events of the second read: %r; %s" % (rows[0], at))
            continue
        if bad_line is not None:
            if verdict != "fail":
                c.bad("accepted-malformed", "line %d is malformed, but was accepted; %s" % (bad_line, at))
            elif bad_line not in [int(x) for x in re.findall(r"[0-9]+", err)]:
                c.bad("reported-line", "line %d is malformed, reported %r; %s" % (bad_line, err, at))
            continue
        if verdict != "ok":
            c.bad("rejected-well-formed", "%r; %s" % (err, at))
            continue
        if size != len(want) or len(rows) != size:
            c.bad("event-count", "%d events read, %d in the file; %s" % (size, len(want), at))
            continue
        if kind.startswith("mapped"):
            fwd, back = {}, {}
            for r, w in zip(rows, want):
                for a, b in zip(r[:2], w[:2]):
                    if fwd.setdefault(b, a) != a or back.setdefault(a, b) != b:
                        c.bad("mapped-fields", "%r for %r; %s" % (r, w, at))
                        break
                if r[2:] != w[2:]:
                    c.bad("score", "%r for %r; %s" % (r, w, at))
        else:
            for r, w in zip(rows, want):
                if r != w:
                    c.bad("fields", "read %r, written %r; %s" % (r, w, at))
                    break


def lib_case(rng, i, d, bins):
    c = common.Case()
    binary = bins[i % len(bins)]
    files = []
    with open(d + "/list", "w") as lst:
        for k in range(40):
            kind = rng.choice(KINDS)
            special = None
            if k == 7 and i % 6 == 0:
                special = many_lines
            elif k % 13 == 5:
                special = long_file
            for _ in range(20):
                text = (special or gen_file)(rng, kind)
                if not excluded(kind, text):
                    break
            else:
                text = ""
            p = gen.write("%s/f%d" % (d, k), text)
            lst.write("%s %s\n" % (kind, p))
            files.append((kind, text))
    p = common.run_capture([binary, d + "/list"], common.ENV, 120)
    if p.returncode != 0 or not p.stdout.endswith("ALLDONE\n"):
        c.bad("abnormal-end", "status %s\n%s" % (p.returncode, p.stderr[-3000:]))
        return c
    cur, res = None, []
    for line in p.stdout.split("\n"):
        if line.startswith("FILE "):
            cur = []
            res.append(cur)
        elif line.startswith("READ "):
            f = line.split(" ")
            rows = []
            cur.append((int(f[1]), f[2], int(f[3]), f[4], unhex(f[5]), rows))
        elif line.startswith("AGAIN "):
            cur[-1] = cur[-1][:1] + ("again",) + cur[-1][2:5] + ([line.split(" ")[1:]],)
        elif line not in ("END", "ALLDONE", ""):
            rows.append(line)
    hashes = []
    for (kind, text), out in zip(files, res):
        want, bad = expect(kind, text)
        out = [(w, v, s, e, err, rows if v == "again" else [parse_row(kind, r) for r in rows]) for w, v, s, e, err, rows in out]
        judge(kind, want, bad, out, c, text)
        c.evals += 1
        c.count("malformed" if bad is not None else "well_formed")
        c.count("events", 0 if bad is not None else len(want))
        if (bad or 0) > 1 or (want and len(want) > 1):
            c.nontrivial = True
            c.count("nontrivial_files")
            hashes.append((kind, text))
    c.hash = hashes
    c.replay = {"files": [(k, t[:3000]) for k, t in files[:40]]}
    if files:
        c.sample = "%s %r -> %s" % (files[0][0], files[0][1][:120], [o[1:3] for o in res[0]] if res else None)
    return c


def tool_case(rng, i, d, bins):
    """Both tools: the number of events reported and the metrics, or the error with its line."""
    c = common.Case()
    kind = rng.choice(["icdar", "simple"])
    tool = evalrun.tools_of(bins, kind, rng)
    for _ in range(30):
        rt, ht = [(long_file if rng.random() < .04 else gen_file)(rng, kind + x) for x in ("-ref", "-hyp")]
        if excluded(kind + "-ref", rt) or excluded(kind + "-hyp", ht):
            continue
        refs, bad_r = expect(kind + "-ref", rt)
        hyps, bad_h = expect(kind + "-hyp", ht)
        if kind == "icdar" and refs is not None and hyps is not None and (
                not model.in_domain(refs + hyps) or model.near_threshold(refs, hyps)):
            continue
        break
    else:
        rt = ht = ""
        refs, bad_r, hyps, bad_h = [], None, [], None
    rn, hn = "ref", "hyp"
    if rng.random() < .3:                   # names that might mean something else
        rn, hn = rng.sample(["-", "a b", "ref.gz", "hyp.bz2", "x.csv", "x.json", "%s", "--", "-h", "--help", "#x", "~", "*", "$HOME", "r,h", "@f", "n" * 200, "a:b", "null", "0", "stdin", "&0",
                             "x.txt ", " y", "data.bin", "@"], 2)
        c.count("odd_file_names")
    r, h = gen.write(d + "/" + rn, rt), gen.write(d + "/" + hn, ht)
    stdin = rng.random() < .4
    relative = rn != "ref" and rng.random() < .7
    args = [x.encode("latin-1") for x in ((["--", rn] if relative else [r]) if stdin else (["--", rn, hn] if relative else [r, h]))]
    p = common.run_tool(tool, args, stdin=ht.encode("latin-1") if stdin else b"q d 1 1 1 1 0.5\nq d\n" if kind == "icdar" else b"q d 0.5\nq\n", cwd=d)
    args = [x.decode("latin-1") for x in args]
    cmd = [tool] + args
    c.evals = 1
    c.hash = (kind, rt, ht, stdin)
    c.replay = evalrun.replay_of(args, ref=rt, hyp=ht)
    if bad_r is not None or bad_h is not None:
        c.count("malformed")
        c.nontrivial = (bad_r or bad_h) > 1
        if p.returncode != 1:
            c.bad("tool-status", evalrun.shown(cmd, p))
        if re.search(r"[gm](AP|NDCG)", p.stdout):
            c.bad("tool-metrics", evalrun.shown(cmd, p))
        line = bad_r if bad_r is not None else bad_h
        if not re.search(r"\bline\D{0,3}%d\b" % line, p.stderr) and str(line) not in re.findall(r"[0-9]+", p.stderr.replace(rn, "").replace(hn, "")):
            c.bad("tool-line", "line %d is malformed\n%s" % (line, evalrun.shown(cmd, p)))
        return c
    out = evalrun.check_ok(c, cmd, p)
    c.count("well_formed")
    c.nontrivial = len(refs) > 1 or len(hyps) > 1
    if out:
        want = model.evaluate(kind, refs, hyps, model.Opts())[0]
        evalrun.check_values(c, out, want, cmd, p)
    return c


def probe(ctx, bins):
    """Known finding: a negative coordinate is read modulo 2^32."""
    if ctx.only_case is not None or ctx.only_part not in (None, "probe"):
        return
    r = gen.write(ctx.scratch + "/nr", "q d 0 0 10 10\nq d -5 0 10 10\n")
    h = gen.write(ctx.scratch + "/nh", "q d 0 0 10 10 0.5\n")
    p = common.run_tool(bins[("icdar", "san")], [r, h])
    ctx.evals += 1
    if p.returncode == 0 and model.parse_stdout(p.stdout):
        ctx.known_hits.append(("negative-coordinate", p.stdout))
    elif p.returncode != 1:
        ctx.violation("negative-probe", evalrun.shown(["tool", r, h], p), {"property": "C06", "probe": "negative-coordinate"})


def main(ctx):
    b = ctx.build([("C06", "san"), ("C06", "rel")])
    bins = evalrun.build_tools(ctx)
    ctx.cases(lib_case, ctx.n(120, 6000), "readers", ([b[("C06", "san")], b[("C06", "rel")]],))
    ctx.cases(tool_case, ctx.n(500, 15000), "tools", (bins,))
    probe(ctx, bins)
    return ctx.finish(2000, 100)
