"""Checks of the properties of the utility layer: string helpers, locations, errors, results, versions, overloads."""
import itertools
import json
import re
import urllib.parse

import build
from harness import Crash

ALL = [bytes([c]) for c in range(256)]


def small(driver):
    return build.build_small(driver.split(".")[0], driver)


def grouped(ctx, exe, op, items, oracle, per=64, outs=1, case_timeout=30):
    """items: tuples of fields. oracle(item, outputs) -> None or a complaint. outs: outputs per item."""
    items = list(items)
    groups = [items[i:i + per] for i in range(0, len(items), per)]
    res = ctx.run(exe, [[op] + [f for it in g for f in it] for g in groups], case_timeout=case_timeout)
    for g, r in zip(groups, res):
        if r is None:
            continue
        if isinstance(r, Crash) and len(ctx.viol) > 3:
            ctx.violation("%s on a group: %r" % (op, r), {"op": op, "input": g})
            continue
        if isinstance(r, Crash):
            single = ctx.run(exe, [[op] + list(it) for it in g], case_timeout=10)
            hit = False
            for it, s in zip(g, single):
                if isinstance(s, Crash):
                    hit = True
                    ctx.violation("%s on %r: %r" % (op, it, s), {"op": op, "input": it})
            if not hit:
                ctx.violation("%s on a group: %r" % (op, r), {"op": op, "input": g})
            continue
        if len(r) != outs * len(g):
            ctx.violation("%s: %d outputs for %d inputs" % (op, len(r), len(g)), {"op": op, "input": g})
            continue
        for k, it in enumerate(g):
            o = r[k * outs:(k + 1) * outs]
            ctx.seen(b"\0".join(x if isinstance(x, bytes) else str(x).encode("utf-8", "replace") for x in it))
            why = oracle(it, o)
            if why:
                ctx.violation("%s%r: %s" % (op, it, why), {"op": op, "input": it, "output": o})


def rand_bytes(rng, maxlen=40, alphabet=None):
    n = rng.choice([0, 1, 2, 3, 7, 8, 14, 15, 16, 17, 22, 23, 24, 31, 32, 33, rng.randrange(maxlen + 1)])
    if alphabet:
        return b"".join(rng.choice(alphabet) for _ in range(n))
    return bytes(rng.randrange(256) for _ in range(n))


SPECIAL = ([bytes([c]) for c in range(0x20)] + [b'"', b"\\", b"/", b"\x7f", b"\x80", b"\xff", b"'", b"%", b"u", b" "] +
           ["é".encode(), "€".encode(), "𝄞".encode(), "İ".encode(), "ß".encode(), "\u2028".encode(), "\ufeff".encode(),
            "\ud7ff".encode(), "\ue000".encode(), "\U0010ffff".encode()])


def utf8_text(rng, maxlen=30, nul=True):
    out = []
    for _ in range(rng.choice([0, 1, 2, 5, rng.randrange(maxlen + 1)])):
        k = rng.randrange(8)
        if k < 3:
            out.append(chr(rng.randrange(0x20, 0x7f)))
        elif k == 3:
            out.append(chr(rng.randrange(0 if nul else 1, 0x20)))
        elif k == 4:
            out.append(rng.choice('"\\/{}%:,[]'))
        elif k == 5:
            out.append(chr(rng.randrange(0x80, 0x800)))
        elif k == 6:
            out.append(chr(rng.choice([rng.randrange(0x800, 0xd800), rng.randrange(0xe000, 0x10000)])))
        else:
            out.append(chr(rng.randrange(0x10000, 0x110000)))
    return "".join(out)


FRAGMENTS = [b"%41", b"%2F", b"%2f", b"%25", b"%zz", b"%", b"%u0041", b"%00", b"\\u0041", b"\\u00e9", b"\\n", b"\\\\", b"\\\"", b"\\/", b"</script>", b"<!--", b"&amp;", b"&#65;", b"\r\n", b"\n", b"\0",
             b"\x1b[0m", b"C:\\dir\\f", b"file:///", b"http://a.b/?q=1&r=2#x", b"..", b"//", b"~/", b"a", b"Z", b"0", b" ", b"+", b"-", b"_", b"\"", b"'", b"{}", b"{0}", b"%s", b"%d", b"$x", b"true", b"null", b"1e5",
             "\u00e9".encode(), "e\u0301".encode(), "\u20ac".encode(), "\U0001f600".encode(), b"\xef\xbb\xbf", b"\xed\xa0\x80", b"\xc0\x80", b"\x7f", b"\xf4\x90\x80\x80", b"aaaa", b"    ", b"\t", b"\xff" * 3, b"=" * 8]


def corpus(ctx, quick_random, thorough_random):
    """All bytes, all pairs, special strings, random ones, long ones."""
    yield b""
    yield from ALL
    for a in range(256):
        for b in range(256):
            yield bytes([a, b])
    for s in SPECIAL:
        for t in SPECIAL:
            yield s + t
            yield b"x" + s + b"-" + t
    for f in FRAGMENTS:
        for g in FRAGMENTS:
            yield f + g
    for _ in range(ctx.n(quick_random // 2, thorough_random // 2)):
        yield b"".join(ctx.rng.choice(FRAGMENTS) for _ in range(ctx.rng.randrange(1, 8)))
    for f in FRAGMENTS + [b"\x01", b"\x80", b"\\"]:      # at every place of texts of every length
        for n in ctx.rng.sample(range(1, 300), 6) + [7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256]:
            k = ctx.rng.choice([0, n, n - 1, n // 2, ctx.rng.randrange(n)])
            yield b"x" * k + f + b"y" * (n - k)
    for n in (1023, 1024, 2047, 2048, 16383, 32767, 32768, 65535, 65536, 131072, 1 << 20):
        yield b"a" * n
        yield b"a" * (n - 1) + b"\"" + b"b"
        yield b"%" * n if n < 70000 else b"%a" + b"c" * n
    for n in (15, 16, 17, 63, 64, 255, 256, 1000, 4095, 4096, 70000):
        yield bytes(ctx.rng.randrange(256) for _ in range(n))
        yield b'"' * n
        yield b"a" * n
        yield b"Z" * (n - 1) + b"\x80"
    for _ in range(ctx.n(quick_random, thorough_random)):
        yield rand_bytes(ctx.rng, 60)
        yield utf8_text(ctx.rng).encode()


# ------------------------------------------------------------------------------------------------ strict JSON
class BadJson(Exception):
    pass


def strict_json(data):
    """A decoder written for this check: bytes -> value; objects become lists of (key, value) pairs in order."""
    try:
        s = data.decode("utf-8", "strict")
    except UnicodeDecodeError as e:
        raise BadJson("not UTF-8: %s" % e)
    pos = 0

    def ws():
        nonlocal pos
        while pos < len(s) and s[pos] in " \t\r\n":
            pos += 1

    def string():
        nonlocal pos
        if s[pos:pos + 1] != '"':
            raise BadJson("string expected at %d" % pos)
        pos += 1
        units = []
        while True:
            if pos >= len(s):
                raise BadJson("unterminated string")
            c = s[pos]
            if c == '"':
                pos += 1
                break
            if ord(c) < 0x20:
                raise BadJson("control character U+%04X in a string" % ord(c))
            if c == "\\":
                e = s[pos + 1:pos + 2]
                if e in '"\\/':
                    units.append(e)
                    pos += 2
                elif e and e in "bfnrt":
                    units.append({"b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}[e])
                    pos += 2
                elif e == "u" and re.fullmatch("[0-9a-fA-F]{4}", s[pos + 2:pos + 6]):
                    units.append(chr(int(s[pos + 2:pos + 6], 16)))
                    pos += 6
                else:
                    raise BadJson("bad escape at %d" % pos)
            else:
                units.append(c)
                pos += 1
        t = "".join(units)
        try:
            return t.encode("utf-16", "surrogatepass").decode("utf-16")
        except UnicodeDecodeError:
            raise BadJson("lone surrogate in a string")

    def value(depth):
        nonlocal pos
        if depth > 6000:
            raise BadJson("too deep for this decoder")
        ws()
        c = s[pos:pos + 1]
        if c == "{":
            pos += 1
            out = []
            ws()
            if s[pos:pos + 1] == "}":
                pos += 1
                return Obj(out)
            while True:
                ws()
                k = string()
                ws()
                if s[pos:pos + 1] != ":":
                    raise BadJson("colon expected at %d" % pos)
                pos += 1
                out.append((k, value(depth + 1)))
                ws()
                d = s[pos:pos + 1]
                pos += 1
                if d == "}":
                    return Obj(out)
                if d != ",":
                    raise BadJson("comma expected at %d" % (pos - 1))
        if c == "[":
            pos += 1
            out = []
            ws()
            if s[pos:pos + 1] == "]":
                pos += 1
                return out
            while True:
                out.append(value(depth + 1))
                ws()
                d = s[pos:pos + 1]
                pos += 1
                if d == "]":
                    return out
                if d != ",":
                    raise BadJson("comma expected at %d" % (pos - 1))
        if c == '"':
            return string()
        m = re.compile(r"-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][+-]?[0-9]+)?").match(s, pos)
        if m:
            pos = m.end()
            return float(m.group(0)) if m.group(2) or m.group(3) else int(m.group(0))
        for w, v in (("true", True), ("false", False), ("null", None)):
            if s.startswith(w, pos):
                pos += len(w)
                return v
        raise BadJson("value expected at %d" % pos)

    v = value(0)
    ws()
    if pos != len(s):
        raise BadJson("trailing characters at %d" % pos)
    return v


class Obj(list):
    """An object as its list of pairs."""

    def keys(self):
        return [k for k, _ in self]

    def get(self, k):
        vs = [v for x, v in self if x == k]
        return vs[0] if len(vs) == 1 else None


# ------------------------------------------------------------------------------------------------ U
def u01(ctx):
    exe = small("util.cpp")
    ctx.rule = ("all bytes, all byte pairs, combinations of special characters, random byte strings and random UTF-8 "
                "texts; the output is compared byte by byte and, for UTF-8 inputs, decoded with a strict decoder; "
                "distinct inputs are counted")

    def oracle(it, o):
        s, got = it[0], o[0]
        i = 0
        for c in s:
            if c < 0x20 or c in (0x22, 0x5c):
                e = got[i:i + 6]
                if e.upper() != b"\\U%04X" % c or e[1:2] != b"u":
                    return "byte %02x is written as %r" % (c, e)
                i += 6
            else:
                if got[i:i + 1] != bytes([c]):
                    return "byte %02x is written as %r" % (c, got[i:i + 8])
                i += 1
        if i != len(got):
            return "the output goes on with %r" % got[i:i + 20]
        try:
            t = s.decode("utf-8")
        except UnicodeDecodeError:
            return None
        try:
            back = strict_json(b'"' + got + b'"')
        except BadJson as e:
            return "invalid JSON: %s" % e
        return None if back == t else "decodes to %r" % back

    items = [(s,) for s in corpus(ctx, 6000, 200000)]
    ctx.sample([repr(i[0]) for i in items[-3:]])
    grouped(ctx, exe, "json", items, oracle)


UNRESERVED = set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.~")


def u02(ctx):
    exe = small("util.cpp")
    ctx.rule = "all bytes, all byte pairs, random strings; output compared with RFC 3986 and decoded; distinct inputs"

    def oracle(it, o):
        s, got = it[0], o[0]
        want = b"".join(bytes([c]) if c in UNRESERVED else b"%%%02X" % c for c in s)
        if got != want:
            return "gives %r, expected %r" % (got[:80], want[:80])
        if urllib.parse.unquote_to_bytes(got) != s:
            return "does not decode to the input"

    items = [(s,) for s in corpus(ctx, 6000, 200000)]
    ctx.sample([repr(i[0]) for i in items[-3:]])
    grouped(ctx, exe, "url", items, oracle)


def low(s):
    return bytes(c + 32 if 65 <= c <= 90 else c for c in s)


def u03(ctx):
    exe = small("util.cpp")
    ctx.rule = ("lower-casing over all bytes, pairs and random strings; comparison over all pairs of bytes, and over "
                "random strings against case variants, one-byte edits, prefixes and extensions; distinct inputs")
    grouped(ctx, exe, "lower", [(s,) for s in corpus(ctx, 5000, 100000)],
            lambda it, o: None if o[0] == low(it[0]) else "gives %r" % o[0][:80])
    pairs = [(a, b) for a in ALL for b in ALL]
    pairs += [(a + x, b + y) for a in (b"", b"a", b"\0", b"A\0") for b in (b"", b"A", b"\0", b"a\0")
              for x in (b"", b"b", b"B", b"\0", b"\xc0") for y in (b"", b"b", b"B", b"\0", b"\xe0")]
    words = [b"CNOT", b"measure", b"Pi", b"X90", b"\xc3\x89tat", b"@[`{", b"I\xc4\xb0i"]
    for _ in range(ctx.n(20000, 400000)):
        a = ctx.rng.choice([rand_bytes(ctx.rng, 30), ctx.rng.choice(words),
                            rand_bytes(ctx.rng, 30, [b"a", b"A", b"z", b"Z", b"@", b"[", b"`", b"{", b"\0"])])
        b = bytearray(a)
        for _ in range(ctx.rng.choice([0, 1, 1, 2, 5])):
            k = ctx.rng.randrange(6)
            if b and k < 3:
                i = ctx.rng.randrange(len(b))
                b[i] ^= ctx.rng.choice([32, 32, 32, 1, 64, 128])
            elif k == 3:
                b += rand_bytes(ctx.rng, 3)
            elif b and k == 4:
                del b[-1]
            elif k == 5:
                b = bytearray(bytes(b).swapcase())
        pairs.append((a, bytes(b)))
        pairs.append((bytes(b), a))
    for n in list(range(1, 70)) + [127, 128, 129, 255, 256, 257, 511, 512, 1000, 4096, 65536]:
        a = bytearray(ctx.rng.choice(b"aAzZ@[`{0_\xc9\xe9") for _ in range(n))
        for k in {0, n - 1, n // 2, ctx.rng.randrange(n), ctx.rng.randrange(n)} if n < 999 else {0, n - 1}:
            for x in (32, 1, 128, 0) if n < 999 else (32, 1):
                b = bytearray(bytes(a).swapcase() if ctx.rng.random() < 0.5 else a)
                b[k] ^= x
                pairs.append((bytes(a), bytes(b)))
        for m in (1, 2, 8, 256, 65536) if n < 3 or n == 65536 else (1, 256):
            pairs.append((bytes(a), bytes(a) + b"a" * m))
            pairs.append((b"a" * m, b""))
            pairs.append((b"a" * (n + m), b"A" * n))
    equal = sum(low(a) == low(b) for a, b in pairs)
    ctx.extra["pairs_equal"], ctx.extra["pairs_different"] = equal, len(pairs) - equal
    ctx.sample([repr(p) for p in pairs[-4:]])
    grouped(ctx, exe, "eqci", pairs,
            lambda it, o: None if (o[0] == b"1") == (low(it[0]) == low(it[1])) else "gives %r" % o[0])


def u04(ctx):
    exe = small("util.cpp")
    ctx.rule = ("all texts of up to six characters over quote, double quote, newline, NUL, letter; random texts; "
                "distinct texts")
    texts = [b"".join(t) for n in range(7) for t in itertools.product([b"'", b'"', b"\n", b"\0", b"a"], repeat=n)]
    texts += list(corpus(ctx, 4000, 100000))[:ctx.n(20000, 10**9)]
    texts += [rand_bytes(ctx.rng, 60) for _ in range(2000)]
    texts += [b"x" * n for n in (9, 10, 12, 15, 16, 31, 100, 5000, 1 << 20)]
    ctx.sample([repr(t) for t in texts[-12:-8]])
    grouped(ctx, exe, "rtq", [(b"'''" + t + b"'''",) for t in texts],
            lambda it, o: None if o[0] == it[0][3:-3] else "gives %r" % o[0][:80])


ESC = {b"\\t": b"\t", b"\\n": b"\n", b"\\r": b"\r", b"\\'": b"'", b'\\"': b'"', b"\\\\": b"\\"}


def u05(ctx):
    exe = small("errs.cpp")
    ctx.rule = "every escape of one and two bytes, then random histories of pushes; distinct histories"
    esc = FRAGMENTS + ALL + [b"\\" + c for c in ALL] + [b"", b"\\\\t", b"\\tt", b"\\t\0", b"\\x41", b"\\u0041", b"t\\"]
    if not ctx.quick:
        esc += [a + b for a in ALL for b in ALL]
    reqs, want = [], []
    for e in esc:
        reqs.append(["builder", "e", e])
        reqs.append(["builder", "s", e])
        want += [ESC.get(e, e), e]
        reqs.append(["builder", "s", b"a\\", "e", e, "s", b"n"])
        want.append(b"a\\" + ESC.get(e, e) + b"n")
    for _ in range(ctx.n(4000, 60000)):
        r, w = ["builder"], b""
        for _ in range(ctx.rng.randrange(12) if ctx.rng.random() < 0.98 else ctx.rng.choice([40, 300, 1100])):
            if ctx.rng.random() < .5:
                t = ctx.rng.choice([rand_bytes(ctx.rng, 50), ctx.rng.choice(list(ESC)), b"", b"\\", ctx.rng.choice(FRAGMENTS)])
                if ctx.rng.random() < 0.004:
                    t *= 9000
                r += ["s", t]
                w += t
            else:
                t = ctx.rng.choice(list(ESC) * 3 + esc + FRAGMENTS)
                r += ["e", t]
                w += ESC.get(t, t)
        reqs.append(r)
        want.append(w)
    ctx.sample(repr(reqs[-1]))
    for r, w, o in zip(reqs, want, ctx.run(exe, reqs)):
        if o is None:
            continue
        ctx.seen(repr(r), len(r) > 1)
        if isinstance(o, Crash) or o != [w]:
            ctx.violation("string builder %r gives %r, expected %r" % (r[1:], o, w), {"pushes": r, "expected": w})


# ------------------------------------------------------------------------------------------------ A
EDGE = [0, 1, 2, 9, 10, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1]
SMALL = [0, 1, 2, 10, 2**32 - 1]


def rnd(rng):
    return rng.choice([rng.choice(EDGE), rng.randrange(5), rng.randrange(100), rng.randrange(2**32)])


def norm(q):
    f, l = (q[0], q[1]), (q[2], q[3])
    return f, max(f, l)


def fmt4(r):
    return ("%d %d %d %d" % (r[0] + r[1])).encode()


FILES = [None, "", "a", "b", "A", "dir/f.cq", "a b", "é.cq", "x" * 100, "aa", "a\0", "a\0b", "x" * 99 + "y", "x" * 255, "x" * 256, "dir//f.cq", "./a", "a ", "e\u0301.cq", "a.cq", "a.CQ", "\\a",
         "<unknown file name>", "<unknown>", "0", "-", "+", "%41", "x" * 4095, "C:\\a", "{}", "\u20ac\U0001f600", "a:1", "a:1:2..3", "..", "\n"]
# every character as a file name, and first, last and in the middle of one
FILE_CHARS = [f % c for c in map(chr, list(range(1, 128)) + [0xa0, 0xe9, 0xff, 0x2028, 0xfeff, 0x10ffff]) for f in ("%s", "a%s", "%sa", "ab%scd", "%s%%s" % c.replace("%", "%%"))]


def optf(f):
    return b"-" if f is None else b"+" + f.encode()


def normf(f):
    return f or None


def six(a, b, eq=None):
    eq = (a == b) if eq is None else eq
    return "".join("01"[x] for x in (eq, not eq, a < b, a <= b, a > b, a >= b))


def a01(ctx):
    exe = small("util.cpp")
    ctx.rule = ("ranges over a grid of boundary values (all four coordinates) and at random; all six operators on "
                "positions, ranges and located ranges with and without file names; distinct inputs")
    grid = list(itertools.product(SMALL, repeat=4))
    q = grid + [tuple(rnd(ctx.rng) for _ in range(4)) for _ in range(ctx.n(20000, 500000))]
    q += [(a, b, a + d, b + e) for a in (5, 10) for b in (5, 10) for d in (-1, 0, 1) for e in (-1, 0, 1)]
    grouped(ctx, exe, "range", q, lambda it, o: None if o == [fmt4(norm(it))] * 2 else
            "gives %r, expected %r" % (o, fmt4(norm(it))), outs=2)
    items = []
    base = list(itertools.product([0, 1, 2**32 - 1], repeat=4))
    for a in base:
        for b in ctx.rng.sample(base, 20 if ctx.quick else len(base)) + [a]:
            items.append((None, a, None, b))
    for _ in range(ctx.n(20000, 500000)):
        a = tuple(rnd(ctx.rng) for _ in range(4))
        b = list(a)
        for _ in range(ctx.rng.randrange(3)):
            i = ctx.rng.randrange(4)
            b[i] = ctx.rng.choice([rnd(ctx.rng), max(0, b[i] - 1), min(2**32 - 1, b[i] + 1)])
        f = ctx.rng.choice(FILES)
        g = ctx.rng.choice([f, ctx.rng.choice(FILES)])
        items.append((f, a, g, tuple(b)))
    flat = [(optf(f),) + a + (optf(g),) + b for f, a, g, b in items]
    table = dict(zip(flat, items))

    def oracle(it, o):
        f, a, g, b = table[it]
        x, y = norm(a), norm(b)
        w = six(x[0], y[0]) + six(x[1], y[1]) + six(x, y) + six(x, y, x == y and normf(f) == normf(g))
        if o[0].decode() != w:
            return "operators give %s, expected %s (== != < <= > >=, for first, last, range, location)" % (
                o[0].decode(), w)
        if o[1] != optf(normf(f)):
            return "file name %r" % o[1]

    ctx.sample([repr(x) for x in items[-3:]])
    grouped(ctx, exe, "cmp", flat, oracle, outs=2)


def a02(ctx):
    exe = small("util.cpp")
    ctx.rule = ("one expansion from and to every point of a boundary grid, and random sequences of expansions with a "
                "permutation and a repetition of each; distinct histories")
    reqs, want = [], []

    def add(f, q, ps):
        r = norm(q)
        w = [fmt4(r)]
        for p in ps:
            r = (min(r[0], p), max(r[1], p))
            w.append(fmt4(r))
        w.append(optf(normf(f)))
        reqs.append(["expand", optf(f)] + list(q) + [x for p in ps for x in p])
        want.append(w)

    pts = [(a, b) for a in (0, 1, 2**32 - 1) for b in (0, 1, 5, 2**32 - 1)]
    for a in pts:
        for b in pts:
            if b >= a:
                for p in pts:
                    add(None, a + b, [p])
    for _ in range(ctx.n(6000, 150000)):
        near = ctx.rng.random() < .6
        gen = (lambda: (ctx.rng.randrange(4), ctx.rng.randrange(6))) if near else (lambda: (rnd(ctx.rng), rnd(ctx.rng)))
        q = gen() + gen()
        ps = [gen() for _ in range(ctx.rng.randrange(6) if ctx.rng.random() < 0.97 else ctx.rng.choice([16, 40, 260]))]
        f = ctx.rng.choice(FILES)
        add(f, q, ps)
        sh = ps + ps[:2]
        ctx.rng.shuffle(sh)
        add(f, q, sh)
    ctx.sample(repr(reqs[-1]))
    for r, w, o in zip(reqs, want, ctx.run(exe, reqs)):
        if o is None:
            continue
        ctx.seen(repr(r))
        if isinstance(o, Crash) or o != w:
            ctx.violation("expanding %r gives %r, expected %r" % (r[1:], o, w), {"history": r, "expected": w})


def show_loc(f, r):
    (l1, c1), (l2, c2) = r
    s = normf(f) or "<unknown file name>"
    if not l1:
        return s
    s += ":%d" % l1
    if not c1:
        return s + ("..%d" % l2 if l2 > l1 else "")
    s += ":%d" % c1
    if l1 == l2:
        return s + ("..%d" % c2 if c2 > c1 else "")
    return s + "..%d:%d" % (l2, c2)


def a03(ctx):
    exe = small("util.cpp")
    ctx.rule = "all ranges over a boundary grid, without and with file name, and random ones; distinct locations"
    items = []
    for q in itertools.product(SMALL, repeat=4):
        for f in (None, "", "input.cq"):
            items.append((optf(f),) + q)
    for _ in range(ctx.n(15000, 300000)):
        a = (rnd(ctx.rng), rnd(ctx.rng))
        b = ctx.rng.choice([(a[0], rnd(ctx.rng)), (a[0] + 1 if a[0] < 2**32 - 1 else a[0], rnd(ctx.rng)),
                            (rnd(ctx.rng), rnd(ctx.rng)), a])
        items.append((optf(ctx.rng.choice(FILES + ["a:1:2", "..", "f\n", "<unknown file name>"])),) + a + b)
    for f in FILE_CHARS:
        for q in ((0, 0, 0, 0), (4, 0, 4, 0), (4, 0, 9, 0), (4, 3, 4, 3), (4, 3, 4, 8), (4, 3, 6, 1)):
            items.append((optf(f),) + q)

    def oracle(it, o):
        f = None if it[0] == b"-" else it[0][1:].decode()
        w = show_loc(f, norm(it[1:])).encode()
        if o[0] != w or o[1] != w:
            return "prints %r, expected %r" % (o, w)

    ctx.sample([repr(x) for x in items[-3:]])
    grouped(ctx, exe, "print", items, oracle, outs=2)
    r = ctx.run(exe, [["default"]])[0]
    ctx.seen("default")
    if isinstance(r, Crash) or r != [b"0 0 0 0", b"-", b"<unknown file name>"]:
        ctx.violation("a default location is %r" % r, {"op": "default"})


# ------------------------------------------------------------------------------------------------ V
def v01(ctx):
    exe = small("errs.cpp")
    ctx.rule = ("all strings up to five characters over '0', '3', '.', '-', 'a' inside the statement; random versions "
                "and one-character edits; printing of random component lists; distinct strings")
    M = 2**31 - 1
    strings = set()
    for n in range(6 if ctx.quick else 8):
        for t in itertools.product("03.-a", repeat=n):
            strings.add("".join(t))
    for _ in range(ctx.n(6000, 100000)):
        k = ctx.rng.choice([1, 1, 2, 2, 3, 4, 9, 40])
        comps = [ctx.rng.choice([0, 1, 3, 9, 10, M, M - 1, ctx.rng.randrange(M), ctx.rng.randrange(100)])
                 for _ in range(k)]
        txt = [ctx.rng.choice(["", "", "", "0", "000"]) + str(c) for c in comps]
        s = ".".join(txt)
        strings.add(s)
        i = ctx.rng.randrange(len(s) + 1)
        strings.add(s[:i] + ctx.rng.choice(["", ".", "..", "-", "x", "\0", "é", "0", ".x."]) + s[i:])
        strings.add(ctx.rng.choice(["." + s, s + ".", s.replace(".", "..", 1), s + ".-1", "-" + s, s + ".x", "v" + s]))
    strings |= {str(2**31), str(2**32), str(2**63), str(2**64), "3." + str(2**32 + 1), "9" * 400, "3.0." + "1." * 500 + "1"}

    def expect(s):
        if s == "":
            return []
        out = []
        for c in s.split("."):
            if re.fullmatch("[0-9]+", c):
                out.append(int(c))
            elif c == "" or re.match("-0*[1-9]", c) or re.match("[^0-9+\\s-]", c) or re.match(r"-([^0-9]|$)", c):
                return "rejected"
            else:
                return None     # outside the statement
        if any(c > M for c in out):
            return "big"
        return out

    def oracle(it, o):
        w, got = expect(it[0]), o[0].decode("utf-8", "replace")
        if w == "rejected":
            return None if got == "rejected" else "is accepted: %s" % got
        want = "|".join(["ok" + "".join(" %d" % c for c in vals)] + [".".join(map(str, vals))] * 2) \
            if (vals := (w if isinstance(w, list) else [int(c) for c in it[0].split(".")])) is not None else ""
        if w == "big" and got == "rejected":
            return None
        return None if got == want else "gives %s, expected %s" % (got[:200], want[:200])

    items = [(s,) for s in sorted(strings) if expect(s) is not None]
    cls = [expect(i[0]) for i in items]
    ctx.extra["strings_rejected"] = sum(c == "rejected" for c in cls)
    ctx.extra["strings_accepted"] = sum(isinstance(c, list) for c in cls)
    ctx.sample([i[0] for i in items[500::len(items) // 5]])
    grouped(ctx, exe, "version", items, oracle)
    lists = [tuple(ctx.rng.choice([0, 1, 10, 2**31, 2**63 - 1, ctx.rng.randrange(2**40)])
                   for _ in range(ctx.rng.randrange(7))) for _ in range(2000)]
    grouped(ctx, exe, "vprint", [(" ".join(map(str, l)),) for l in lists],
            lambda it, o: None if o == [it[0].replace(" ", ".").encode()] * 2 else "prints %r" % o, outs=2)


def v02(ctx):
    exe = small("errs.cpp")
    ctx.rule = ("all pairs of versions of up to three components from {0, 1, 2, 10} and of two from boundary values, "
                "and random pairs that differ in few places; distinct pairs")
    vs = [v for n in range(4) for v in itertools.product([0, 1, 2, 10], repeat=n)]
    pairs = [(a, b) for a in vs for b in vs]
    B = [0, 1, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**62, 2**63 - 1]
    ws = [v for n in range(3) for v in itertools.product(B, repeat=n)]
    pairs += [(a, b) for a in ws for b in ws]
    for _ in range(ctx.n(20000, 400000)):
        a = [ctx.rng.choice(B + [3, 3, 3, 9, ctx.rng.randrange(2**63)]) for _ in range(ctx.rng.randrange(8) if ctx.rng.random() < 0.95 else ctx.rng.choice([15, 16, 17, 33, 64, 257]))]
        b = list(a)
        for _ in range(ctx.rng.randrange(3)):
            k = ctx.rng.randrange(3)
            if b and k == 0:
                b[ctx.rng.randrange(len(b))] = ctx.rng.choice(B)
            elif k == 1:
                b.append(ctx.rng.choice([0, 0, 0, 1]))
            elif b:
                b.pop()
        pairs.append((tuple(a), tuple(b)))
        pairs.append((tuple(b), tuple(a)))

    def key(v):
        v = list(v)
        while v and v[-1] == 0:
            v.pop()
        return v

    table = {}
    items = []
    for a, b in pairs:
        it = (" ".join(map(str, a)), " ".join(map(str, b)))
        table[it] = (key(a), key(b))
        items.append(it)

    def oracle(it, o):
        a, b = table[it]
        w = six(a, b) + ("<" if a < b else ">" if a > b else "=")
        return None if o[0].decode() == w else "operators give %s, expected %s (== != < <= > >= <=>)" % (
            o[0].decode(), w)

    ctx.sample(items[-3:])
    grouped(ctx, exe, "vcmp", items, oracle)


# ------------------------------------------------------------------------------------------------ E, R
UNKNOWN = "<unknown error message>"


def rand_loc(rng):
    f = rng.choice([f for f in FILES if not f or "\0" not in f] + ["<unknown>", "a%b", 'q"uote.cq', "back\\slash", "/abs/é€.cq"])
    if rng.random() < 0.25:
        f = rng.choice(FILE_CHARS)
    q = (rng.choice(EDGE[:5] + [rnd(rng)]), rng.choice(EDGE[:5] + [rnd(rng)]))
    e = rng.choice([q, (q[0], rnd(rng)), (rnd(rng), rnd(rng))])
    return f, q + e


def loc_fields(l):
    return [optf(l[0])] + list(l[1])


def what_of(msg, loc):
    return "Error%s: %s" % (" at " + show_loc(loc[0], norm(loc[1])) if loc else "", msg or UNKNOWN)


MESSAGES = [f.decode() for f in FRAGMENTS if b"\0" not in f and f.decode("utf-8", "replace").encode() == f]
MESSAGES += ["<unknown error message>", "<unknown>", " ", "\n", "Error", "Error at <unknown file name>: x", "Error at f:1:2: x", "m" * 255, "m" * 256, "m" * 4096, "m" * 70000, "at", ": ", "Error: ", "tab\tx ", " x"]


def e01(ctx):
    exe = small("errs.cpp")
    ctx.rule = ("random histories over several errors and nodes: construct in every way, attach contexts, change, "
                "expand or destroy nodes, copy, move, assign, throw, read; every read is compared with a reference "
                "model; histories that attach at least one location are non-trivial")
    reqs, wants = [], []
    for _ in range(ctx.n(8000, 120000)):
        rng = ctx.rng
        r, w = ["error"], []
        errs, nodes = {}, {}
        attached = False
        for step in range(rng.randrange(3, 22) if rng.random() < 0.98 else 120):
            ops = ["node", "blank", "plain", "derived", "at_ptr", "at_null", "at_range"]
            if nodes:
                ops += ["at_node", "derived_at", "move_node", "expand_node", "drop_node"]
            if errs:
                ops += ["what"] * 4 + ["print", "fmt", "throw", "copy", "move", "json"]
                if nodes:
                    ops += ["context"] * 5 + ["rethrow"] * 2
                if len(errs) > 1:
                    ops += ["assign"]
            op = rng.choice(ops)
            en = lambda: rng.choice(["e1", "e2", "e3"])
            nn = lambda: rng.choice(["n1", "n2", "n3"])
            msg = rng.choice(["", "x", "failed to resolve 'q'", "a:b..c", "Error: nested", "%s {} {0}", "é\n", "m" * 50]) if rng.random() < 0.8 else rng.choice(MESSAGES)
            anode = lambda: rng.choice(sorted(nodes))
            anerr = lambda: rng.choice(sorted(errs))
            if op == "node":
                n, l = nn(), rand_loc(rng)
                nodes[n] = l
                r += ["node", n] + loc_fields(l)
            elif op == "blank":
                n = nn()
                nodes[n] = None
                r += ["blank", n]
            elif op == "move_node":
                n, l = anode(), rand_loc(rng)
                nodes[n] = l
                r += ["move_node", n] + loc_fields(l)
            elif op == "expand_node":
                n, p = anode(), (rnd(rng), rnd(rng))
                r += ["expand_node", n, p[0], p[1]]
                if nodes[n]:
                    f, q = nodes[n]
                    a, b = norm(q)
                    nodes[n] = (f, min(a, p) + max(b, p))
            elif op == "drop_node":
                n = anode()
                del nodes[n]
                r += ["drop_node", n]
            elif op in ("plain", "derived", "at_null"):
                e = en()
                errs[e] = [msg, None]
                r += [op, e, msg]
            elif op in ("at_node", "derived_at"):
                e, n = en(), anode()
                errs[e] = [msg, nodes[n]]
                attached |= bool(nodes[n])
                r += [op, e, msg, n]
            elif op in ("at_ptr", "at_range"):
                e, l = en(), rand_loc(rng)
                errs[e] = [msg, l]
                attached = True
                r += [op, e, msg] + loc_fields(l)
            elif op in ("context", "rethrow"):
                e, n = anerr(), anode()
                here = errs[e][1] or nodes[n]
                if op == "context":
                    errs[e][1] = here
                    attached |= bool(here)
                else:
                    w.append(what_of(errs[e][0], here))
                r += [op, e, n]
            elif op == "copy":
                a, b = en(), anerr()
                errs[a] = list(errs[b])
                r += ["copy", a, b]
            elif op == "assign":
                a, b = anerr(), anerr()
                errs[a] = list(errs[b])
                r += ["assign", a, b]
            elif op == "move":
                a, b = en(), anerr()
                x = errs.pop(b)
                errs[a] = x
                r += ["move", a, b]
            elif op == "json":
                e = anerr()
                r += ["json", e]
                w.append(None)
            else:
                e = anerr()
                r += [op, e]
                w.append(what_of(*errs[e]))
        for e in sorted(errs):
            r += ["what", e, "print", e, "what", e]
            w += [what_of(*errs[e])] * 3
        reqs.append(r)
        wants.append((w, attached))
    ctx.sample([str(x) for x in reqs[-1]][:40])
    for r, (w, att), o in zip(reqs, wants, ctx.run(exe, reqs)):
        if o is None:
            continue
        ctx.seen(repr(r), att)
        if isinstance(o, Crash):
            ctx.violation("history %r: %r" % (r, o), {"history": r})
            continue
        ctx.count("reads", len(w))
        for i, x in enumerate(w):
            if x is not None and (i >= len(o) or o[i] != x.encode()):
                ctx.violation("read %d of the history gives %r, expected %r" % (i, o[i:i + 1], x), {"history": r})
                break


def check_error_json(data, msg, loc):
    """Complaint, or None. data: bytes of the JSON form of an error; loc: (file, ((l,c),(l,c))) or None."""
    try:
        v = strict_json(data)
    except BadJson as e:
        return "invalid JSON (%s): %r" % (e, data[:300])
    return check_error_value(v, msg, loc)


def check_error_value(v, msg, loc):
    if not isinstance(v, Obj):
        return "not an object"
    f = normf(loc[0]) if loc else None
    if sorted(v.keys()) != sorted(["range", "message", "severity"] + (["relatedInformation"] if f else [])):
        return "has members %r" % v.keys()
    (a, b) = loc[1] if loc else ((0, 0), (0, 0))
    try:
        rg = v.get("range")
        got = ((rg.get("start").get("line"), rg.get("start").get("character")),
               (rg.get("end").get("line"), rg.get("end").get("character")))
    except AttributeError:
        return "has no proper range: %r" % v
    if got != (tuple(a), tuple(b)):
        return "range %r, expected %r" % (got, (a, b))
    if v.get("message") != (msg or UNKNOWN):
        return "message %r, expected %r" % (v.get("message"), msg or UNKNOWN)
    if v.get("severity") != 1 or v.get("severity") is True:
        return "severity %r" % v.get("severity")
    if f:
        try:
            (ri,) = v.get("relatedInformation")
            uri = ri.get("location").get("uri")
            rr = ri.get("location").get("range")
            if [(rr.get(x).get("line"), rr.get(x).get("character")) for x in ("start", "end")] != [(0, 0)] * 2:
                return "related range %r" % rr
            if not isinstance(ri.get("message"), str):
                return "related information without message"
        except (ValueError, AttributeError, TypeError):
            return "improper related information: %r" % v.get("relatedInformation")
        if not uri.startswith("file:///"):
            return "uri %r" % uri
        if not re.fullmatch(r"(?:[A-Za-z0-9\-._~/]|%[0-9A-Fa-f]{2})*", uri[8:]):
            return "the uri holds characters that must be escaped: %r" % uri
        if urllib.parse.unquote_to_bytes(uri[8:]) != f.encode():
            return "uri %r does not decode to %r" % (uri, f)
    return None


def e02(ctx):
    exe = small("errs.cpp")
    ctx.rule = ("errors with random UTF-8 messages and file names (all ASCII characters, control characters, quotes, "
                "multi-byte), random ranges, built in all ways; the JSON is decoded strictly; distinct errors")
    cases = []
    for c in [chr(i) for i in range(256)] + ["\u2028", "\ud7ff", "\U0010ffff", '"', '\\"', '"}', "{}", "{0}", "%"]:
        cases.append(("m" + c + "m", ("f" + c + "f", (1, 2, 3, 4))))
        cases.append((c, None))
    for a in MESSAGES:
        cases.append((a, ("f", (1, 2, 3, 4))))
        cases.append(("m", (a, (1, 2, 3, 4))))
        cases.append(("x" + a + a, None))
    for _ in range(ctx.n(6000, 100000)):
        msg = utf8_text(ctx.rng) if ctx.rng.random() < 0.7 else "".join(ctx.rng.sample(MESSAGES[:-16], 3)) if ctx.rng.random() < 0.9 else ctx.rng.choice(MESSAGES)
        f, q = rand_loc(ctx.rng)
        f = ctx.rng.choice([f, utf8_text(ctx.rng), None, "", "".join(ctx.rng.sample(MESSAGES[:-16], 3))])
        cases.append((msg, ctx.rng.choice([(f, q), (f, q), (f, q), None])))
    reqs = []
    for i, (m, l) in enumerate(cases):
        if l is None:
            reqs.append(["error", ["plain", "at_null", "derived"][i % 3], "e", m, "json", "e", "what", "e", "json", "e"])
        else:
            k = i % 4
            if k == 0:
                pre = ["at_range", "e", m] + loc_fields(l)
            elif k == 1:
                pre = ["at_ptr", "e", m] + loc_fields(l)
            elif k == 2:
                pre = ["node", "n"] + loc_fields(l) + ["at_node", "e", m, "n"]
            else:
                pre = ["node", "n"] + loc_fields(l) + ["plain", "x", m, "context", "x", "n", "copy", "e", "x"]
            reqs.append(["error"] + pre + ["json", "e", "what", "e", "json", "e"])
    ctx.sample([repr(c) for c in cases[-4:]])
    for (m, l), r, o in zip(cases, reqs, ctx.run(exe, reqs)):
        if o is None:
            continue
        ctx.seen(repr((m, l)))
        if isinstance(o, Crash):
            ctx.violation("JSON of %r: %r" % ((m, l), o), {"error": repr((m, l))})
            continue
        if o[0] != o[2]:
            ctx.violation("JSON changes between reads", {"error": repr((m, l)), "output": o})
        why = check_error_json(o[0], m, (l[0], norm(l[1])) if l else None)
        if why:
            ctx.violation("JSON of error %r: %s" % ((m, l), why), {"error": repr((m, l)), "json": o[0]})


def r01(ctx):
    exe = small("errs.cpp")
    ctx.rule = "results with a tree or with 1 to 12 random errors; distinct results; those with several errors non-trivial"
    cases = []
    for i in range(ctx.n(3000, 50000)):
        k = ctx.rng.choice([0, 1, 2, 3, ctx.rng.randrange(12), 300 if i % 500 == 0 else 5])
        errs = [(utf8_text(ctx.rng, nul=False), ctx.rng.choice([None, rand_loc(ctx.rng)])) for _ in range(k)]
        if k > 1 and ctx.rng.random() < .3:
            errs[1] = errs[0]
        # a result with errors has no root, or one left over; both count as a failure
        root = "+" + "".join(ctx.rng.choice("abc xyz") for _ in range(ctx.rng.randrange(40))) \
            if k == 0 or ctx.rng.random() < .3 else "-"
        cases.append((root, errs))
    reqs = []
    for root, errs in cases:
        r = ["result", root]
        for m, l in errs:
            r += [m] + (["none"] if l is None else loc_fields(l))
        reqs.append(r)
    ctx.sample(repr(cases[-1])[:600])
    for (root, errs), r, o in zip(cases, reqs, ctx.run(exe, reqs)):
        if o is None:
            continue
        ctx.seen(repr((root, errs)), len(errs) != 1)
        if isinstance(o, Crash):
            ctx.violation("result %r: %r" % ((root, errs), o), {"result": repr((root, errs))})
            continue
        js, n = o[0], int(o[1])
        strs = o[2:2 + n]
        rest = o[2 + n:]
        why = None
        if not errs:
            if n != 1 or strs[0] != rest[0]:
                why = "to_strings gives %r" % strs
            elif js != b'{"root":"' + root[1:].encode() + b'"}':
                why = "to_json gives %r" % js
        else:
            ws = [what_of(m, l).encode() for m, l in errs]
            if n != len(errs) + 1 or strs[0] != b"" or strs[1:] != ws:
                why = "to_strings gives %r" % strs
            else:
                try:
                    v = strict_json(js)
                    if not isinstance(v, Obj) or v.keys() != ["errors"] or not isinstance(v.get("errors"), list):
                        why = "to_json gives %r" % js[:300]
                    elif len(v.get("errors")) != len(errs):
                        why = "to_json lists %d errors of %d" % (len(v.get("errors")), len(errs))
                    else:
                        for x, (m, l) in zip(v.get("errors"), errs):
                            why = why or check_error_value(x, m, (l[0], norm(l[1])) if l else None)
                        own = [strict_json(rest[2 * i + 1]) for i in range(len(errs))]
                        if not why and own != list(v.get("errors")):
                            why = "to_json differs from the JSON of the errors"
                except BadJson as e:
                    why = "to_json is invalid: %s" % e
        if why:
            ctx.violation("result %r: %s" % ((root, errs), why), {"request": r})


# ------------------------------------------------------------------------------------------------ O
def o01(ctx):
    exe = small("ovl.cpp")
    ctx.rule = ("random histories of registrations, copies and calls over four types, with the promotion relation of "
                "the language or a random one; each call is compared with a reference resolver; histories with a call "
                "that has several applicable overloads are non-trivial")
    reqs, wants = [], []
    multi = 0
    # every pair of overloads of up to two parameters against every argument list, language promotions
    lang = [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2), (3, 3)]
    sigs = ["".join(map(str, s)) for n in range(3) for s in itertools.product(range(4), repeat=n)]

    def resolve(ovs, kinds, rel):
        hits = [(tag, sig) for tag, sig in ovs if len(sig) == len(kinds) and
                all((int(k), int(t)) in rel for k, t in zip(kinds, sig))]
        return hits

    def run_history(ops, rel):
        nonlocal multi
        r = ["".join("%d%d" % p for p in sorted(rel))]
        w = []
        tabs, plains = {}, {}
        nid = 1
        m = False
        for op in ops:
            r += list(op)
            if op[0] == "add":
                tabs.setdefault(op[1], {}).setdefault(op[2], []).append((op[3], op[4]))
            elif op[0] == "padd":
                plains.setdefault(op[1], []).append((op[2], op[3]))
            elif op[0] == "copy":
                tabs[op[1]] = {k: list(v) for k, v in tabs.get(op[2], {}).items()}
            else:
                kinds = op[3]
                ids = range(nid, nid + len(kinds))
                nid += len(kinds)
                if op[0] == "call" and op[2] not in tabs.get(op[1], {}):
                    w.append("name")
                    continue
                ovs = tabs[op[1]][op[2]] if op[0] == "call" else plains.get(op[1], [])
                hits = resolve(ovs, kinds, rel)
                m |= len(hits) > 1
                if not hits:
                    w.append("overload")
                else:
                    tag, sig = hits[-1]
                    w.append("ok " + tag + "".join(" %s:%d" % x for x in zip(sig, ids)))
        reqs.append(r)
        wants.append((w, m))
        multi += m

    for a in sigs:
        ops = []
        for j, b in enumerate(sigs):
            f = "f%d" % j
            ops += [("add", "r", f, "A", a), ("add", "r", f, "B", b)]
        for j, b in enumerate(sigs):
            for k in sigs if not ctx.quick else ctx.rng.sample(sigs, 8) + [a, b]:
                ops.append(("call", "r", "f%d" % j, k))
        run_history(ops, set(lang))
    names = ["f", "F", "g", "", "f ", "ff", "measure", "é"]
    for _ in range(ctx.n(5000, 80000)):
        rng = ctx.rng
        rel = set(lang) if rng.random() < .5 else {(a, b) for a in range(4) for b in range(4) if rng.random() < .5}
        ops = []
        nm = rng.sample(names, 2)
        tag = 0
        arity = rng.sample([0, 1, 1, 2, 2, 3, 6], 2) if rng.random() < 0.95 else [rng.choice([9, 16, 17, 40]), 1]
        for _ in range(rng.randrange(2, 30) if rng.random() < 0.98 else 400):
            sig = lambda: "".join(rng.choice("0123") for _ in range(rng.choice(arity)))
            k = rng.random()
            tag += 1
            if k < .35:
                ops.append(("add", rng.choice("rs"), rng.choice(nm), "t%d" % tag, sig()))
            elif k < .45:
                ops.append(("padd", "p", "t%d" % tag, sig()))
            elif k < .5:
                ops.append(("copy",) + tuple(rng.sample("rs", 2)))
            elif k < .6:
                ops.append(("pcall", "p", "-", sig()))
            else:
                ops.append(("call", rng.choice("rs"), rng.choice(nm + [rng.choice(names)]), sig()))
        run_history(ops, rel)
    ctx.sample([str(x) for x in reqs[-1]][:60])
    for r, (w, m), o in zip(reqs, wants, ctx.run(exe, reqs)):
        if o is None:
            continue
        ctx.seen(repr(r), m)
        if isinstance(o, Crash):
            ctx.violation("history %r: %r" % (r[:60], o), {"history": r})
            continue
        ctx.count("calls", len(w))
        got = [x.decode("utf-8", "replace") for x in o[:-2]]
        ctx.count("promotions_observed", int(o[-2]))
        if got != w:
            i = next((i for i, (a, b) in enumerate(zip(got, w)) if a != b), 0)
            ctx.violation("call %d gives %r, expected %r" % (i, got[i:i + 1], w[i:i + 1]), {"history": r})
        if o[-1] != b"tag/3 0 1 2;" * 5:
            ctx.violation("copies of an overload differ: %r" % o[-1], {"history": r})


CHECKS = {"U01": u01, "U02": u02, "U03": u03, "U04": u04, "U05": u05, "A01": a01, "A02": a02, "A03": a03,
          "V01": v01, "V02": v02, "E01": e01, "E02": e02, "R01": r01, "O01": o01}
