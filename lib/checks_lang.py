"""Checks of the parser: acceptance, trees, locations, literals, layout, syntax errors, raw text."""
import json
import re

import lang
from harness import Crash
from lang import show
from model import gen, semantics, syntax


# ------------------------------------------------------------------------------------------------------------ P01
def nested(rng, n):
    """Deeply nested or very long texts."""
    k = rng.randrange(12)
    if k == 0:
        e = "(" * n + "1" + ")" * n
    elif k == 1:
        e = "-" * n + "1"
    elif k == 2:
        e = "f(" * n + "1" + ")" * n
    elif k == 3:
        e = "+".join(["1"] * n)
    elif k == 4:
        e = "**".join(["1"] * n)
    elif k == 5:
        e = "1" + "?1:1" * n
    elif k == 6:
        e = "q[" * n + "0" + "]" * n
    elif k == 7:
        return "version 3;" + "inv." * n + "X q"
    elif k == 8:
        return "version 3;" + "ctrl.pow(2)." * n + "X q"
    elif k == 9:
        return "version 3" + ";\n" * n + "H " + "q," * n + "q"
    elif k == 10:
        return "version 3;" + "x" * (n * 50) + " " + "1" * (n * 20)
    else:
        return "/*" * n + "version 3" + "\n" * n + "//" * n
    if rng.random() < 0.3:
        e = e[:rng.randrange(len(e) + 1)]
    return "version 3;Rx(" + e + ")q"


def hostile(rng, n):
    corpus = [c.decode("utf-8", "surrogateescape") for c in lang.corpus()]
    for _ in range(n):
        k = rng.randrange(14)
        if k == 0:
            yield bytes(rng.randrange(256) for _ in range(rng.randrange(60)))
        elif k == 1:
            yield bytes(rng.choice(b" \t\n\r;:,.=[]()+-~!*/%<>&|^?'\"abqvx013_\x00\x7f\xc3\xa9\xff") for _ in range(rng.randrange(80)))
        elif k == 2:
            yield b"version 3" + bytes(rng.randrange(256) for _ in range(rng.randrange(30)))
        elif k in (3, 4):
            yield (rng.choice(["", "version 3.0\n", "version 3;"]) + lang.token_soup(rng, rng.randrange(30))).encode()
        elif k == 5:
            yield nested(rng, rng.choice([2, 5, 20, 60, 120])).encode()
        elif k == 6 and corpus:
            t = rng.choice(corpus)
            for _ in range(rng.randrange(4)):
                t = lang.mutate_text(rng, t)
            yield t.encode("utf-8", "surrogateescape")
        elif k == 7:
            t = next(lang.texts(rng, 1)).encode()
            i = rng.randrange(len(t) + 1)
            yield t[:i] + bytes([rng.randrange(256)]) + t[i + rng.randrange(2):]
        elif k in (8, 9):
            p = lang.mutate_tokens(rng, next(lang.programs(rng, 1)))
            yield gen.layout([s for s in p if s], rng).encode()
        elif k == 10:
            yield b"\xef\xbb\xbf" * rng.choice([1, 1, 2]) + next(lang.texts(rng, 1)).encode(rng.choice(["utf-8", "utf-16"]))
        else:
            t = next(lang.texts(rng, 1))
            for _ in range(rng.choice([0, 1, 1, 2, 5])):
                t = lang.mutate_text(rng, t)
            yield t.encode("utf-8", "surrogatepass")


def p01(ctx):
    drv = lang.exe()
    ctx.rule = ("texts: random bytes (valid UTF-8 or not), token soup, generated programs and the repository's examples with up to "
                "five edits, nesting up to 120; distinct texts whose result had a shape to judge (tree or errors)")
    seen = 0
    for file in (None, "f", lang.FILE, ""):
        texts = list(hostile(ctx.rng, ctx.n(900, 12000)))
        if file is None:
            texts += [b"", b"\x00", b"\n", b";", b"version", b"version ", b"version 3", b"version 3.", b"version 3.0.", b"\xff", b"'''",
                      b"version 3;asm(x)'''", b"version 3;/*", b"\xef\xbb\xbf", b"\xef\xbb", b"version 3\n\xed\xa0\x80"]
        for t, o in zip(texts, lang.parse(ctx, drv, texts, file)):
            if o is None:
                continue
            ctx.seen(t)
            bad = None
            if o.status == "ok":
                ctx.count("trees")
                root = lang.load(o.ast)
                if o.errors:
                    bad = "a tree and errors"
                elif not root or root.get("@") != "Program":
                    bad = "neither tree nor errors"
                else:
                    bad = incomplete(root)
            else:
                ctx.count("rejections")
                if lang.load(o.ast) is not None:
                    bad = "errors and a tree"
                elif any(not e.message or not e.what for e in o.errors):
                    bad = "an error without message"
            if bad:
                ctx.violation("parsing gave %s" % bad, {"text": show(t), "file": file})
            seen += 1
    ctx.sample("%d texts judged" % seen)


REQUIRED = {"Program": ["version", "block"], "Variable": ["name", "typ"], "GateInstruction": ["gate", "operands"], "Gate": ["name", "parameters"],
            "NonGateInstruction": ["name", "operands", "parameters"], "AsmDeclaration": ["backend_name"], "IndexItem": ["index"],
            "IndexRange": ["first", "last"], "Index": ["expr", "indices"], "FunctionCall": ["name"]}


def incomplete(root):
    """A required part of the tree that is not there."""
    for n in lang.walk(root):
        k = n["@"]
        for f in REQUIRED.get(k, ("lhs", "rhs") if k in syntax.BINARY.values() else
                              ("expr",) if k in syntax.PREFIX.values() else
                              ("cond", "if_true", "if_false") if k.startswith("Ternary") else ()):
            if not n.get(f):
                return "a tree whose %s has no %s" % (k, f)
        if k == "Version" and not n["items"]:
            return "a version without number"
        if k == "IndexList" and not n["items"]:
            return "an empty index list"
    return None


# ------------------------------------------------------------------------------------------------------------ P02
STATEMENT_EDGES = """qubit q|bit b|qubit[1] q|bit[0] b|qubit[01]q|qubit [1]q|qubit[1]|qubit[]q|qubit[q]q|qubit[1.]q|qubit[-1]q|qubit[1+1]q|
qubit[(1)]q|qubit q, r|qubit|qubit qubit|qubit[1][1] q|qubit q[1]|Qubit q|QUBIT q|qubit H|qubit pi|qubit true|bit true|bit measure|
H q|H (q)|H(q)|H((q))|H(q)q|H(q)(q)|H()q|H(1)q|H(1,)q|H(,1)q|H(1)(2)q|H|H q,|H ,q|H q,q|H q r|H q;H q|h q|inv.H q|inv H q|inv.inv.H q|inv|inv.|inv.q|
inv(1).H q|pow(1).H q|pow.H q|pow().H q|pow(1,2).H q|pow(1) H q|pow 1 .H q|ctrl.H q|ctrl.H q,q|ctrl(1).H q|ctrl . H q|Inv.H q|H.inv q|H.q|
inv.pow(1).ctrl.H q|inv.measure q|inv.reset q|X 1|X 1+1|X true|X f()|X f(1,2)|X f(,)|X q[0]|X q[]|X q[0,1]|X q[0:1]|X q[0:1:2]|X q[:]|X q[0:]|X q[:1]|
X q[0][1]|X q[0,]|X q[q[0]]|X (q)[0]|X 1[0]|X f()[0]|X q[0:1,2,3:4]|X q[a?b:c]|X q[a?b:c:d]|X q[(a:b)]|
measure q|b = measure q|b=measure q|b == measure q|= measure q|b =measure|b = measure(1)q|b = measure(1,2,3)q|b = measure(1)|b = measure(q)|
b = measure()q|b = measure (q)(r)|b = measure q,r|b,c = measure q|b[0] = measure q[0]|1 = measure 2|b = Measure q|b = c|b = reset q|(b) = measure (q)|
a+b = measure c+d|b = measure -q|measure b = q|b = b = measure q|b = measure measure q|
reset q|reset|reset q, r|reset (q)|reset 1|reset q[0]|reset(1) q|init q|init|init q,q|Init q|barrier q|barrier|barrier q r|wait(1) q|wait q|wait() q|
wait(1,2) q|wait(1)|wait (1) (q)|wait 1 q|wait(q) 1|wait[1] q|Wait(1) q|
asm(x)'''y'''|asm(x) ''' y '''|asm (x)''''''|asm x '''y'''|asm()'''y'''|asm(1)'''y'''|asm(x)'y'|asm(x)|asm(x)'''y''' q|asm(x,y)'''z'''|asm(asm)'''z'''|
Asm(x)'''y'''|asm('''x''')'''y'''|asm(x)'''y''''|asm(x)'''''''|asm(x)''''y'''|asm(x)'''y''z'''|version 3|version|3|q|1|(q)|-q|q[0]|f(x)|f(x) y|
X q //c|X q /*c*/|/*c*/X q|X/*c*/q|X//c q|X /**/ q|X /* q|X */ q|X /*/ q|X /*/*/ q|X /***/ q|//|/**/|'''x'''|
X .5|X 5.|X 5.e3|X .5e3|X 5e3|X 5.5e|X 5.5e+|X 5.5e+1|X 5.5E-1|X .|X .e5|X 0x5|X 1_0|X 1.2.3|X 1..2|X 1. .2|X 00|X 007.5|X 1.e|X 1.q|X 1q|
X a b|X a+b|X +a|X ++a|X +-~!a|X a+|X *a|X a**b**c|X a**-b|X -a**b|X a<b<c|X a==b==c|X a=b|X a&b|X a&&b|X a&&&b|X a|b|X a\\b|X a||b|X a|||b|
X a^b|X a^^b|X a^^^b|X a<<b|X a<<<b|X a>>b|X a>>>b|X a>=b|X a=>b|X a<=b|X a=<b|X a!=b|X a!b|X a=!b|X a!==b|X a%b|X a/b|X a//b|X a/ /b|X a~b|X a~~b|
X !a|X !!a|X a?b:c|X a?b|X a?:c|X a?b:c:d|X a?b?c:d:e|X a?b:c?d:e|X (a?b:c)|X a:b|X ?|X a?b:|X (|X )|X ()|X (a|X a)|X (a))|X ((a)|X [a]|X a[|X a]|X {a}|
X "a"|X 'a'|X a'|X #a|X @a|X $a|X \\a|X `a|X é|X aé|X _|X __|X _1|X 1_|X a.b|X a;b|X a,b|X a, b, c|X a ,b|;|;;|X q;|;X q|X q;;X q|X;q"""


def edge_statements():
    out = []
    for line in STATEMENT_EDGES.split("\n"):
        out += [s.replace("\\\\", "\\") for s in re.split(r"(?<![|a\\])\|(?![|b])", line) if s]
    return sorted(set(out + ["X a|b", "X a||b", "X a|||b", "X a| |b", "X |a", "X a|"]))


VERSIONS = ["version 3", "version 3.0", "version 3.0.0", "version 3.", "version .3", "version3", "version\t3", "version\n3", "version 3.0.", "version 3 .0",
            "version 3. 0", "version 3.0 ", "version", "version q", "Version 3", "VERSION 3.0", "version 3 3", "version 3.0 X q", "version 03.00", "version -3",
            "version +3", "version 3e0", "version 3.0e1", "version 3.0a", "version /**/3", "version 3/**/", "version 3.0//c", "version;3", "version ;3", ";version 3",
            "\nversion 3", ";\n;\r\nversion 3", " version 3", "/**/version 3", "//c\nversion 3", "version 3;", "version 3\n", "version 3;;\n\n", "version 3\r\n",
            "version 3\rX q", "version 3\r;X q", "version 3;version 3", "version  3", "version 999999999999", "version 3.0.1.2", "x version 3", "version 3 ; X q",
            "versions 3", "version_3", "version 3;X q\n", "version 3;X q\r\nX q", "version 3\n;\n;X q;", "", " ", ";", "\n", "//", "/**/", "version 3\x0c", "version 3\xa0",
            "version 3;\x00", "X q", "qubit q", "3.0", "version 3:X q", "version 3,X q"]


def near_programs(rng, n):
    """Programs of the grammar, and texts a few tokens away from one."""
    for _ in range(n):
        p = next(lang.programs(rng, 1, wild=0.6, faults=0.05, size=4))
        k = rng.random()
        if k < 0.35:
            yield gen.layout(p, rng)
        elif k < 0.8:
            yield gen.layout([s for s in lang.mutate_tokens(rng, p) if s], rng)
        else:
            yield lang.mutate_text(rng, gen.layout(p, rng))


def decodable(t):
    return "\ufeff" not in t[:1] and not re.search("[\ud800-\udfff]", t)


def p02(ctx):
    drv = lang.exe()
    ctx.rule = ("the edge list of statements and versions, all pairs of tokens after 'version 3;X', generated programs and texts a few token or "
                "character edits away from one; distinct texts")
    texts = ["version 3\n" + s for s in edge_statements()] + list(VERSIONS)
    pair = [t for t in "qubit;measure;reset;wait;inv;asm;true;q;1;2.5;.5;:;,;.;=;[;];(;);+;-;~;!;*;**;/;%;<<;>;>=;==;!=;&;&&;^;^^;||;?;'''x''';version".split(";")] + [";", "|", "\n"]
    texts += ["version 3;X%s%s%s" % (s, a + s, b) for a in pair for b in pair for s in (["", " "] if not ctx.quick else [" "])]
    texts += ["version 3;X q%s%s%s" % (s, a + s, b) for a in pair for b in pair for s in ([""] if ctx.quick else ["", " "])]
    texts += [t for t in near_programs(ctx.rng, ctx.n(3500, 60000))]
    texts = [t for t in texts if decodable(t)]
    for t, o in zip(texts, lang.parse(ctx, drv, texts)):
        if o is None:
            continue
        p = syntax.parse(t, None)
        if p.unspecified or p.kind == "range":
            continue
        ctx.seen(t)
        ctx.count("accepted" if p.ast else "rejected")
        if (o.status == "ok") != (p.ast is not None):
            ctx.violation("accepted although it is no program (%s)" % p.error if o.status == "ok" else "rejected a program: %s" % o.errors, {"text": t})
    ctx.sample({"accepted": next((t for t in reversed(texts) if syntax.parse(t, None).ast), "")[:300]})


# ------------------------------------------------------------------------------------------------------------ P03
def two_operator(rng):
    """Every ordered pair of operators in one flat expression, with and without a prefix or a ternary."""
    ops = list(syntax.PREC)
    out = []
    for a in ops:
        for b in ops:
            out.append(["a", a, "b", b, "c"])
        out += [["-", "a", a, "b"], ["~", "a", a, "!", "b"], ["a", a, "+", "b"], ["a", a, "b", "?", "c", ":", "d"], ["a", "?", "b", a, "c", ":", "d"],
                ["a", "?", "b", ":", "c", a, "d"], ["(", "a", a, "b", ")", a, "(", "c", a, "d", ")"], ["a", a, "(", "b", a, "c", ")"]]
    out += [["a", "?", "b", "?", "c", ":", "d", ":", "e"], ["a", "?", "b", ":", "c", "?", "d", ":", "e"], ["(", "a", "?", "b", ":", "c", ")", "?", "d", ":", "e"],
            ["-", "-", "a"], ["-", "~", "!", "+", "a"], ["f", "(", ")"], ["f", "(", "a", ",", "b", ",", "c", ")"], ["+", "a"], ["+", "-", "+", "a"]]
    return out


def tree_programs(ctx, n):
    rng = ctx.rng
    out = []
    two = two_operator(rng)
    for i in range(0, len(two), 12):
        out.append([["version", "3.0"]] + [["Rx", "("] + e + [")", "q"] for e in two[i:i + 12]])
    for _ in range(n):
        g = gen.Gen(rng, parens=rng.choice([0, 0.05, 0.3]))
        k = rng.random()
        if k < 0.4:
            out.append(g.wild_program(rng.randrange(1, 6)))
        elif k < 0.7:
            out.append([["version", "3"]] + [["G", "("] + g.wild_flat(rng.randrange(1, 14)) + [")"] + g.wild_flat(rng.randrange(1, 6)) for _ in range(4)])
        else:
            out.append(g.program(rng.randrange(12), faults=0.1))
    return out


def p03(ctx):
    drv = lang.exe()
    ctx.rule = ("all ordered pairs of binary operators, operators around ?: and prefixes, random flat and nested expressions, random programs "
                "of all statement kinds; distinct syntax trees (as source texts)")
    texts = [gen.layout(p, ctx.rng) for p in tree_programs(ctx, ctx.n(2000, 30000))]
    for t, o in zip(texts, lang.parse(ctx, drv, texts)):
        if o is None:
            continue
        p = syntax.parse(t, None)
        if p.ast is None or p.unspecified:
            continue
        ctx.seen(t)
        if o.status != "ok":
            ctx.violation("rejected a program: %s" % o.errors, {"text": t})
            continue
        got = semantics.clean(lang.load(o.ast), True)
        d = semantics.diff(lang.strip(p.ast), got)
        ctx.count("nodes", sum(1 for _ in lang.walk(got)))
        if d:
            ctx.violation("the tree differs: %s" % d, {"text": t})
    ctx.sample(texts[-1][:300])


# ------------------------------------------------------------------------------------------------------------ P04
def located(want, got, out, path=""):
    """Compares the locations of two trees of the same shape; -> number of locations seen."""
    n = 0
    if isinstance(want, dict) and isinstance(got, dict):
        if "@" in want:
            a, b = want.get("%"), got.get("%")
            if a is not None:
                n += 1
                if a != b:
                    out.append("%s %s is at %s, expected %s" % (path, want["@"], b, a))
        for k in want:
            if k != "%" and k in got:
                n += located(want[k], got[k], out, path + "." + k)
    elif isinstance(want, list) and isinstance(got, list):
        for i, (a, b) in enumerate(zip(want, got)):
            n += located(a, b, out, "%s[%d]" % (path, i))
    return n


def p04(ctx):
    drv = lang.exe()
    ctx.rule = ("random programs of all statement kinds in random layouts (multi-line comments, CRLF, tabs, multi-byte characters before and between "
                "the tokens) with no file name and with several; distinct texts, all located nodes of each compared")
    rng = ctx.rng
    for file in (None, "f", lang.FILE, "a\tb\"\\\n'"):
        texts = []
        for p in tree_programs(ctx, ctx.n(450, 8000)):
            st = gen.random_style(rng)
            st.comments = rng.choice([0, 0.2, 0.5])
            texts.append(gen.layout(p, rng, st))
        texts += [lang.far(rng, t) for t in rng.sample(texts, 9)] + (lang.big(rng) + lang.big(rng, 1100, 130, 2) if file == "f" else [])
        for t, o in zip(texts, lang.parse(ctx, drv, texts, file)):
            if o is None or o.status != "ok":
                continue
            p = syntax.parse(t, syntax.raw(file) if file else None)
            if p.ast is None or p.unspecified:
                continue
            got = semantics.clean(lang.load(o.ast))
            if semantics.diff(lang.strip(p.ast), lang.strip(got)):
                continue                       # another tree: nothing to compare positions with
            ctx.seen((t, file))
            bad = []
            ctx.count("locations", located(p.ast, got, bad))
            if bad:
                ctx.violation(bad[0], {"text": t, "file": file})
    ctx.sample(texts[-1][:300])


# ------------------------------------------------------------------------------------------------------------ P05
def int_texts(rng, n):
    out = [str(v) for v in range(20)]
    for k in range(1, 65):
        out += [str(2**k + d) for d in (-1, 0, 1)]
    out += [str(10**k) for k in range(1, 25)] + [str(10**k - 1) for k in range(1, 25)]
    out += ["0" * k + "7" for k in (1, 5, 18, 19, 20, 40, 300)] + ["0" * 30 + "9223372036854775807", "0" * 30 + "9223372036854775808", "0" * 50]
    out += ["18446744073709551615", "18446744073709551616", "18446744073709551617", "9" * 40, "1" + "0" * 300, "184467440737095516160", "36893488147419103239",
            "92233720368547758070", "9223372036854775810", "010", "08", "09", "0010"]
    for _ in range(n):
        v = rng.randrange(2**rng.randrange(1, 68))
        out.append("0" * rng.choice([0, 0, 0, 1, 7]) + str(v))
    return out


def float_texts(rng, n):
    out = ["0.", ".0", "0.0", "00.00", "1.", ".1", "1.0", "0.1", "0.2", "0.3", "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308",
           "1.8e308", "1.e309", "1.e400", "9.e99999", "0.e99999", "0.0e-99999", "2.2250738585072014e-308", "2.3e-308", "9007199254740993.", "9007199254740992.5",
           "9007199254740993.0000000000000000000000000000001", "1.00000000000000011102230246251565404236316680908203125",
           "1.00000000000000011102230246251565404236316680908203126", "123456789012345678901234567890.", ".000000000000000000000000001", "1." + "0" * 400,
           "1" + "0" * 300 + ".", "1" + "0" * 309 + ".", "." + "0" * 200 + "1", "5.0e-1", "5.0E-1", "5.0e+1", "5.0e01", "5.0e-00", "3.14159265358979323846",
           "2.718281828459045235360", "4.35", "0.5e0", "179769313486231570000000000000000000000.5e270", "1.e-5", "00001.5", "1.5e007", "0.1e1", "1e5.0"]
    for _ in range(n):
        k = rng.random()
        if k < 0.3:
            out.append("%d.%d" % (rng.randrange(10**rng.randrange(1, 20)), rng.randrange(10**rng.randrange(1, 20))))
        elif k < 0.5:
            out.append("%d.e%d" % (rng.randrange(1, 100), rng.randrange(-300, 306)))
        elif k < 0.8:
            import struct
            v = struct.unpack(">d", struct.pack(">Q", rng.randrange(0x0010000000000000, 0x7fefffffffffffff)))[0]
            s = repr(v)
            if "." not in s:
                s = s.replace("e", ".e") if "e" in s else s + "."
            out.append(s)
        else:
            out.append(".%s%s%d" % ("".join(rng.choice("0123456789") for _ in range(rng.randrange(1, 30))), rng.choice(["e", "E", "e+", "e-"]), rng.randrange(12)))
    return [f for f in out if re.fullmatch(r"[0-9]+\.[0-9]*([eE][-+]?[0-9]+)?|\.[0-9]+([eE][-+]?[0-9]+)?", f)]


PLACES = ["X %s", "X q[%s]", "X q[%s:%s]", "X q[1,%s]", "Rx(%s) q", "pow(%s).X q", "Rn(1,%s,3) q", "b = measure(%s) q", "wait(%s) q", "X -%s", "X 1+%s", "X %s**2", "X f(%s)",
          "X f(1,%s)", "X true?%s:%s", "b[%s] = measure q", "X (%s)", "inv.pow(%s).Y q", "X q,%s", "reset q[%s]", "X ~%s", "X 2<<%s", "X 3==%s"]


def p05(ctx):
    drv = lang.exe()
    rng = ctx.rng
    ctx.rule = ("integer literals around every power of two and ten up to 10^300 and with leading zeros, float literals at rounding and range boundaries, in "
                "every syntactic position, array sizes and version components; distinct (literal, position) pairs")
    cases = []
    lits = int_texts(rng, ctx.n(700, 12000)) + float_texts(rng, ctx.n(500, 12000)) + ["true", "false"]
    for i, l in enumerate(lits):
        for place in rng.sample(PLACES, ctx.n(2, 4)):
            cases.append((l, place, "version 3.0\n" + "\n" * (i % 3) + place.replace("%s", l)))
    for l in int_texts(rng, ctx.n(200, 2000)):
        cases.append((l, "size", "version 3.0; qubit[%s] q" % l))
        cases.append((l, "size", "version 3.0; bit[ %s ] q" % l))
        cases.append((l, "version", rng.choice(["version %s\n", "version %s.0", "version 3.%s", "version  %s.%s;"]).replace("%s", l)))
    texts = [c[2] for c in cases]
    for (l, place, t), o in zip(cases, lang.parse(ctx, drv, texts, "f")):
        if o is None:
            continue
        p = syntax.parse(t, "f")
        if p.unspecified or (p.ast is None and p.kind != "range"):
            continue
        ctx.seen((l, place))
        if p.ast is None:
            ctx.count("out of range")
            if o.status == "ok":
                ctx.violation("a literal out of range was accepted: %s" % json.dumps([n for n in lang.walk(lang.load(o.ast)) if "Literal" in n["@"] or n["@"] == "Version"])[:300], {"text": t})
            elif len(o.errors) != 1 or tuple(o.errors[0].range[:2]) not in [e[:2] for e in p.error]:
                ctx.violation("errors %s, expected one at %s" % (o.errors, p.error), {"text": t})
            continue
        ctx.count("in range")
        if o.status != "ok":
            ctx.violation("a literal in range was rejected: %s" % o.errors, {"text": t})
            continue
        pick = lambda tree: [(n["@"], n["items"] if n["@"] == "Version" else n["value"]) for n in lang.walk(tree) if n["@"].endswith("Literal") or n["@"] == "Version"]
        w, g = pick(p.ast), pick(lang.load(o.ast))
        if w != g:
            ctx.violation("literals read as %s, expected %s" % (g, w), {"text": t})
    ctx.sample(texts[-1][:200])
    ctx.sample(texts[0][:200])


# ------------------------------------------------------------------------------------------------------------ P06
def p06(ctx):
    drv = lang.exe()
    rng = ctx.rng
    ctx.rule = ("random programs (valid and semantically faulty), each in the plainest layout and in random ones (blanks, comments, CRLF, semicolons, repeated "
                "separators); distinct re-laid texts whose trees or rejections were compared with those of the plain text")
    groups = []
    for p in lang.programs(rng, ctx.n(450, 8000), wild=0.35, faults=0.1):
        plain = gen.layout(p, rng, gen.PLAIN)
        groups.append((plain, [gen.layout(p, rng) for _ in range(4)]))
    for p in (lang.mutate_tokens(rng, q) for q in lang.programs(rng, ctx.n(120, 2000), wild=0.5)):
        p = [s for s in p if s and not any("//" in t or "/*" in t or "\n" in t or t == "'''" or "\ufeff" in t for t in s)]
        want = [t for s in p for t in s]
        if not p or p[0][:1] != ["version"] or "version" in want[1:]:
            continue
        plain = gen.layout(p, rng, gen.PLAIN)
        k, e = syntax.lex(plain)
        if e or [t.s for t in k if t.k not in ("NL", ";", "EOF")] != want:
            continue
        groups.append((plain, [gen.layout(p, rng) for _ in range(2)]))
    flat = [t for g in groups for t in [g[0]] + g[1]]
    obs = iter(lang.analyze(ctx, drv, flat, "f"))
    for plain, others in groups:
        a = next(obs)
        bs = [next(obs) for _ in others]
        if a is None:
            continue
        A = facts(a)
        for t, b in zip(others, bs):
            if b is None:
                continue
            ctx.seen(t)
            ctx.count("layouts of " + a.status)
            if a.status != b.status:
                ctx.violation("one layout gives %s, another %s" % (a.status, b.status), {"plain": plain, "text": t, "errors": repr((a.errors or b.errors)[:3])})
                continue
            d = semantics.diff(A, facts(b))
            if d:
                ctx.violation("trees differ between layouts: %s" % d, {"plain": plain, "text": t})
    ctx.sample({"plain": groups[0][0][:200], "layout": groups[0][1][0][:200]})


def facts(o):
    """What must not depend on layout."""
    out = {"ast": semantics.clean(lang.load(o.ast), True), "errors": [re.sub(r"\(\d+[^)]*\)|\d+:\d+", "", e.message) for e in o.errors] if o.status == "err" else len(o.errors)}
    if o.status == "ok":
        out["sem"] = semantics.clean(lang.load(o.sem), True)
    elif o.status == "err":
        out["errors"] = len(o.errors)
    return out


# ------------------------------------------------------------------------------------------------------------ P07
def p07(ctx):
    drv = lang.exe()
    rng = ctx.rng
    ctx.rule = ("texts a few token or character edits away from a program, truncations of programs, the edge list of statements and versions; distinct rejected "
                "texts, error count, position, extent and file compared")
    for file in (None, lang.FILE):
        texts = ["version 3\n" + s for s in edge_statements()] + list(VERSIONS)
        for t in near_programs(rng, ctx.n(2600, 40000)):
            texts.append(t)
            if rng.random() < 0.2:
                texts.append(t[:rng.randrange(len(t) + 1)])
        texts += [lang.far(rng, t) for t in rng.sample(texts, 15)]
        texts = [t for t in texts if decodable(t)]
        for t, o in zip(texts, lang.parse(ctx, drv, texts, file)):
            if o is None:
                continue
            p = syntax.parse(t, None)
            if p.ast is not None or p.unspecified or p.kind == "range":
                continue
            if o.status == "ok":
                continue                       # that is P02's
            ctx.seen((t, file))
            ctx.count(p.kind + " errors")
            bad = None
            if len(o.errors) != 1:
                bad = "%d errors" % len(o.errors)
            else:
                e = o.errors[0]
                near = [w for w in p.error if w[:2] == e.range[:2]]
                if not near:
                    bad = "error at %s, expected at %s" % (e.range, p.error)
                elif p.at.s.isascii() and len(p.error) == 1 and e.range not in p.error:
                    bad = "error spans %s, expected %s" % (e.range, p.error)
                elif (e.file or None) != (file or None):
                    bad = "error names file %r" % e.file
                elif not e.message.strip():
                    bad = "no message"
            if not bad and o.printed:
                bad = "something was printed: %r" % o.printed[:200]
            if bad:
                ctx.violation(bad, {"text": t, "file": file, "errors": repr(o.errors[:3])})
    ctx.sample(texts[-1][:200])


# ------------------------------------------------------------------------------------------------------------ P08
RAW_BITS = ["", " ", "\n", "\r\n", "\r", "\t", "a", "x y z", "'", "''", "\"", "\"\"\"", ";", "//", "// c\n", "/*", "*/", "/* c */", "#", "version 3.0", "qubit q", "é", "→", "𝄞", "\u2028",
            "{", "}", "\\", "\\n", "\\'", "measure", "0", "$", "%s", "%", "{}", "{0}", "\x00", "\x01", "\x7f", "]", ")", "(", "asm(x)", "\ufeff", "'x'", "''x", "  \n  \n", "\n\n\n", "end", "</script>", "$(x)"]


def raw_code(rng):
    k = rng.random()
    if k < 0.75:
        s = "".join(rng.choice(RAW_BITS) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 12])))
    elif k < 0.95:
        s = "".join(chr(rng.choice([rng.randrange(1, 128), rng.randrange(0x80, 0x800), rng.randrange(0xe000, 0x10000), rng.randrange(0x10000, 0x110000)]))
                    for _ in range(rng.randrange(30)))
    else:
        s = rng.choice(["a", "' ", "\n", "é"]) * rng.choice([100, 1000, 5000])
    while "'''" in s:
        s = s.replace("'''", "''")
    return s.rstrip("'")         # a quote before the closing ones would close early


def p08(ctx):
    drv = lang.exe("asan")
    rng = ctx.rng
    ctx.rule = ("asm declarations with code made of quotes, comment markers, newlines, keywords, control and multi-byte characters, among other statements; distinct "
                "codes, read back from the syntax tree, the semantic tree and both after serialisation, and as the text's neighbours with empty code")
    cases = []
    codes = RAW_BITS + [raw_code(rng) for _ in range(ctx.n(1500, 20000))]
    codes = [c for c in codes if "'''" not in c and not c.endswith("'")]
    i = 0
    while i < len(codes):
        n = rng.choice([1, 1, 2, 3])
        mine = codes[i:i + n]
        i += n
        g = gen.Gen(rng)
        stmts, names = [["version", "3.0"], g.definition("V"), g.definition("W")], []
        for c in mine:
            if rng.random() < 0.5:
                stmts.append(g.valid() if rng.random() < 0.7 else g.definition())
            name = rng.choice(gen.NAMES)
            names.append(name)
            stmts.append(["asm", "(", name, ")", "'''" + c + "'''"])
        if rng.random() < 0.7:
            stmts.append(g.instruction() or g.definition())
        stmts = [s for s in stmts if s[0] != "asm" or s[4][3:-3] in mine]
        mine = [s[4][3:-3] for s in stmts if s[0] == "asm"]
        names = [s[2] for s in stmts if s[0] == "asm"]
        empty = [s if s[0] != "asm" else s[:4] + ["''''''"] for s in stmts]
        state = rng.getstate()
        st = gen.random_style(rng)
        text = gen.layout(stmts, rng, st)
        rng.setstate(state)
        st = gen.random_style(rng)
        cases.append((mine, names, text, gen.layout(empty, rng, st)))
    res = ctx.run(drv, [["asm", c[2], "+f"] for c in cases])
    bare = ctx.run(drv, [["asm", c[3], "+f"] for c in cases])
    for (mine, names, text, empty), r, e in zip(cases, res, bare):
        if r is None:
            continue
        if isinstance(r, Crash):
            ctx.violation(repr(r), {"text": text})
            continue
        p = syntax.parse(text, "f")
        if p.ast is None or r[0] == b"throw" or r[0] != b"ok":
            if p.ast is not None and r[0] != b"ok" and not isinstance(e, Crash) and e and e[0] == b"ok":
                ctx.violation("the program fails only because of its raw text: %s" % [x.decode("utf-8", "replace") for x in r[:3]], {"text": text})
            continue
        want = [(syntax.raw(n), syntax.raw(c)) for n, c in zip(names, mine)]
        for c in mine:
            ctx.seen(c)
        trees = [lang.load(x) for x in r[1:5]]
        for what, tree in zip(("syntax tree", "semantic tree", "syntax tree after serialisation", "semantic tree after serialisation"), trees):
            got = [(n["backend_name"]["name"] if isinstance(n["backend_name"], dict) else n["backend_name"], n["backend_code"]) for n in lang.walk(tree) if n["@"] == "AsmDeclaration"]
            if got != want:
                k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                ctx.violation("%s holds %r, written %r" % (what, got[k:k + 1], want[k:k + 1]), {"text": text})
                break
        if e is not None and not isinstance(e, Crash) and e[0] == b"ok":
            for what, a, b in (("syntax", trees[0], lang.load(e[1])), ("semantic", trees[1], lang.load(e[2]))):
                blank = lambda t: [n for n in [semantics.clean(t, True)] if [m.update(backend_code="") for m in lang.walk(n) if m["@"] == "AsmDeclaration"] or True][0]
                d = semantics.diff(blank(b), blank(a))
                if d:
                    ctx.violation("the code of an asm declaration changes the %s tree around it: %s" % (what, d), {"text": text})
    ctx.sample(cases[0][2][:200])


CHECKS = {"P01": p01, "P02": p02, "P03": p03, "P04": p04, "P05": p05, "P06": p06, "P07": p07, "P08": p08}
