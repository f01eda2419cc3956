"""Checks of the semantic analysis."""
import itertools
import re
import struct

import lang
import sem
from harness import Crash
from lang import show
from model import gen, semantics, syntax
from sem import Case

KINDS = {"Q": ["q", "r [ 0 ]", "r [ 1 : 1 ]", "r [ true ]"], "V": ["r", "r [ 0 : 1 ]", "r [ 2 , 2 ]"], "B": ["b", "c [ 2 ]", "c [ false ]"], "W": ["c", "c [ 0 , 1 ]", "c [ 0 : 4 ]"],
         "b": ["true", "false"], "i": ["2", "0", "1 + 1"], "f": ["2.5", "pi", "1. / 2"]}


def kind_texts(rng, kinds):
    return [rng.choice(KINDS[k]).split(" ") if rng.random() < 0.6 else KINDS[k][0].split(" ") for k in kinds]


def f2d(s):
    return struct.unpack(">d", bytes.fromhex(s[2:]))[0]


# ------------------------------------------------------------------------------------------------------------ C01
TRANSCENDENTAL = set(gen.FUNCTIONS) - {"sqrt", "abs"}


def skewed(k):
    """A configuration whose inexact functions are off by k units of 2e-16."""
    c = semantics.Config()
    fs = c.scopes[0].functions
    for name in list(TRANSCENDENTAL) + ["operator**"]:
        fs[name] = [(types, ret, (lambda f: lambda *a: f(*a) * (1 + k * 2.3e-16))(f)) for types, ret, f in fs[name]]
    return c


def constants(tree):
    """The constants of the parameters of each statement."""
    return [[(n["@"], n["value"]) for n in sem.values([s.get("gate"), s.get("parameters")], ("ConstInt", "ConstFloat", "ConstBool"))] for s in sem.statements(tree)]


def exactness(toks):
    """0: exact operations only; 1: one inexact function around exact operations; 2: anything else."""
    n = sum(t in TRANSCENDENTAL or t == "**" for t in toks)
    if n == 1 and toks[0] == "(":
        i = match(toks) + 1
        if i + 1 < len(toks) and toks[i] == "**" and toks[i + 1] == "(" and match(toks[i + 1:]) == len(toks) - i - 2:
            return 1
    return 0 if n == 0 else 1 if n == 1 and (toks[0] in TRANSCENDENTAL and match(toks) == len(toks) - 1) else 2


def match(toks):
    d = 0
    for i, t in enumerate(toks):
        d += t == "("
        if t == ")":
            d -= 1
            if d == 0:
                return i
    return -1


def probe(kind, e):
    return {"f": ["Rx", "("] + e + [")", "q"], "i": ["wait", "("] + e + [")", "q"], "b": ["CRk", "("] + e + [")", "q", ",", "r", "[", "0", "]"]}[kind]


def close(w, g, tol):
    if w == g or (w != w and g != g):
        return True
    if w != w or g != g or w in (float("inf"), float("-inf")) or g in (float("inf"), float("-inf")):
        return False
    return abs(w - g) <= tol * max(abs(w), abs(g), 1e-300)


def judge_values(ctx, drv, exprs, near=True):
    """exprs: (kind, tokens).  Values of valid expressions against the reference."""
    stmts = [probe(k, e) for k, e in exprs]
    for part in range(0, len(stmts), 4000):
        cases = [Case(p) for p in sem.packs(stmts[part:part + 4000], 30)]
        cases = [c.without_faults() for c in cases if c.ok]
        for c, o in sem.run(ctx, drv, cases):
            if o.status != "ok":
                # which expressions are accepted is C02's and C03's
                ctx.count("programs left to C02 and C03")
                continue
            w, g = constants(c.r.tree), constants(semantics.clean(lang.load(o.sem)))
            lo = hi = None
            for i, s in enumerate(c.stmts[len(sem.DEFS):]):
                e = s[2:match(s)]
                lvl = exactness(e)
                if i >= len(g):
                    ctx.violation("a statement is missing", {"text": c.text})
                    break
                ctx.seen(" ".join(e))
                ctx.count("exact" if lvl == 0 else "within ulps" if lvl == 1 else "within tolerance")
                if [x[0] for x in w[i]] != [x[0] for x in g[i]]:
                    ctx.violation("%s has constants %s, expected %s" % (" ".join(s), g[i], w[i]), {"text": c.text})
                    continue
                for (t, a), (_, b) in zip(w[i], g[i]):
                    if a == b:
                        continue
                    if t == "ConstFloat":
                        fa, fb = f2d(a), f2d(b)
                        if fa != fa and fb != fb:
                            continue
                        if lvl == 1 and fa == fa and fb == fb and not fa == fb == 0 and abs(semantics.order(fa) - semantics.order(fb)) <= 8:
                            continue
                        if lvl == 2:
                            if lo is None:
                                lo = constants(semantics.Analyzer(skewed(-8)).analyze(c.p.ast).tree)
                                hi = constants(semantics.Analyzer(skewed(8)).analyze(c.p.ast).tree)
                            if len(lo) != len(w) or len(hi) != len(w):
                                continue
                            xs = [f2d(v[i][0][1]) if v[i] and v[i][0][0] == "ConstFloat" else None for v in (lo, hi)]
                            if None in xs or not all(close(fa, x, 1e-9) for x in xs) or close(fa, fb, 1e-7):
                                continue       # too sensitive to rounding to tell, or close enough
                        ctx.violation("%s gives %r, expected %r" % (" ".join(s), fb, fa), {"text": c.text})
                    else:
                        ctx.violation("%s gives %s, expected %s" % (" ".join(s), b, a), {"text": c.text})


def op_grid():
    """Every operator on pairs of ordinary operands of each type."""
    ints = ["0", "1", "2", "3", "7", "10", "63", "- 1", "- 2", "- 7", "1000003", "4294967297"]
    floats = ["0.", "1.0", "2.5", "- 0.5", "0.1", "1.e10", "- 3.25", "pi", "1.e-9"]
    bools = ["true", "false"]
    floats += ["- 0.", "0.5", "- 2.", "- 1.", "2.e-200", "- 3.e200"]
    out = []
    par = lambda t: ["("] + t.split(" ") + [")"]
    for op in syntax.PREC:
        for a in ints:
            for b in ints:
                if op in "&& || ^^".split():
                    continue
                k = "b" if op in "== != < > <= >=".split() else "f" if op == "**" else "i"
                out.append((k, par(a) + [op] + par(b)))
        if op in "+ - * / ** == != < > <= >=".split():
            for a in floats + ints[:4]:
                for b in floats + ints[4:8]:
                    out.append(("b" if op in "== != < > <= >=".split() else "f", par(a) + [op] + par(b)))
        for a in bools:
            for b in bools + ["1", "2.5"]:
                k = "b" if op in "&& || ^^ == != < > <= >=".split() else "f" if b == "2.5" or op == "**" else "i"
                out.append((k, par(a) + [op] + par(b)))
                out.append((k, par(b) + [op] + par(a)))
    for u in "-~":
        out += [("i", [u] + par(a)) for a in ints + bools]
    out += [("f", ["-"] + par(a)) for a in floats] + [("b", ["!"] + par(a)) for a in bools]
    for f in gen.FUNCTIONS:
        for a in floats + ints + bools + ["0.999999", "- 1.", "1.5", "20.", "- 20.", "0.5", "1.e-5", "700.", "1.e300"]:
            out.append(("f", [f, "("] + a.split(" ") + [")"]))
    out += [("i", ["abs", "("] + a.split(" ") + [")"]) for a in ints + bools]
    for c in bools:
        for a, b, k in (("1", "2", "i"), ("1.5", "2.5", "f"), ("true", "false", "b"), ("1", "2.5", "f"), ("true", "2", "i"), ("true", "2.5", "f"), ("3", "true", "i")):
            out.append((k, [c, "?", a, ":", b]))
            out.append((k, [c, "?", b, ":", a]))
    out += [("f", [n]) for n in ("pi", "eu", "tau")] + [("b", [n]) for n in bools]
    for a, b in itertools.product(bools, repeat=2):
        for x, y in itertools.product(("1", "2.", "true"), repeat=2):
            out.append(("f", [a, "?", x, ":", b, "?", y, ":", "9"]))
    return out


def c01(ctx):
    drv = lang.exe()
    rng = ctx.rng
    ctx.rule = ("every operator and function on a grid of ordinary operands, and random well-typed expressions up to depth 6; distinct valid expressions whose value in "
                "the semantic tree was compared with the reference (exactly, within 8 units in the last place around one inexact function, or within 1e-7 where "
                "the value does not depend on rounding)")
    exprs = op_grid()
    g = gen.Gen(rng)
    g.hazard = 0.03
    for _ in range(ctx.n(7000, 120000)):
        k = rng.choice("bif")
        exprs.append((k, g.ex(g.const(k, rng.choice([1, 2, 2, 3, 3, 4, 6])))))
    judge_values(ctx, drv, exprs)
    ctx.sample(" ".join(exprs[-1][1]))
    ctx.sample(" ".join(exprs[100][1]))


# ------------------------------------------------------------------------------------------------------------ C02
def probes(e):
    """Three statements that together tell the type of e: any number, an integer, a boolean."""
    p = ["("] + e + [")"]
    return [["Rx", "("] + p + [")", "q"], ["wait", "("] + p + [")", "q"], ["wait", "("] + p + ["?", "1", ":", "2", ")", "q"],
            ["CR", "("] + ["sqrt"] + p + [")", "q", ",", "r", "[", "1", "]"]]


def typed_exprs(rng, full):
    out = []
    ks = "QVBWbif"
    for op in syntax.PREC:
        for a in ks:
            for b in ks:
                x, y = kind_texts(rng, a + b)
                out.append(["("] + x + [")", op, "("] + y + [")"])
    for u in "-~!+":
        for a in ks:
            out.append([u] + ["("] + kind_texts(rng, a)[0] + [")"])
    for a in ks:
        for b in ks:
            for c in ks:
                x, y, z = kind_texts(rng, a + b + c)
                out.append(x + ["?"] + ["("] + y + [")", ":", "("] + z + [")"])
    for f in gen.FUNCTIONS + ["max", "Sin", "SQRT", "sqrt_", "operator", "arcsin", "pow2", "log2", "round", "int", "float", "q", "pi"]:
        out.append([f, "(", ")"])
        for a in ks:
            out.append([f, "("] + kind_texts(rng, a)[0] + [")"])
        for a, b in itertools.product("Qbif", repeat=2) if full else [rng.choice("Qbif") + rng.choice("bif") for _ in range(3)]:
            x, y = kind_texts(rng, a + b)
            out.append([f, "("] + x + [","] + y + [")"])
        out.append([f, "(", "1", ",", "2.", ",", "true", ")"])
    return out


def mixed(rng, d):
    """A random expression over constants, and rarely registers, of any types."""
    k = rng.random()
    if d <= 0 or k < 0.12:
        t = rng.choice("bif" * 12 + "QVBW")
        return ("raw", kind_texts(rng, t)[0])
    if k < 0.25:
        return ("un", rng.choice("--~!"), mixed(rng, d - 1))
    if k < 0.75:
        return ("bin", rng.choice(list(syntax.PREC)), mixed(rng, d - 1), mixed(rng, d - 1))
    if k < 0.85:
        return ("tern", mixed(rng, d - 1), mixed(rng, d - 1), mixed(rng, d - 1))
    return ("call", rng.choice(gen.FUNCTIONS), [mixed(rng, d - 1) for _ in range(rng.choice([1, 1, 1, 1, 1, 1, 0, 2]))])


def mixed_toks(t, rng):
    if t[0] == "raw":
        return ["("] + t[1] + [")"]
    if t[0] == "un":
        return ["("] + [t[1]] + mixed_toks(t[2], rng) + [")"]
    if t[0] == "bin":
        return ["("] + mixed_toks(t[2], rng) + [t[1]] + mixed_toks(t[3], rng) + [")"]
    if t[0] == "tern":
        return ["("] + mixed_toks(t[1], rng) + ["?"] + mixed_toks(t[2], rng) + [":"] + mixed_toks(t[3], rng) + [")"]
    return [t[1], "("] + [x for i, a in enumerate(t[2]) for x in ([","] if i else []) + mixed_toks(a, rng)] + [")"]


EXPR_FAULTS = {"overflow", "division by zero", "shift count", "unknown variable", "unknown function", "no overload", "dynamic value"}


def judge_exprs(ctx, drv, stmts, spans):
    """Acceptance of statements, and that errors of expressions lie in the expression; spans: index of statement -> columns."""
    for part in range(0, len(stmts), 4000):
        cases = [Case(p) for p in sem.packs(stmts[part:part + 4000], 36)]
        for c, o in sem.run(ctx, drv, cases):
            if sem.acceptance(ctx, c, o):
                for i, es in sem.errors_by_statement(c, o).items():
                    f = c.fault(i)
                    if f and f.kind in EXPR_FAULTS:
                        s = c.stmts[i]
                        a = 1 + sum(len(t) + 1 for t in s[:1])
                        b = 1 + sum(len(t) + 1 for t in s[:1 + match(s[1:]) + 1])
                        e = es[0]
                        if not (e.range[0] == e.range[2] == c.line[i] and a <= e.range[1] <= e.range[3] <= b):
                            ctx.violation("the error of an expression is not located in it: %s: %s" % (c.show(i), e), {"text": c.text})


def c02(ctx):
    drv = lang.exe()
    rng = ctx.rng
    ctx.rule = ("every operator and function on every combination of operand kinds (qubit, qubit register, bit, bit register, bool, int, float), unknown functions, wrong "
                "argument counts, and random nested mixtures; each in four statements that together reveal its type, distinct statements; overload choice is "
                "compared through the values")
    exprs = typed_exprs(rng, not ctx.quick)
    exprs += [mixed_toks(mixed(rng, rng.choice([1, 2, 2, 3])), rng) for _ in range(ctx.n(900, 20000))]
    stmts = [p for e in exprs for p in probes(e)]
    judge_exprs(ctx, drv, stmts, None)
    # which overload was taken shows in the value
    cases = [Case(p).without_faults() for p in sem.packs(stmts, 36)]
    for c, o in sem.run(ctx, drv, cases):
        if o.status != "ok":
            continue
        for i, (w, g) in enumerate(zip(constants(c.r.tree), constants(semantics.clean(lang.load(o.sem))))):
            if [x[0] for x in w] != [x[0] for x in g] or any(x[0] != "ConstFloat" and x[1] != y[1] for x, y in zip(w, g)) or \
                    any(x[0] == "ConstFloat" and not close(f2d(x[1]), f2d(y[1]), 1e-6) for x, y in zip(w, g)):
                ctx.violation("%s gives %s, expected %s" % (c.show(i + len(sem.DEFS)), g, w), {"text": c.text})
    # a promoted number is the nearest one, whatever its magnitude and wherever it is promoted
    nums = {s * (2**k + d) for k in range(63) for d in (-1, 0, 1) for s in (1, -1) if abs(2**k + d) < 2**63} | {s * 10**k for k in range(19) for s in (1, -1)}
    nums |= {s * (2**k + 2**j + d) for k in range(53, 63) for j in (k - 53, k - 52, k - 54) if j >= 0 for d in (-1, 0, 1) for s in (1, -1)}
    nums |= {rng.choice([1, -1]) * rng.randrange(2**rng.randrange(1, 63)) for _ in range(ctx.n(150, 4000))}
    stmts = []
    for n in sorted(nums):
        v = ["(", "-", str(-n), ")"] if n < 0 else [str(n)]
        forms = [v, v + ["+", "0."], ["0.", "+"] + v, v + ["*", "1."], ["1.", "*"] + v, v + ["/", "1."], v + ["-", "0."], ["true", "?"] + v + [":", "0.5"], ["false", "?", "0.5", ":"] + v, v + ["*", "0.25"],
                 ["0.5", "*"] + v, ["true", "*", "1.", "*"] + v]
        for f in [forms[0]] + (forms[1:] if not ctx.quick else rng.sample(forms[1:], 4)):
            stmts.append(["Rx", "("] + f + [")", "q"])
        stmts.append(["CR", "("] + v + [")", "q", ",", "r", "[", "1", "]"])
    for c, o in sem.run(ctx, drv, [Case(p).without_faults() for p in sem.packs(stmts, 60)]):
        if o.status != "ok":
            ctx.violation("promotions of integers are rejected: %s" % (o.whats[:1],), {"text": c.text})
            continue
        for i, (w, g) in enumerate(zip(constants(c.r.tree), constants(semantics.clean(lang.load(o.sem))))):
            ctx.count("promoted integers compared bit by bit")
            ctx.seen(" ".join(c.stmts[i + len(sem.DEFS)]))
            if w != g:
                ctx.violation("%s gives %s, expected %s" % (c.show(i + len(sem.DEFS)), g, w), {"text": c.text})
    ctx.sample(" ".join(exprs[-1]))
    ctx.sample(" ".join(exprs[500]))


# ------------------------------------------------------------------------------------------------------------ C03
MIN = ["(", "-", "9223372036854775807", "-", "1", ")"]


def edge_ints(rng, n):
    vals = {0, 1, 2, 3, 5, 62, 63, 64, 65, 127, 1 << 31, (1 << 31) - 1, 1 << 32, 3037000499, 3037000500, 1 << 61, 1 << 62, (1 << 62) - 1, (1 << 63) - 1, (1 << 63) - 2}
    vals |= {-v for v in vals} | {-(1 << 63), -(1 << 62) - 1}
    while len(vals) < n:
        vals.add(rng.choice([1, -1]) * rng.randrange(1 << rng.randrange(1, 63)))
    return sorted(vals)


def int_tokens(v):
    if v == -(1 << 63):
        return MIN
    return [str(v)] if v >= 0 else ["(", "-", str(-v), ")"]


def c03(ctx):
    drv = lang.exe()
    rng = ctx.rng
    ctx.rule = ("every integer operator on all pairs of boundary integers (around 0, 63, 64, powers of two, the square root of 2^63 and the limits), unary minus and abs of each, the "
                "same nested below other operators, and floating point at its limits (zeros, infinities, NaN, overflow, poles); distinct statements, judged for "
                "acceptance, the place of the error and the value")
    vals = edge_ints(rng, ctx.n(50, 90))
    ops = [o for o in syntax.PREC if o not in ("&&", "||", "^^", "**")]
    stmts = []
    for op in ops:
        for a in vals:
            for b in vals:
                if ctx.quick and op not in ("/", "%", "<<", ">>", "*", "+", "-") and rng.random() > 0.12:
                    continue
                if ctx.quick and rng.random() > 0.55:
                    continue
                stmts.append(["wait", "("] + int_tokens(a) + [op] + int_tokens(b) + [")", "q"])
    for a in vals:
        stmts += [["wait", "(", u] + int_tokens(a) + [")", "q"] for u in "-~"] + [["CRk", "(", "abs", "("] + int_tokens(a) + [")", ")", "q", ",", "r", "[", "0", "]"]]
        stmts += [["wait", "(", "-", "-"] + int_tokens(a) + [")", "q"], ["wait", "(", "-", "abs", "("] + int_tokens(a) + [")", ")", "q"]]
    wrap = [lambda e: ["true", "?"] + e + [":", "0"], lambda e: ["false", "?"] + e + [":", "0"], lambda e: e + ["*", "0"], lambda e: ["0", "*"] + e,
            lambda e: ["abs", "("] + e + [")"], lambda e: e + ["==", "0"], lambda e: ["~"] + e]
    for _ in range(ctx.n(800, 8000)):
        e = ["("] + int_tokens(rng.choice(vals)) + [rng.choice(ops)] + int_tokens(rng.choice(vals)) + [")"]
        for _ in range(rng.choice([1, 2, 3])):
            if rng.random() < 0.5:
                e = ["("] + rng.choice(wrap)(e) + [")"]
            else:
                e = ["("] + e + [rng.choice(ops)] + int_tokens(rng.choice(vals)) + [")"]
        stmts.append(["wait", "("] + e + [")", "q"])
        if rng.random() < 0.3:
            stmts.append(["inv", ".", "pow", "("] + e + [")", ".", "X", "q"])
    fl = ["0.", "- 0.", "1.", "- 1.", "1.7976931348623157e308", "- 1.7976931348623157e308", "2.2250738585072014e-308", "1. / 0.", "- 1. / 0.", "0. / 0.", "0.5", "1.e200", "3.", "- 2.5", "2"]
    fstm = []
    par = lambda t: ["("] + t.split(" ") + [")"]
    for a in fl:
        for b in fl:
            for op in "+ - * / ** == != < > <= >=".split():
                fstm.append(("f", par(a) + [op] + par(b)))
        for f in gen.FUNCTIONS:
            fstm.append(("f", [f] + par(a)))
        fstm += [("f", ["-"] + par(a)), ("f", ["abs"] + par(a)), ("f", ["true", "?"] + par(a) + [":", "1."])]
    judge_exprs(ctx, drv, stmts, None)
    judge_exprs(ctx, drv, [probe(k, e) for k, e in fstm], None)
    ints = []
    for s in stmts:
        ints.append(("x", s))
    cases = [Case(p).without_faults() for p in sem.packs(stmts, 36)]
    for c, o in sem.run(ctx, drv, cases):
        if o.status == "ok":
            for i, (w, g) in enumerate(zip(constants(c.r.tree), constants(semantics.clean(lang.load(o.sem))))):
                if w != g:
                    ctx.violation("%s gives %s, expected %s" % (c.show(i + len(sem.DEFS)), g, w), {"text": c.text})
    judge_values(ctx, drv, fstm)
    ctx.sample(" ".join(stmts[0]))
    ctx.sample(" ".join(stmts[-1]))


# ------------------------------------------------------------------------------------------------------------ M01
def m01(ctx):
    drv = lang.exe()
    rng = ctx.rng
    ctx.rule = ("random sequences of definitions (fresh, repeated, of names that differ in case or a suffix, of predefined names, of size zero and large) and uses before, between and "
                "after them, and random programs; distinct (statement, fault) pairs, then the variables and all links of the tree of the valid statements")
    progs = []
    names = ["a", "A", "b", "ab", "a_", "_a", "q", "Q", "pi", "eu", "tau", "Pi", "PI", "sin", "X", "x", "true_", "e", "measurex"]
    for _ in range(ctx.n(500, 8000)):
        p = [["version", "3.0"]]
        pool = rng.sample(names, rng.randrange(2, 8))
        for _ in range(rng.randrange(3, 16)):
            n = rng.choice(pool)
            k = rng.random()
            if k < 0.5:
                t = [rng.choice(["qubit", "bit"])]
                if rng.random() < 0.6:
                    t += ["[", rng.choice(["0", "1", "2", "3", "00", "7", "1000000", "9223372036854775807", "2147483648", "4294967296", "4294967297"]), "]"]
                p.append(t + [n])
            elif k < 0.62:
                p.append([rng.choice(["H", "reset"]), n])
            elif k < 0.72:
                p.append([rng.choice(["X", "init"]), n, "[", rng.choice(["0", "1"]), "]"])
            elif k < 0.82:
                p.append(["CZ", n, ",", rng.choice(pool)])
            elif k < 0.9:
                p.append([n, "=", "measure", rng.choice(pool)])
            elif k < 0.95:
                p.append(["Rx", "(", n, ")", rng.choice(pool)])
            else:
                p.append(["asm", "(", n, ")", "''''''"])
        progs.append(p)
    progs += list(lang.programs(rng, ctx.n(300, 4000), wild=0.1, faults=0.2, size=14))
    many = [["version", "3.0"]] + [[rng.choice(["qubit", "bit"]), "v%d" % i] for i in range(300)] + [["X", "v%d" % rng.randrange(300)] for _ in range(200)]
    progs.append(many)
    sem.both(ctx, drv, progs, sem.links, "variables and links",
             key=lambda c, i: (c.show(i), c.fault(i) and c.fault(i).kind), only=lambda c, i: c.fault(i) is None or c.fault(i).kind in M01_FAULTS or c.stmts[i][0] in ("qubit", "bit"))
    ctx.sample([" ".join(s) for s in progs[0]])


M01_FAULTS = {"redeclared", "array size", "unknown variable"}


# ------------------------------------------------------------------------------------------------------------ M02
def index_tokens(rng, size):
    """An index list, mostly valid."""
    def num(v):
        k = rng.random()
        if v < 0:
            return ["-", str(-v)]
        if k < 0.7:
            return [str(v)]
        if k < 0.8 and v < 2:
            return ["true" if v else "false"]
        if k < 0.9:
            return [str(v + 3), "-", "3"]
        return ["(", "(", str(v), "<<", "1", ")", "/", "2", ")"] if v < 2**61 else [str(v)]
    out = []
    for j in range(rng.choice([1, 1, 1, 2, 3, 5])):
        out += [","] if j else []
        k = rng.random()
        v = rng.choice([0, size - 1, rng.randrange(size)])
        if k < 0.5:
            out += num(v)
        elif k < 0.75:
            w = rng.randrange(v, size)
            out += num(v) + [":"] + num(w)
        elif k < 0.79:
            out += num(rng.choice([size, size + 1, 2 * size, 2**31, 2**32, 2**32 + v, 2**62, 2**63 - 1]))
        elif k < 0.83:
            out += num(rng.choice([-1, -size, -2**31, -2**32 + v, 1 - 2**63]))
        elif k < 0.87:
            out += num(v) + [":"] + num(rng.choice([size, size + 5, 2**31, 2**32, 2**32 + v, 2**40, 2**63 - 1]))
        elif k < 0.91:
            out += num(rng.choice([-1, -2**31, 1 - 2**63])) + [":"] + num(v)
        elif k < 0.94 and size > 1:
            a = rng.randrange(1, size)
            out += num(a) + [":"] + num(rng.randrange(a))
        elif k < 0.96:
            out += [rng.choice(["1.0", "0.", "2.5", "pi", "1./2", "sqrt(1)", "0.0"])]
        elif k < 0.98:
            out += [rng.choice(["q", "r", "b", "c", "r[0]", "undeclared", "1/0", "c[0]"])]
        else:
            out += num(v) + [":"] + num(v)
    return out


def m02(ctx):
    drv = lang.exe()
    rng = ctx.rng
    ctx.rule = ("index lists of items and ranges, at and beyond the ends of registers of size 1 to 10^5, with integer, boolean, float and register-valued entries and extreme numbers, "
                "on registers, single qubits and bits, constants and expressions; distinct statements judged for acceptance, then for the resolved indices")
    progs = []
    for _ in range(ctx.n(350, 6000)):
        size = rng.choice([1, 2, 3, 5, 8, 16, 17, 100])
        d = [["version", "3.0"], ["qubit", "q"], ["qubit", "[", str(size), "]", "r"], ["bit", "b"], ["bit", "[", str(size), "]", "c"], ["qubit", "[", "3", "]", "s"]]
        p = list(d)
        for _ in range(14):
            k = rng.random()
            if k < 0.72:
                p.append([rng.choice(["X", "reset", "barrier"]), "r", "["] + index_tokens(rng, size) + ["]"])
            elif k < 0.82:
                p.append(["wait", "(", "1", ")", "s", "["] + index_tokens(rng, 3) + ["]"])
            elif k < 0.9:
                i = index_tokens(rng, size)
                p.append(["c", "["] + i + ["]", "=", "measure", "r", "["] + (i if rng.random() < 0.7 else index_tokens(rng, size)) + ["]"])
            elif k < 0.95:
                p.append(["H", rng.choice(["q", "b", "pi", "eu", "u"]), "["] + index_tokens(rng, 1) + ["]"])
            else:
                p.append(["Rx", "(", rng.choice(["pi", "tau", "r", "c", "b"]), "["] + index_tokens(rng, size) + ["]", ")", "q"])
        progs.append(p)
    big = [["version", "3.0"], ["qubit", "[", "20000", "]", "r"], ["X", "r", "[", "0", ":", "19999", "]"], ["X", "r", "[", "19999", ":", "19999", "]"], ["X", "r", "[", "20000", "]"],
           ["X", "r", "[", "0", ":", "20000", "]"], ["X", "r", "[", "0", ":", "9223372036854775807", "]"], ["X", "r", "[", "19999", ",", "0", ",", "0", ":", "3", "]"]]
    huge = [["version", "3.0"], ["qubit", "[", "9223372036854775807", "]", "r"], ["X", "r", "[", "9223372036854775806", "]"], ["X", "r", "[", "9223372036854775807", "]"],
            ["X", "r", "[", "9223372036854775800", ":", "9223372036854775806", "]"], ["X", "r", "[", "9223372036854775806", ":", "9223372036854775807", "]"], ["X", "r", "[", "4294967296", "]"]]
    progs += [big, huge]
    only = lambda c, i: c.fault(i) is None or c.fault(i).kind in M02_FAULTS or (c.fault(i).kind in EXPR_FAULTS and "[" in c.stmts[i])
    sem.both(ctx, drv, progs, sem.indices, "the resolved indices", only=only, key=lambda c, i: (c.show(i), c.line[-1]))
    ctx.sample(" ".join(progs[0][-1]))
    ctx.sample(" ".join(progs[1][-2]))


M02_FAULTS = {"not an integer", "cannot be indexed", "reversed range", "index out of range"}


# ------------------------------------------------------------------------------------------------------------ M03
def operand_lists(rng, most):
    ks = "QVBWbif"
    for n in range(1, most + 1):
        yield from ("".join(t) for t in itertools.product(ks, repeat=n))


def m03(ctx):
    drv = lang.exe()
    rng = ctx.rng
    ctx.rule = ("every gate name (and near misses) on every list of one and two operand kinds and sampled lists of three and four, with and without modifiers; every non-gate instruction likewise; "
                "distinct (instruction, operand kinds), judged for acceptance and the signature in the tree")
    stmts = []
    near = ["x", "Cnot", "CNOT2", "h", "Rk", "RX", "1q_X", "mX", "measure_", "Toffoli", "operator", "sin", "II", "Sdagger", "CCX", "_"]
    near = [n for n in near if not n[0].isdigit()]

    mods = [[], [], [], ["inv", "."], ["pow", "(", "2", ")", "."], ["ctrl", "."], ["inv", ".", "ctrl", "."], ["ctrl", ".", "inv", "."],
            ["pow", "(", "2", ")", ".", "inv", "."], ["ctrl", ".", "pow", "(", "3", ")", "."], ["ctrl", ".", "ctrl", "."]]

    def arrays():
        return {"V": {2: ["r", "[", "0", ":", "1", "]"], 3: ["r", "[", "0", ",", "2", ",", "1", "]"], 5: ["r"], 1: rng.choice([["r1"], ["s1"]])}, "W": {1: ["c1"], 2: ["c", "[", "3", ",", "0", "]"], 3: ["c", "[", "1", ":", "3", "]"], 5: ["c"]}}

    def equal(kinds):
        """Operand texts that select equally many elements where that is possible."""
        n = rng.choice([2, 3, 5])
        arr = arrays()
        if set(kinds) & set("VW") and set(kinds) & set("QB") and rng.random() < 0.8:
            n = 1       # a register of size one is still a register
        return [arr[k][n] if k in "VW" else rng.choice(KINDS[k]).split(" ") for k in kinds]
    defs = sem.DEFS + [["qubit", "[", "1", "]", "r1"], ["bit", "[", "1", "]", "c1"], ["qubit", "[", "1", "]", "s1"]]
    gates = gen.SINGLE + gen.DOUBLE
    for g in gates + near:
        lists = list(operand_lists(rng, 2))
        lists += ["".join(rng.choice("QVQVQVBWbif") for _ in range(rng.choice([3, 3, 4]))) for _ in range(ctx.n(40, 100))]
        pure = [k for k in lists if set(k) <= set("QV")]
        if ctx.quick:
            rest = [k for k in lists if not set(k) <= set("QV")]
            lists = pure + rng.sample(rest, 60)
        for ks in lists + pure * 3:
            ops = equal(ks)
            prm = gen.Gen(rng).param_tokens(gen.GATE_PARAMS.get(g, "")) if g in gates else rng.choice([[], ["(", "1", ")"]])
            if prm and "." in "".join(prm) and rng.random() < 0.8:
                prm = ["("] + [t for i in range(len(gen.GATE_PARAMS.get(g, "f"))) for t in ([","] if i else []) + ["1"]] + [")"]
            mod = rng.choice(mods)
            stmts.append((g, ks, mod, mod + [g] + prm + [t for i, o in enumerate(ops) for t in ([","] if i else []) + o]))
        # every operand list a gate might take, of equal sizes, below every modifier
        plain = ["("] + [t for i in range(len(gen.GATE_PARAMS[g])) for t in ([","] if i else []) + ["1"]] + [")"] if g in gen.GATE_PARAMS else []
        for ks in ("Q", "V", "QQ", "QV", "VQ", "VV", "QQQ", "VVV"):
            for mod in mods:
                for n in (1, rng.choice([2, 3, 5])):
                    if n == 1 or "Q" not in ks:
                        ops = [arrays()[k][n] if k == "V" else rng.choice(KINDS[k]).split(" ") for k in ks]
                        stmts.append((g, ks, mod, mod + [g] + plain + [t for i, o in enumerate(ops) for t in ([","] if i else []) + o]))
    for n in ("reset", "init", "barrier", "wait"):
        for ks in "QVBWbif" * 2 + "V" * 3:
            for _ in range(2):
                stmts.append((n, ks, [], [n] + (["(", "3", ")"] if n == "wait" else []) + (["s1"] if ks == "V" and rng.random() < 0.4 else rng.choice(KINDS[ks]).split(" "))))
    for a in "QVBWbif":
        for b in "QVBWbif":
            for prm in ([], ["(", "1", ",", "2.", ",", "3", ")"]):
                x, y = equal(a + b)
                stmts.append(("measure", a + b, [], x + ["=", "measure"] + prm + y))
    rng.shuffle(stmts)
    keys = {" ".join(s[3]): (s[0], s[1], tuple(s[2])) for s in stmts}
    progs = list(sem.packs([s[3] for s in stmts], 40, defs))
    only = lambda c, i: c.fault(i) is None or c.fault(i).kind in ("no such instruction", "unknown gate")
    sem.both(ctx, drv, progs, sem.signature, "the signature", key=lambda c, i: keys.get(c.show(i), c.show(i)), only=only)
    ctx.sample(" ".join(stmts[0][3]))
    ctx.sample(" ".join(stmts[1][3]))


# ------------------------------------------------------------------------------------------------------------ M04
def m04(ctx):
    drv = lang.exe()
    rng = ctx.rng
    ctx.rule = ("two-operand gates and measurements on all pairs of operand shapes (single, whole register, index of length one to seven) from registers of several sizes; distinct "
                "(instruction, shapes), judged for acceptance and for the operands in the tree")
    sizes = [1, 2, 3, 5, 7]
    defs = [["version", "3.0"], ["qubit", "q"], ["qubit", "p"], ["bit", "b"]]
    for s in sizes:
        defs += [["qubit", "[", str(s), "]", "r%d" % s], ["bit", "[", str(s), "]", "c%d" % s]]

    def shapes(bit):
        out = [(1, ["b"] if bit else ["q"])]
        n = "c" if bit else "r"
        for s in sizes:
            out.append((s, [n + str(s)]))
            for k in range(1, 8):
                if k <= s and rng.random() < 0.5:
                    a = rng.randrange(s - k + 1)
                    out.append((k, [n + str(s), "[", str(a), ":", str(a + k - 1), "]"]))
                else:
                    out.append((k, [n + str(s), "["] + [t for i in range(k) for t in ([","] if i else []) + [str(rng.randrange(s))]] + ["]"]))
        return out
    stmts = []
    for _ in range(ctx.n(2, 20)):
        A, B, C = shapes(False), shapes(False), shapes(True)
        for (n, x) in A:
            for (m, y) in B:
                if n != m and rng.random() < 0.5:
                    continue
                stmts.append(rng.choice([["CNOT"], ["CZ"], ["SWAP"], ["CR", "(", "1.", ")"], ["CRk", "(", "2", ")"], ["ctrl", ".", "X"], ["ctrl", ".", "inv", ".", "H"]]) + x + [","] + y)
            for (m, y) in C:
                if n != m and rng.random() < 0.5:
                    continue
                stmts.append(y + ["=", "measure"] + rng.choice([[], [], ["(", "1", ",", "0", ",", "0", ")"]]) + x)
    rng.shuffle(stmts)
    progs = list(sem.packs(stmts, 40, defs))
    only = lambda c, i: c.fault(i) is None or c.fault(i).kind == "different sizes"
    sem.both(ctx, drv, progs, sem.operands, "the operands", only=only)
    ctx.sample(" ".join(stmts[0]))
    ctx.sample(" ".join(stmts[1]))


# ------------------------------------------------------------------------------------------------------------ M05
def m05(ctx):
    drv = lang.exe()
    rng = ctx.rng
    ctx.rule = ("every stack of up to three modifiers (and random ones up to eight, some of twelve and fifty) on single- and two-qubit gates, on one and two operands, with exponents of all types; "
                "distinct (modifiers, gate, operand count), judged for acceptance and for the chain in the tree")
    stmts = []
    g = gen.Gen(rng)
    mods = ["inv", "ctrl", "pow"]
    stacks = [s for n in range(4) for s in itertools.product(mods, repeat=n)]
    stacks += [tuple(rng.choice(["inv", "pow", "inv", "pow", "ctrl"]) for _ in range(rng.choice([4, 5, 8, 12]))) for _ in range(ctx.n(250, 2000))]
    stacks += [tuple(rng.choice(["inv", "pow"]) for _ in range(50)) for _ in range(3)] + [("ctrl",) + tuple(rng.choice(["inv", "pow"]) for _ in range(rng.randrange(9))) for _ in range(30)]
    for st in stacks:
        for gate in rng.sample(gen.SINGLE, 4) + rng.sample(gen.DOUBLE, 2):
            for two in (False, True):
                m = []
                for x in st:
                    m += [x] + (["("] + g.ex(g.const(rng.choice("bif"), rng.choice([0, 1, 2]))) + [")"] if x == "pow" else []) + ["."]
                prm = g.param_tokens(gen.GATE_PARAMS.get(gate, ""))
                stmts.append((st, gate, two, m + [gate] + prm + rng.choice([["q"], ["r", "[", "3", "]"]] if not two else [["q", ",", "r", "[", "0", "]"], ["r", "[", "0", "]", ",", "q"],
                                                                                                                        ["r", ",", "r"], ["r", "[", "0", ":", "1", "]", ",", "r", "[", "2", ",", "4", "]"]])))
    # misplaced or missing exponents are M06's; here some gates that do not exist, below modifiers
    for st in (("inv",), ("ctrl",), ("pow",)):
        for gate in ("x", "Foo", "cnot"):
            stmts.append((st, gate, False, [st[0]] + (["(", "2", ")"] if st[0] == "pow" else []) + [".", gate, "q"]))
    rng.shuffle(stmts)
    keys = {" ".join(s[3]): (s[0], s[1], s[2]) for s in stmts}
    progs = list(sem.packs([s[3] for s in stmts], 40))
    only = lambda c, i: c.fault(i) is None or c.fault(i).kind in ("no such instruction", "modifier on a multi-qubit gate", "unknown gate")
    sem.both(ctx, drv, progs, sem.chain, "the modifiers", key=lambda c, i: keys.get(c.show(i), c.show(i)), only=only, ulps=4)
    ctx.sample(" ".join(stmts[0][3]))
    ctx.sample(" ".join(stmts[1][3]))


# ------------------------------------------------------------------------------------------------------------ M06
def m06(ctx):
    drv = lang.exe()
    rng = ctx.rng
    ctx.rule = ("every gate, modifier and non-gate instruction with zero to six parameters of every mixture of kinds (bool, int, float, register, single, index), integers beyond 2^53 included; "
                "distinct (instruction, parameter kinds), judged for acceptance and for the promoted values in the tree")
    stmts = []

    def plist(kinds):
        if not kinds:
            return []
        out = ["("]
        for i, k in enumerate(kinds):
            e = rng.choice(KINDS[k]).split(" ") if rng.random() < 0.5 else \
                [str(rng.choice([2**53 + 1, 2**62 + 1, 2**63 - 1, rng.randrange(2**40)]))] if k == "i" else ["%d.%d" % (rng.randrange(99), rng.randrange(1, 9999))] if k == "f" else KINDS[k][0].split(" ")
            out += ([","] if i else []) + e
        return out + [")"]

    def lists(types, names):
        n = len(types)
        out = [types, "".join(rng.choice("bif") for _ in range(n)), "".join(rng.choice("bi") for _ in range(n))]
        out += ["".join(rng.choice("bif") for _ in range(m)) for m in range(0, 7) if m != n]
        for i in range(n):
            for k in "bifQVBW":
                out.append(types[:i] + k + types[i + 1:])
        return [o for o in dict.fromkeys(out)]
    for gate in gen.SINGLE + gen.DOUBLE:
        ops = ["q"] if gate in gen.SINGLE else ["q", ",", "r", "[", "2", "]"]
        for ks in lists(gen.GATE_PARAMS.get(gate, ""), gate):
            stmts.append((gate, ks, [gate] + plist(ks) + ops))
            if rng.random() < 0.3 and gate in gen.SINGLE:
                stmts.append(("inv." + gate, ks, ["inv", ".", gate] + plist(ks) + ops))
                stmts.append(("ctrl." + gate, ks, ["ctrl", ".", gate] + plist(ks) + ["q", ",", "r", "[", "1", "]"]))
    for ks in lists("f", "pow"):
        for tail in (["X", "q"], ["Rx", "(", "1", ")", "q"], ["inv", ".", "H", "r"]):
            stmts.append(("pow", ks + "/" + tail[0], ["pow"] + plist(ks) + ["."] + tail))
    for ks in lists("", "inv"):
        stmts.append(("inv()", ks, ["inv"] + plist(ks) + [".", "X", "q"]))
        stmts.append(("ctrl()", ks, ["ctrl"] + plist(ks) + [".", "X", "q", ",", "r", "[", "0", "]"]))
    for ks in lists("i", "wait") * 2:
        stmts.append(("wait", ks, ["wait"] + plist(ks) + rng.choice([["q"], ["r"]])))
    for ks in lists("fff", "measure") + lists("", "measure"):
        stmts.append(("measure", ks, ["b", "=", "measure"] + plist(ks) + ["q"]))
        stmts.append(("measure2", ks, ["c", "=", "measure"] + plist(ks) + ["r"]))
    rng.shuffle(stmts)
    keys = {" ".join(s[2]): (s[0], s[1]) for s in stmts}
    progs = list(sem.packs([s[2] for s in stmts], 40))
    for _ in range(ctx.n(120, 3000)):
        g = gen.Gen(rng)
        g.vars = [("q", "Q", 1), ("r", "V", 5)]
        out = []
        for _ in range(25):
            gate = rng.choice(list(gen.GATE_PARAMS))
            out.append([gate] + g.param_tokens(gen.GATE_PARAMS[gate]) + (["q"] if gate in gen.SINGLE else ["q", ",", "r", "[", "0", "]"]))
        progs.append(sem.DEFS + out)
    only = lambda c, i: c.fault(i) is None or c.fault(i).kind in ("number of parameters", "type of parameter")
    sem.both(ctx, drv, progs, sem.parameters, "the parameters", key=lambda c, i: keys.get(c.show(i), c.show(i)), only=only, ulps=4)
    ctx.sample(" ".join(stmts[0][2]))
    ctx.sample(" ".join(stmts[1][2]))


# ------------------------------------------------------------------------------------------------------------ M07
def m07(ctx):
    drv = lang.exe()
    rng = ctx.rng
    ctx.rule = ("random programs of up to sixty statements with faulty ones at any places (none, some, all, in runs, first and last); the statements that are left, the errors and their order, and "
                "the tree of the program without its faulty statements; distinct programs")
    progs = []
    for i in range(ctx.n(420, 8000)):
        f = rng.choice([0, 0.05, 0.2, 0.5, 0.9, 1])
        p = gen.Gen(rng).program(rng.choice([0, 1, 3, 8, 15, 30, 60]), faults=f)
        if rng.random() < 0.3:
            a = rng.randrange(len(p) - 1) + 1
            p = p[:a] + p[a:][::-1]      # uses before definitions
        if rng.random() < 0.2:
            k = rng.randrange(1, len(p))
            p.insert(k, p[k])            # the same statement twice
        progs.append(p)
    cases = [Case(p) for p in progs]
    second = []
    for c, o in sem.run(ctx, drv, cases):
        ctx.seen(c.text)
        ctx.count("faulty statements", len(c.r.faulty))
        ctx.count("accepted statements", len(c.r.statements))
        if not sem.acceptance(ctx, c, o, count=False):
            continue
        lines = [e.range[0] for e in o.errors]
        if lines != sorted(lines):
            ctx.violation("errors out of source order: %s" % lines, {"text": c.text})
        if o.status == "err":
            part = lang.load(o.sem)
            if part is not None:
                d = semantics.diff(lang.strip(lang.model_names(c.r.tree)["block"]), lang.strip(lang.tree_names(part)["block"]), ulps=64)
                if d:
                    ctx.violation("the statements around a faulty one differ: %s" % d, {"text": c.text})
        second.append(c.without_faults())
    ctx.count("trees compared", sem.trees(ctx, drv, second, ulps=64, pick=lambda t: lang.strip(t)))
    ctx.sample([" ".join(s) for s in progs[0]][:12])


# ------------------------------------------------------------------------------------------------------------ M08
def m08(ctx):
    drv = lang.exe()
    rng = ctx.rng
    ctx.rule = ("random programs with many kinds of faults in random layouts, with and without file name; distinct (fault kind, statement), the range and file of every error compared with "
                "those of the innermost construct at fault")
    for file in (None, lang.FILE, "f"):
        progs = [gen.Gen(rng).program(rng.randrange(2, 12), faults=0.8) for _ in range(ctx.n(350, 7000))]
        progs += [gen.Gen(rng).wild_program(rng.randrange(2, 8)) for _ in range(ctx.n(150, 3000))]
        texts = [gen.layout(p, rng) for p in progs]
        texts += [lang.far(rng, t) for t in rng.sample(texts, 12)] + lang.big(rng) + lang.big(rng, 1100, 130, 1)
        for t, o in zip(texts, lang.analyze(ctx, drv, texts, file)):
            if o is None or o.status == "parse-err":
                continue
            p, r = lang.model(t, file)
            if r is None or len(o.errors) != len(r.errors):
                continue                   # that is M07's
            for e, f in zip(o.errors, r.errors):
                if f.kind == "not an integer":
                    f.kind += " "
                where = f.loc
                ctx.seen((f.kind, t[:2000], e.range))
                ctx.count("errors located")
                ctx.count("errors " + f.kind.strip())
                if where is None:
                    continue
                if list(e.range) != where[:4]:
                    ctx.violation("error at %s, expected at %s (%s): %s" % (e.range, where[:4], f.kind, e), {"text": t, "file": file})
                elif (e.file or None) != (file or None):
                    ctx.violation("error names file %r, expected %r" % (e.file, file), {"text": t, "file": file})
    ctx.sample(texts[0][:300])


# ------------------------------------------------------------------------------------------------------------ M11
CODE = {"Qubit": "Q", "QubitArray": "V", "Bit": "B", "BitArray": "W", "Bool": "b", "Int": "i", "Float": "f"}
SIG = {}
for _g in gen.SINGLE:
    SIG[_g] = {"Q", "V"}
for _g in gen.DOUBLE:
    SIG[_g] = {"QQ", "QV", "VQ", "VV"}
for _n, _o in semantics.NONGATE_OPERANDS.items():
    SIG[_n] = set(_o)


def inconsistent(tree):
    """The first thing in a semantic tree that does not fit the rest of it, or None.  Knows nothing of the source."""
    ids = {}
    if tree is None or tree.get("@") != "Program":
        return "no program"
    if not tree.get("version") or not tree.get("block"):
        return "no version or no block"
    for v in tree["variables"]:
        if not v.get("name") or not v.get("typ"):
            return "a variable without name or type"
        c = CODE.get(v["typ"]["@"])
        if c is None or v["typ"]["size"] < 1 or (c in "QB" and v["typ"]["size"] != 1):
            return "variable %s has type %s" % (v["name"], v["typ"])
        if v["#"] in ids:
            return "a variable listed twice"
        ids[v["#"]] = v
    if len({v["name"] for v in tree["variables"]}) != len(tree["variables"]):
        return "two variables with one name"
    for s in tree["block"]["statements"]:
        k = s["@"]
        if k == "AsmDeclaration":
            if not s["backend_name"]:
                return "an asm declaration without backend"
            continue
        if k not in ("GateInstruction", "NonGateInstruction"):
            return "a statement of kind " + k
        ref = s.get("instruction_ref")
        if not ref:
            return "an instruction without signature"
        types, sizes, qubits, bits = "", set(), 0, 0
        for o in s["operands"]:
            if o["@"] not in ("VariableRef", "IndexRef"):
                return "an operand of kind " + o["@"]
            v = ids.get((o["variable"] or {}).get("->"))
            if v is None:
                return "a link to a variable that is not in the tree"
            c, size = CODE[v["typ"]["@"]], v["typ"]["size"]
            if o["@"] == "IndexRef":
                if c not in "VW":
                    return "an index on a single"
                for i in o["indices"]:
                    if i["@"] != "ConstInt" or not 0 <= i["value"] < size:
                        return "index %s of %s (size %d)" % (i, v["name"], size)
                size = len(o["indices"])
                if not size:
                    return "an empty index"
                c = {"V": "Q", "W": "B"}[c] if size == 1 else c
            types += c
            sizes.add(size)
            if c in "QV":
                qubits += size
            else:
                bits += size
        sig = "".join(CODE[t["@"]] for t in ref["operand_types"])
        if sig != types:
            return "operands %s under signature %s" % (types, sig)
        if k == "GateInstruction":
            g, depth, names = s["gate"], 0, []
            while g:
                names.append(g["name"])
                want = semantics.MODIFIER_PARAMS.get(g["name"]) if g.get("gate") else semantics.GATE_PARAMS.get(g["name"], "")
                if want is None or (not g.get("gate") and g["name"] not in gen.SINGLE + gen.DOUBLE):
                    return "a gate named " + g["name"]
                got = "".join(CODE.get(p["@"].replace("Const", ""), "?") for p in g["parameters"])
                if got != want:
                    return "gate %s has parameters %s, its signature %s" % (g["name"], got, want)
                g, depth = g.get("gate"), depth + 1
            if not names:
                return "a gate instruction without gate"
            if any(n in ("inv", "pow", "ctrl") for n in names[-1:]) or (len(names) > 1 and (names[-1] in gen.DOUBLE or "ctrl" in names[1:])):
                return "a chain of gates %s" % names
            two = names[0] == "ctrl" or names[0] in gen.DOUBLE
            if len(sig) != (2 if two else 1) or set(sig) - set("QV"):
                return "gate %s under signature %s" % (names, sig)
            want = names[0] if len(names) == 1 else ("2q_" if two else "1q_") + names[-1]
            if ref["name"] != want:
                return "gate %s refers to signature %s" % (names, ref["name"])
            if len(sizes) > 1:
                return "operands of different sizes"
        else:
            if ref["name"] != s["name"] or s["name"] not in semantics.NONGATES:
                return "instruction %s refers to signature %s" % (s["name"], ref["name"])
            if sig not in SIG[s["name"]]:
                return "instruction %s has signature %s" % (s["name"], sig)
            got = "".join(CODE.get(p["@"].replace("Const", ""), "?") for p in s["parameters"])
            if got not in semantics.NONGATES[s["name"]]:
                return "instruction %s has parameters %s" % (s["name"], got)
            if s["name"] == "measure" and qubits != bits:
                return "a measurement of %d qubits into %d bits" % (qubits, bits)
        if not s.get("%"):
            return "an instruction without location"
    return None


def m11(ctx):
    drv = lang.exe()
    rng = ctx.rng
    ctx.rule = ("every semantic tree returned without errors, on random programs with few faults, mutated programs and the repository's examples; distinct texts. The walker knows only "
                "the tree, not the text")
    texts = [gen.layout(p, rng) for p in lang.programs(rng, ctx.n(900, 20000), wild=0.05, faults=0.01, size=16)]
    for p in lang.programs(rng, ctx.n(1600, 20000), wild=0.02, faults=0.05, size=5):
        q = lang.mutate_tokens(rng, p)
        texts.append(gen.layout([s for s in q if s], rng))
    texts += [c.decode("utf-8", "surrogateescape") for c in lang.corpus()]
    for t, o in zip(texts, lang.analyze(ctx, drv, texts, "f")):
        if o is None or o.status != "ok":
            continue
        tree = lang.load(o.sem)
        ctx.seen(t)
        ctx.count("statements", len(tree["block"]["statements"]) if tree else 0)
        bad = inconsistent(tree)
        if bad:
            ctx.violation("inconsistent tree: %s" % bad, {"text": t})
    ctx.sample(texts[0][:300])


# ------------------------------------------------------------------------------------------------------------ M12
def m12(ctx):
    drv = lang.exe()
    rng = ctx.rng
    ctx.rule = ("version statements of one or two components around 3.0, in the grammar's spellings, before valid and faulty programs; API versions asked of the analyzer; distinct "
                "(version, program) pairs: error count and place, the version in both trees and the statements")
    spell = ["3", "3.0", "03", "003.000", "3.00", "0003", "3.1", "3.01", "3.10", "2", "2.0", "4", "4.0", "1.0", "0", "0.0", "0.3", "30", "3.9", "30.0", "33", "1", "999", "2147483647",
             "3.2147483647", "3.1000000", "0.30", "13", "3.3", "2.9", "2.99", "4.3", "00.0"]
    bodies = [[], [["qubit", "q"], ["X", "q"]], [["qubit", "q"], ["X", "q"], ["X", "u"]], [["X", "u"]], [["asm", "(", "a", ")", "'''version 3.1'''"]]]
    cases = []
    for v in spell + ["%d.%d" % (rng.randrange(6), rng.randrange(3)) for _ in range(ctx.n(30, 300))] + [str(rng.randrange(10**rng.randrange(1, 9))) for _ in range(ctx.n(40, 400))]:
        for b in bodies + [next(lang.programs(rng, 1, wild=0, faults=0.2))[1:]]:
            cases.append(Case([["version", v]] + b, "f"))
    for c, o in sem.run(ctx, drv, cases, file="f"):
        v = c.stmts[0][1]
        ctx.seen((v, c.text))
        want = any(e.kind == "version" for e in c.r.errors)
        ctx.count("rejected versions" if want else "accepted versions")
        if not sem.acceptance(ctx, c, o, count=False):
            continue
        at = [e for e in o.errors if e.range[0] == 1]
        if want and list(at[0].range) != c.r.errors[0].loc[:4]:
            ctx.violation("the version error is at %s, expected %s" % (at[0].range, c.r.errors[0].loc[:4]), {"text": c.text})
        if o.status == "ok":
            t = semantics.clean(lang.load(o.sem))
            if t["version"]["items"] != [int(x) for x in v.split(".")] or trim(t["api_version"]) != [3]:
                ctx.violation("version %s became %s (API version %s)" % (v, t["version"], t["api_version"]), {"text": c.text})
        elif lang.load(o.sem) is not None and want:
            d = semantics.diff(lang.strip(lang.model_names(c.r.tree)["block"]), lang.strip(lang.tree_names(lang.load(o.sem))["block"]), ulps=64)
            if d:
                ctx.violation("the statements after a bad version differ: %s" % d, {"text": c.text})
    asked = ["3.0", "3", "3.0.0", "3.00", "03.0", "3.0.0.0", "", "3.1", "2.0", "4.0", "0", "0.0", "3.0.1", "30", "1.0", "3.0.0.1", "03", "2", "2.9", "33", "13.0"]
    res = ctx.run(drv, [["ctor", a] for a in asked], shards=1)
    for a, r in zip(asked, res):
        ctx.seen(("api", a))
        want = trim([int(x) for x in a.split(".") if x]) == [3]
        if isinstance(r, Crash):
            ctx.violation("constructing an analyzer for %r: %r" % (a, r), {"api": a})
            continue
        for how, got in zip(("Analyzer", "default_analyzer", "V3xAnalyzer", "V3xAnalyzer without defaults", "analyze_string"), r):
            got = got.decode("utf-8", "replace")
            if want != (got == "ok"):
                ctx.violation("%s for version %r: %s" % (how, a, got), {"api": a})
    ctx.sample(cases[7].text)


def trim(v):
    v = list(v)
    while v and v[-1] == 0:
        v.pop()
    return v


# ------------------------------------------------------------------------------------------------------------ M14
def named(about, message):
    """What of it the message does not name; every number or name has to stand there on its own."""
    missing = []
    spans = []
    for a in about:
        for alt in a if isinstance(a, tuple) else (a,):
            words = alt.strip("'")
            hit = None
            for m in re.finditer(re.escape(words), message):
                before, after = message[:m.start()][-1:], message[m.end():]
                if re.match(r"[\w-]", before) or (words[-1:].isalnum() and re.match(r"\w|\.\d", after)):
                    continue
                if any(m.start() < t and s < m.end() for s, t in spans):
                    continue
                hit = m.span()
                break
            if hit:
                spans.append(hit)
                break
        else:
            missing.append(a)
    return missing


def m14(ctx):
    drv = lang.exe()
    rng = ctx.rng
    ctx.rule = ("programs in which most statements are faulty, of every kind of fault at every place; the message of every error has to name, apart from the quoted names of "
                "others, what the reference says is at fault; distinct (fault, what is named)")
    progs = [gen.Gen(rng).program(rng.randrange(2, 14), faults=0.85) for _ in range(ctx.n(900, 20000))]
    progs += [gen.Gen(rng).wild_program(rng.randrange(2, 8)) for _ in range(ctx.n(250, 5000))]
    for v in ("3.1", "1.0", "0", "3.0.1", "2", "30", "4.0.0", "03.1"):
        progs.append([["version", v], ["qubit", "q"], ["X", "q"]])
    texts = [gen.layout(p, rng) for p in progs]
    for t, o in zip(texts, lang.analyze(ctx, drv, texts, None)):
        if o is None or o.status == "parse-err":
            continue
        p, r = lang.model(t, None)
        if r is None or len(o.errors) != len(r.errors):
            continue                   # that is M07's
        for e, f in zip(o.errors, r.errors):
            ctx.count("errors " + f.kind.strip())
            if not e.message.strip():
                ctx.violation("an error without message (%s)" % f.kind, {"text": t})
            if not f.about:
                continue
            ctx.seen((f.kind, str(f.about)))
            missing = named(f.about, e.message)
            if missing:
                ctx.violation("%s: the message does not name %s: %s" % (f.kind, missing, e.message), {"text": t})
    ctx.sample(texts[0])


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "M01": m01, "M02": m02, "M03": m03, "M04": m04, "M05": m05, "M06": m06, "M07": m07, "M08": m08, "M11": m11, "M14": m14, "M12": m12}
