"""Checks of the programming interface: sessions, configuration, wrappers, files, types and serialisation."""
import hashlib
import json
import math
import os
import re
import shutil
import struct
import sys
import urllib.parse

import build
import lang
from checks_util import BadJson, check_error_value, strict_json
from harness import Crash, pack, unpack_all
from model import gen, semantics, syntax


def api(flavor="asan"):
    return build.build_full("api", "api.cpp", flavor, extra_srcs=["emscripten/emscripten_wrapper.cpp"])


def fields(b):
    return unpack_all(b)[0]


def show(x):
    return x.decode("utf-8", "backslashreplace") if isinstance(x, bytes) else x


def ran(ctx, r, what, replay):
    """Whether there is an answer to look at."""
    if r is None:
        return False
    if isinstance(r, Crash):
        ctx.violation("%s: %r" % (what, r), replay)
        return False
    return True


def hostile_text(rng):
    k = rng.randrange(6)
    if k == 0:
        return gen.layout(gen.Gen(rng).wild_program(rng.randrange(1, 8)), rng)
    if k == 1:
        p = next(lang.programs(rng, 1, wild=0.3, faults=0.3))
        return gen.layout([s for s in lang.mutate_tokens(rng, p) if s], rng)
    if k == 2:
        return lang.mutate_text(rng, next(lang.texts(rng, 1)))
    if k == 3:
        return next(lang.texts(rng, 1, wild=0, faults=0.5, size=25))
    return next(lang.texts(rng, 1, wild=0.1, faults=0.1))


# ------------------------------------------------------------------------------------------------------------ M09
SHARED = ["version 3.0\nqubit q\nX q\n", "version 3.0\nX q\n", "version 3.0\nqubit[3] q\nX q[2]\n", "version 3.0\nbit q\nX q\n", "version 3\nqubit pi\n", "version 3.0\nqubit q\nRx(pi) q\n",
          "version 3.0\nqubit q\nRx(seven) q\n", "version 3.0\nqubit[2] q\nH q[0], q[1]\n", "version 2.0\nqubit q\nqubit q\n", "", "version 3.0", "version 3.0\nqubit q\nX q, q\nX q\n",
          "version 3.0\nqubit[2] q;bit[2] b\nb = measure q\nreset q\n", "version 3.0\nqubit q; qubit seven\nctrl.X q, q\n", "version 3.0\nasm(a) '''q'''\n", "version 3.0; qubit q; X q ;; @\n"]
BOOM = ["version 3.0\nqubit q\nX q\nRx(boom()) q\nY q\n", "version 3.0\nqubit[3] r\nbit b\nH r\nX r[boom()]\n", "version 3.0\nqubit z\nwait(boom(1)) z\nwait(boom()) z", "version 3.0\nqubit q\nRx(1 + boom()) q\n",
        "version 3.0\nqubit q\npow(boom()).X q\n", "version 3.0\nqubit r\nX boom()\n"]


def m09(ctx):
    drv = api()
    rng = ctx.rng
    ctx.rule = ("random histories of up to twenty analyses (of strings, parse results, programs, through a copy, through the wrappers, with failures of every phase and exceptions out of a registered "
                "function between them) on one analyzer, each compared with a fresh analyzer; everything returned is read again at the end; distinct histories")
    reqs = []
    large = lang.big(rng)
    for i in range(ctx.n(420, 8000)):
        cfg = rng.choice(["", "", "s", "e", "se"])
        r = ["session", cfg]
        own = [next(lang.texts(rng, 1, wild=0.1, faults=0.3)) for _ in range(3)]
        for _ in range(rng.choice([2, 3, 5, 8, 20])):
            k = rng.random()
            t = rng.choice(SHARED) if k < 0.4 else rng.choice(large) if k < 0.41 else rng.choice(BOOM) if k < 0.5 else rng.choice(own) if k < 0.8 else hostile_text(rng)
            r += [rng.choice("sssspppnncwwjWx"), t, rng.choice(["-", "+f", "+", "+other name"])]
        reqs.append(r)
    for r, o in zip(reqs, ctx.run(drv, reqs)):
        replay = {"request": [show(x) for x in r]}
        if not ran(ctx, o, "session", replay):
            continue
        n = (len(r) - 2) // 3
        ctx.seen(tuple(r))
        if len(o) != 2 * n + 1:
            ctx.violation("a session of %d steps gave %d answers" % (n, len(o)), replay)
            continue
        for i in range(n):
            how = r[2 + 3 * i]
            a, b = fields(o[i]), fields(o[n + i])
            ctx.count("analyses")
            ctx.count("ended: " + show(a[0]) + (" " + show(a[1]) if a[0] == b"throw" else ""))
            if a != b:
                d = next((x, y) for x, y in zip(a + [b"(nothing)"], b + [b"(nothing)"]) if x != y)
                ctx.violation("step %d (%s) gives %s, a fresh analyzer %s" % (i, how, show(d[0])[:600], show(d[1])[:600]), replay)
                break
        if o[-1] != b"same":
            ctx.violation("at the end: " + show(o[-1]), replay)
    ctx.sample([show(x) for x in reqs[0][:8]])


# ------------------------------------------------------------------------------------------------------------ M10
def m10(ctx):
    drv = api()
    rng = ctx.rng
    ctx.rule = ("every text parsed twice and analysed six ways in one process, with snapshots of the syntax tree around each, then with trees destroyed and written to; all of it again in another "
                "process in another order; distinct texts")
    texts = [hostile_text(rng) for _ in range(ctx.n(1100, 25000))] + SHARED + lang.big(rng) + lang.big(rng, 1100, 130, 1) + [show(c) for c in lang.corpus()]
    texts = list(dict.fromkeys(texts))
    seen = {}
    for rnd in range(2):
        order = list(texts)
        rng.shuffle(order)
        groups = [order[i:i + 12] for i in range(0, len(order), 12)]
        res = ctx.run(drv, [["twice", "+f"] + g for g in groups])
        for g, r in zip(groups, res):
            if isinstance(r, Crash):
                single = ctx.run(drv, [["twice", "+f", t] for t in g])
                for t, s in zip(g, single):
                    ran(ctx, s, "repeated analysis", {"text": t})
                continue
            if r is None:
                continue
            for t, x in zip(g, r):
                f = fields(x)
                if f[0] == b"throw":
                    ctx.violation("an exception got out: %s" % f[1:], {"text": t})
                    continue
                ctx.seen(t)
                if f[1]:
                    ctx.violation(show(f[1]), {"text": t})
                if t in seen and seen[t] != (f[2], f[3]):
                    ctx.violation("the result depends on what was processed before", {"text": t})
                seen[t] = (f[2], f[3])
                ctx.count("analyses compared", 6 if f[3] else 0)
    ctx.sample(texts[0][:300])


# ------------------------------------------------------------------------------------------------------------ M13
def squeeze(b):
    return b"".join(b.split())


def m13(ctx):
    drv = api()
    rng = ctx.rng
    ctx.rule = ("texts that fail to parse, fail to analyse with up to twenty errors, or succeed: errors of both phases compared one by one, and what unwrapping returns, throws and writes to a given "
                "stream, standard output and the default stream; distinct texts")
    texts = [hostile_text(rng) for _ in range(ctx.n(500, 10000))] + [lang.token_soup(rng, 6) for _ in range(ctx.n(100, 2000))] + SHARED + lang.big(rng) + lang.big(rng, 1100, 130, 2)
    texts += [next(lang.texts(rng, 1, wild=0, faults=0.9, size=40)) for _ in range(ctx.n(100, 2000))]
    files = [rng.choice(["-", "+f", "+dir/ü \"x\".cq"]) for _ in texts]
    for t, fl, o in zip(texts, files, ctx.run(drv, [["phases", t, f] for t, f in zip(texts, files)])):
        replay = {"text": t, "file": fl}
        if not ran(ctx, o, "phases", replay):
            continue
        if o[0] == b"throw":
            ctx.violation("an exception got out: %s" % o[1:], replay)
            continue
        ctx.seen(t)
        status, ptree, rtree, r2tree = [show(x) for x in o[:4]]
        p, r, r2 = [fields(x) for x in o[4:7]]
        ctx.count(status)
        if r[1:] != r2[1:]:
            ctx.violation("analysing the parse result and analysing the text differ", replay)
        if status == "parse-err":
            if rtree or r2tree:
                ctx.violation("a semantic tree for a text that does not parse", replay)
            if p[2:] != r[2:] or p[2:] != r2[2:]:
                ctx.violation("errors of the parse %s became %s" % (p[2:], r[2:] if p[2:] != r[2:] else r2[2:]), replay)
        elif ptree != "tree" or (status == "ok" and rtree != "tree"):
            ctx.violation("a tree is missing", replay)
        whats = r[2::2]
        ctx.count("errors", len(whats))
        if (status == "ok") != (not whats):
            ctx.violation("status %s with errors %s" % (status, whats), replay)
        for form, x in enumerate(o[7:11]):
            f = fields(x)
            name = ("unwrap(stream)", "unwrap(std::cout)", "unwrap()", "analyze_string()")[form]
            outs = f[-3:]      # standard output, standard error, the stream
            if not outs[2].startswith(b"before|"):
                ctx.violation("%s overwrote the stream" % name, replay)
                continue
            outs[2] = outs[2][7:]
            where = (2, 0, 1, 1)[form]
            if status == "ok":
                if f[:2] != [b"returned", b"same"] or any(outs):
                    ctx.violation("%s of a successful result: %s" % (name, f), replay)
            else:
                if f[:2] != [b"throw", b"AnalysisFailed"]:
                    ctx.violation("%s of a failed result: %s" % (name, f[:3]), replay)
                if squeeze(outs[where]) != squeeze(b"".join(whats)):
                    ctx.violation("%s wrote %r for the errors %s" % (name, outs[where], whats), replay)
                if any(outs[i] for i in range(3) if i != where):
                    ctx.violation("%s wrote elsewhere: %s" % (name, outs), replay)
    ctx.sample(texts[0][:300])
    # parse results as only a caller can build them
    messages = ["m", "a longer message", "", "a\nb", "%s {} {0}", '"', "z", "b", "m", "é", "x" * 300]
    places = ["", "1 1 1 1", "0 0 0 0", "3 9 3 12", "3 9 5 2", "1 2 1 2", "9 1 9 4", "2 7 2 8", "4294967295 4294967295 4294967295 4294967295"]
    reqs = []
    for _ in range(ctx.n(600, 12000)):
        r = ["passon", rng.choice(["-", "-", "version 3.0; qubit q; X q", "version 3.0; X q", "version 2.0; qubit q; qubit q", "version 3.0"])]
        k = rng.choice([1, 1, 2, 2, 3, 4, 8, 40])
        for _ in range(k):
            r += [rng.choice(messages) if rng.random() < 0.8 else "m%d" % rng.randrange(10**rng.randrange(1, 9)), rng.choice(["-", "+f", "+other", "+"]), rng.choice(places)]
            if rng.random() < 0.15:
                r += r[-3:]
        reqs.append(r)
    for r, o in zip(reqs, ctx.run(drv, reqs)):
        replay = {"request": r}
        if not ran(ctx, o, "passing errors on", replay):
            continue
        if o[0] == b"throw":
            ctx.violation("an exception got out: %s" % o[1:], replay)
            continue
        ctx.seen(tuple(r))
        ctx.count("parse results built by hand")
        tree, kept, again, thrown, written = [show(x) for x in o[:5]]
        want, got, strings = [fields(x) for x in o[5:8]]
        if tree:
            ctx.violation("a semantic tree for a parse result with errors", replay)
        if kept or again:
            ctx.violation("passing errors on changes the parse result" if kept else "passing errors on twice gives two results", replay)
        if got != want:
            ctx.violation("errors of the parse result %s became %s" % (want[::2], got[::2]), replay)
        if thrown != "thrown" or squeeze(o[4]) != squeeze(b"".join(want[::2])):
            ctx.violation("unwrapping wrote %r and has %s, for the errors %s" % (written, thrown, want[::2]), replay)
        if strings != [b""] + want[::2] or o[8] != b'{"errors":[' + b",".join(want[1::2]) + b"]}":
            ctx.violation("the result is rendered as %s" % strings, replay)


# ------------------------------------------------------------------------------------------------------------ I01
def i01(ctx):
    drv = api()
    rng = ctx.rng
    S, D, N, M = semantics.SINGLE, semantics.DOUBLE, semantics.NONGATES, semantics.MODIFIER_PARAMS
    names = S + D + list(N) + list(M)
    ctx.rule = "all names of the instruction set, all their edits by one character, cases, prefixes, compositions, and random strings; distinct names asked with all queries"
    near = set(names)
    alphabet = "abkmnxXyYzZ0129_ \0é"
    for n in names:
        near |= {n.lower(), n.upper(), n.swapcase(), n.capitalize(), n + " ", " " + n, n + "\0", n[:-1], n[1:], n + n, "1q_" + n, "2q_" + n, "1q" + n, "2q" + n, "1Q_" + n, "3q_" + n, n + "_1q", "q_" + n,
                 "_" + n, "1q_1q_" + n, "0q_" + n, "q1_" + n, "01q_" + n}
        for i in range(len(n) + 1):
            for c in alphabet if not ctx.quick else rng.sample(alphabet, 7):
                near.add(n[:i] + c + n[i:])
                near.add(n[:i] + c + n[i + 1:])
    near |= {"", "1", "2", "q", "1q", "2q", "1q_", "2q_", "1Q", "qubit", "bit", "version", "asm", "pi", "1qq", "2qX", "12q", "21q", "11q", "22q"}
    for _ in range(ctx.n(500, 20000)):
        near.add("".join(rng.choice("12q_XYHCNOTRxyzkmSdagWAPinvpowctrlmeasureset09") for _ in range(rng.randrange(1, 9))))
    near = sorted(near)
    groups = [near[i:i + 100] for i in range(0, len(near), 100)]
    types = lambda v: b"none" if not v else b"=" + v.encode()
    for g, r in zip(groups, ctx.run(drv, [["queries"] + g for g in groups])):
        if not ran(ctx, r, "queries", {"names": g}):
            continue
        for n, x in zip(g, r):
            f = fields(x)
            ctx.seen(n)
            s, d, ng, m = n in S, n in D, n in N, n in M
            c1, c2 = n.startswith("1q"), n.startswith("2q")
            want = [s, d, s or d, c1, c2, c1 or c2, s or c1, d or c2, s or d or c1 or c2, n == "measure", n == "reset", n == "init", n == "barrier", n == "wait", ng, n == "inv", n == "pow", n == "ctrl",
                    n in ("inv", "pow"), n == "ctrl", m]
            want = [b"1" if w else b"0" for w in want]
            err = b"AnalysisError"
            gp = types(semantics.GATE_PARAMS.get(n)) if s or d else err
            np = [b"none", b"=fff"] if n == "measure" else [types(N[n][0])] if ng else [err]
            mp = types(M[n]) if m else err
            want_t = [[gp], np, [mp], [gp] if s or d else np if ng else [mp] if m else [err]]
            for k in (0, 1, 2, 3, 4, 5, 255, 256, -1):
                want_t.append([types(next((p for p in N.get(n, []) if len(p) == k), None))])
            names_ = ("single_qubit_named_gate two_qubit_named_gate named_gate single_qubit_gate_composition two_qubit_gate_composition gate_composition single_qubit_gate two_qubit_gate gate measure reset "
                      "init barrier wait non_gate inv_gate_modifier pow_gate_modifier ctrl_gate_modifier single_qubit_gate_modifier two_qubit_gate_modifier gate_modifier").split()
            for q, w, got in zip(names_, want, f):
                if w != got:
                    ctx.violation("is_%s(%r) is %s" % (q, n, show(got)), {"name": n})
            for i, (w, got) in enumerate(zip(want_t, f[len(want):])):
                if got not in w:
                    q = ["get_named_gate_param_types", "get_non_gate_param_types", "get_gate_modifier_param_types", "get_instruction_param_types"][i] if i < 4 else "get_non_gate_param_types_with_param_count"
                    ctx.violation("%s(%r) [%d] is %s, expected %s" % (q, n, i, show(got), w), {"name": n})
            if f[-1] != b"1":
                ctx.violation("there are two instruction sets", {"name": n})
        want = sorted(["g %s %s %s" % (k, semantics.GATE_PARAMS.get(k) or "-", o) for k in S + D for o in (("Q", "V") if k in S else ("QQ", "QV", "VQ", "VV"))] +
                      ["n %s %s %s" % (k, p or "-", o) for k in N for p in N[k] for o in semantics.NONGATE_OPERANDS[k]] + ["m %s %s" % (k, v or "-") for k, v in M.items()] +
                      ["s " + k for k in S] + ["d " + k for k in D] + ["l " + k for k in N])
        got = sorted(show(x) for x in fields(r[-1]))
        if want != got:
            ctx.violation("the instruction set differs: extra %s, missing %s" % ([x for x in got if x not in want], [x for x in want if x not in got]), {})
    ctx.sample(near[len(near) // 2])


# ------------------------------------------------------------------------------------------------------------ I02
class Raw:
    """A registered function of the driver: logs its arguments, gives its tag."""

    def __init__(self, log, tag, kind):
        self.log, self.tag, self.kind = log, tag, kind

    def raw(self, vals):
        s = self.tag + ":"
        for v in vals:
            s += "?," if v.kind in ("ref", "idx") else "b%d," % v.v if v.kind == "b" else "i%d," % v.v if v.kind == "i" else "f%s," % struct.pack(">d", v.v).hex()
        self.log.append((self.tag, s))
        if self.kind in ("empty", "error"):
            raise semantics.Fault(self.kind)
        return semantics.Val(self.kind, const(self.kind, self.tag))


def const(kind, text):
    return text == "1" if kind == "b" else int(text) if kind == "i" else struct.unpack(">d", bytes.fromhex(text.zfill(16)))[0]


CONST_TEXT = {"b": ["0", "1"], "i": ["0", "1", "7", "-3", "9223372036854775807", "-9223372036854775808"],
              "f": ["3ff8000000000000", "0", "8000000000000000", "4008000000000000", "7ff0000000000000"]}
C_NAMES = ["k", "pi", "true", "q", "X", "eu2", "n", "tau"]
F_NAMES = ["f", "g", "sin", "abs", "operator+", "operator-", "operator?:", "k", "operator==", "operator!"]
I_NAMES = ["X", "CNOT", "Rx", "H", "measure", "reset", "barrier", "wait", "1q_X", "2q_X", "init", "1q_H"]


class History:
    """A random history, and what the model says about each step."""

    def __init__(self, rng):
        self.rng, self.steps, self.want = rng, [], []
        self.an, self.wr, self.log, self.tags = {}, {}, [], 0

    def add(self, step, want):
        self.steps.append(step)
        self.want.append(want)

    def program(self, c=None):
        rng = self.rng
        out = ["version 3.0", "qubit q0", "qubit[3] r0", "bit b0", "bit[3] c0"]
        fits = {"Q": ["q0", "r0[1]"], "V": ["r0", "r0[0:1]"], "B": ["b0", "c0[2]"], "W": ["c0", "c0[0,2]"], "i": ["3", "1 - 2", "true"], "f": ["2.5", "4", "false"], "b": ["true", "false"]}
        if c is not None:      # statements that use what was registered, in its own shape
            known = [(x, spec) for sc in c.scopes for x, specs in sc.instructions.items() for spec in specs if spec]
            fns = [(x, params) for x, sigs in c.scopes[-1].functions.items() if re.match("[a-z]", x) and not x.startswith("operator") for params, _, raw in sigs if isinstance(raw, Raw)]
            for x, spec in rng.sample(known, min(len(known), rng.randrange(4))) + [k for k in known if k[0] in I_NAMES and rng.random() < 0.15]:
                ops = [rng.choice(fits.get(o, ["q0"])) for o in spec]
                if x == "measure":
                    line = "%s = measure %s" % (ops[-1], ops[0])
                else:
                    line = "%s%s %s" % (rng.choice(["", "", "inv.", "ctrl.", "pow(2)."]) + x[3:] if x[1:3] == "q_" else x, {"Rx": "(1.5)", "wait": "(3)", "CRk": "(2)"}.get(x, ""), ", ".join(ops))
                if syntax.parse("version 3.0\n" + line + "\n", None).ast is not None:
                    out.append(line)
            for x, params in rng.sample(fns, min(len(fns), rng.randrange(3))):
                out.append("Rx(%s(%s)) q0" % (x, ", ".join(rng.choice(fits[o]) for o in params)))
        ops = ["q0", "r0", "r0[1]", "r0[0:1]", "b0", "c0", "c0[2]", "3", "true", "2.5", "k", "pi", "n"]
        e = lambda: rng.choice(["1", "2.5", "true", "k", "n", "pi", "eu2", "f(1)", "f(true)", "f()", "f(1, 2.5)", "g(2.5)", "g(k)", "1 + 2", "1.5 + 2", "true + 1", "-1", "-k", "sin(1)", "sin(true)", "abs(1)",
                                "abs(1.5)", "f(q0)", "f(r0[0])", "g(r0)", "k(1)", "1 == 1", "1 == 1.5", "!true", "!1", "true ? 1 : 2", "k ? 1 : 2.5", "f(f(1))", "g(f(1), g(1))", "tau", "X"])
        for _ in range(rng.randrange(1, 7)):
            k = rng.randrange(12)
            if k < 4:
                out.append("Rx(%s) q0" % e())
            elif k < 5:
                out.append("wait(%s) q0" % e())
            elif k < 6:
                out.append("CRk(%s) q0, r0[1]" % e())
            elif k < 9:
                g = rng.choice(["X", "H", "CNOT", "inv.X", "ctrl.X", "inv.H", "pow(2).X", "reset", "barrier", "init"])
                out.append("%s %s" % (g, ", ".join(rng.choice(ops) for _ in range(rng.choice([1, 1, 2, 2, 3]) if g not in ("reset", "barrier", "init") else 1))))
            elif k < 10:
                out.append("%s = measure %s" % (rng.choice(["b0", "c0", "c0[0]", "r0", "q0", "r0[0:1]"]), rng.choice(ops[:6])))
            elif k < 11:
                out.append("qubit %s" % rng.choice(C_NAMES + ["q0"]))
            else:
                out.append("X %s" % rng.choice(C_NAMES))
        return out

    def analyze(self, name, wrapper=False):
        from sem import Case
        stmts = self.program(self.wr[name] if wrapper else self.an[name])
        text = "\n".join(stmts) + "\n"
        p = syntax.parse(text, None)
        if p.ast is None:
            return
        del self.log[:]
        r = semantics.Analyzer(self.wr[name] if wrapper else self.an[name]).analyze(p.ast)
        logs = [s for _, s in sorted(self.log, key=lambda x: x[0].encode())]
        self.add(["wanalyze" if wrapper else "analyze", name, text], ("analysis", r, logs, stmts, wrapper))

    def registered(self, c):
        return [(x, params) for x in F_NAMES for params, _, raw in c.scopes[-1].functions.get(x, []) if isinstance(raw, Raw)]

    def step(self):
        rng = self.rng
        if not self.an or (len(self.an) < 4 and rng.random() < 0.06):
            n = "a%d" % rng.randrange(5)
            if rng.random() < 0.6:
                self.an[n] = semantics.Config()
                return self.add(["default", n], "ok")
            self.an[n] = semantics.Config(False, False, False)
            return self.add(["new", n], "ok")
        n = rng.choice(sorted(self.an))
        c = self.an[n]
        k = rng.randrange(100)
        if k < 5:
            m = "a%d" % rng.randrange(5)
            if m != n:
                self.an[m] = c.clone()
                self.add(["copy", m, n], "ok")
        elif k < 8:
            m = rng.choice(sorted(self.an))
            if m != n:
                self.an[m] = c.clone()
                self.add(["assign", m, n], "ok")
        elif k < 9:
            m = "a%d" % rng.randrange(5)
            if m != n:
                self.an[m] = c
                del self.an[n]
                self.add(["move", m, n], "ok")
        elif k < 17:
            c.scopes.insert(0, semantics.Scope())
            self.add(["push", n], "ok")
        elif k < 23:
            if len(c.scopes) > 1:
                c.scopes.pop(0)
                self.add(["pop", n], "ok")
        elif k < 26:
            s = c.scopes[0]
            have = [x for x in semantics.CONSTANTS if x in s.variables]
            if not have:
                for x, (kk, v) in semantics.CONSTANTS.items():
                    s.variables[x] = semantics.Val(kk, v)
                self.add(["constants", n], "ok")
            elif len(have) == len(semantics.CONSTANTS):
                self.add(["constants", n], "Error")
        elif k < 28:
            for x, v in semantics.default_functions().items():
                c.scopes[-1].functions.setdefault(x, []).extend(v)
            self.add(["functions", n], "ok")
        elif k < 30:
            for x, v in semantics.default_instructions().items():
                c.scopes[0].instructions.setdefault(x, []).extend(v)
            self.add(["instructions", n], "ok")
        elif k < 40:
            x, kk = rng.choice(C_NAMES), rng.choice("bif")
            t = rng.choice(CONST_TEXT[kk])
            fresh = x not in c.scopes[0].variables
            if fresh:
                c.scopes[0].variables[x] = semantics.Val(kk, const(kk, t))
            self.add(["const", n, x, kk, t], "ok" if fresh else "Error")
        elif k < 54:
            x, params = rng.choice(F_NAMES), "".join(rng.choice("bbiiiffQVW") for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 3, 4, 7])))
            had = self.registered(c)
            if had and rng.random() < 0.35:      # again, with the same parameters or with a few of them changed
                x, params = rng.choice(had)
                if params and rng.random() < 0.3:
                    j = rng.randrange(len(params))
                    params = params[:j] + rng.choice("bif") + params[j + 1:]
            kind = rng.choice("biiffff") if rng.random() < 0.85 else rng.choice(["empty", "error"])
            self.tags += 1
            tag = str(self.tags % 2) if kind == "b" else str(self.tags)
            if kind == "f":
                tag = "40%014x" % self.tags
            if kind == "b":       # tags tell functions apart: no two booleans with one tag
                kind, tag = "i", str(self.tags)
            c.scopes[-1].functions.setdefault(x, []).append((params, kind, Raw(self.log, tag, kind)))
            self.add(["func", n, x, params, tag, kind, rng.choice(["types", "spec"])], "ok")
        elif k < 66:
            x = rng.choice(I_NAMES)
            spec = "".join(rng.choice("QQQVVBWif") for _ in range(rng.choice([0, 1, 1, 2, 2, 2, 3, 5])))
            if x in c.scopes[0].instructions and rng.random() < 0.2:
                spec = rng.choice(c.scopes[0].instructions[x])
            c.scopes[0].instructions.setdefault(x, []).append(spec)
            self.add(["instr", n, x, spec, rng.choice(["object", "string"]) if spec else rng.choice(["none", "string", "object"])], "ok")
        elif k < 69:
            self.add(["instr", n, "X", rng.choice(["z", "Qz", "q", "QQ ", "\0"]), "string"], "invalid_argument")
        elif k < 73:
            x = rng.choice(C_NAMES)
            v = next((s.variables[x] for s in c.scopes if x in s.variables), None)
            self.add(["variable", n, x], ("value", v) if v else "Error")
        elif k < 79:
            x = rng.choice(F_NAMES)
            args = []
            for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
                kk = rng.choice("bif")
                args.append((kk, rng.choice(CONST_TEXT[kk])))
            had = [h for h in self.registered(c) if not set(h[1]) - set("bif")]
            if had and rng.random() < 0.6:       # what a registered function asks for, or nearly
                x, params = rng.choice(had)
                args = []
                for kk in params:
                    kk = kk if rng.random() < 0.6 else rng.choice({"b": "b", "i": "bi", "f": "bif"}[kk]) if rng.random() < 0.9 else rng.choice("bif")
                    args.append((kk, rng.choice(CONST_TEXT[kk])))
            del self.log[:]
            try:
                v = semantics.Analyzer(c).call(x, [semantics.Val(a, const(a, t)) for a, t in args])
                want = ("value", v, [s for _, s in self.log])
            except semantics.Fault as f:
                want = ("null", None, [s for _, s in self.log]) if f.kind == "empty" else "Error"
            self.add(["call", n, x] + [y for a in args for y in a], want)
        elif k < 84:
            w = "w%d" % rng.randrange(2)
            if w not in self.wr or rng.random() < 0.2:
                without = rng.random() < 0.5
                self.wr[w] = semantics.Config(True, True, not without)
                self.add(["wnew", w, "1" if without else "0"], "ok")
            elif rng.random() < 0.5:
                x = rng.choice(I_NAMES)
                spec = "".join(rng.choice("QQQVVBWif") for _ in range(rng.choice([0, 1, 2, 2, 3])))
                self.wr[w].scopes[0].instructions.setdefault(x, []).append(spec)
                self.add(["winstr", w, x, spec, "none" if not spec and rng.random() < 0.5 else "string"], "ok")
            else:
                self.analyze(w, True)
        else:
            self.analyze(n)


def judge_analysis(want, f):
    _, r, logs, stmts, wrapper = want
    if wrapper:
        whats = f[2:] if f[0] == b"err" else []
        got_logs = None
    else:
        cut = f.index(b"=") if b"=" in f else len(f)
        whats, got_logs = f[2:cut:2], [show(x) for x in f[cut + 1:]]
    lines = sorted(int(m.group(1)) for m in (re.match(rb"Error at [^:]*:(\d+)", w) for w in whats) if m)
    bad = sorted([i + 2 for i in r.faulty] + [1 for e in r.errors if e.kind == "version"])
    if len(lines) != len(whats) or lines != bad:
        return "errors %s, expected them in lines %s: %s" % ([show(w) for w in whats], bad, [stmts[i - 1] for i in bad])
    if got_logs is not None and got_logs != logs:
        return "functions were called as %s, expected %s" % (got_logs, logs)
    if f[0] == b"ok" or not wrapper:
        tree = lang.load(f[1])
        if tree is None:
            return "no tree"
        w, g = lang.model_names(r.tree)["block"], lang.tree_names(tree)["block"]
        return semantics.diff(lang.strip(w), lang.strip(g), ulps=4)
    return None


def judge_step(want, f):
    if isinstance(want, tuple) and want[0] == "analysis":
        if f[0] == b"throw":
            return "an exception got out: %s" % f[1:]
        return judge_analysis(want, f)
    if want == "ok":
        return None if f == [b"ok"] else "ended with %s" % f
    if want in ("Error", "invalid_argument"):
        return None if f[:2] == [b"throw", want.encode()] else "ended with %s, expected %s" % (f, want)
    if f[0] != b"ok":
        return "ended with %s" % f
    if want[0] == "null":
        return None if f[1] == b"null" and [show(x) for x in f[2:]] == want[2] else "gave %s" % f
    got = lang.strip(lang.load(f[1]), ("%", "#"))
    d = semantics.diff(lang.strip(want[1].dump([])), got, ulps=4)
    if d:
        return d
    if len(want) > 2 and [show(x) for x in f[2:]] != want[2]:
        return "functions were called as %s, expected %s" % (f[2:], want[2])
    return None


PROBE = [["default", "a"], ["instr", "a", "Foo", "Q", "string"], ["analyze", "a", "version 3.0\nqubit q\nFoo q\n"]]


def i02(ctx):
    drv = api()
    rng = ctx.rng
    ctx.rule = ("random histories of creating, copying, assigning and moving analyzers, pushing and popping scopes, registering constants, functions and instructions, and analysing programs, calling "
                "functions and looking up names; distinct histories, each step compared with a model of the scope stack; registered functions log the arguments they get")
    hs = []
    for _ in range(ctx.n(450, 9000)):
        h = History(rng)
        for _ in range(rng.choice([5, 15, 40, 80])):
            h.step()
        for n in sorted(h.an):
            h.analyze(n)
        for n in sorted(h.wr):
            h.analyze(n, True)
        hs.append(h)
    res = ctx.run(drv, [["config"] + [pack(s) for s in h.steps] for h in hs])
    for h, r in zip(hs, res):
        replay = {"steps": h.steps}
        if not ran(ctx, r, "configuration", replay):
            continue
        ctx.seen(repr(h.steps))
        for i, (s, w, x) in enumerate(zip(h.steps, h.want, r)):
            ctx.count("steps " + s[0])
            why = judge_step(w, fields(x))
            if why:
                ctx.violation("step %d (%s): %s" % (i, " ".join(s)[:300], why), {"steps": h.steps[:i + 1]})
                break
    ctx.sample([" ".join(s) for s in hs[0].steps][:12])
    r = ctx.run(drv, [["config"] + [pack(s) for s in PROBE]])[0]
    if ran(ctx, r, "configuration", {"steps": PROBE}):
        f = fields(r[-1])
        if f[0] != b"ok":
            what = show(f[2]) if len(f) > 2 else str(f)
            ctx.violation("a registered gate named Foo is rejected: " + what, {"steps": PROBE}, key="Foo q: " + what)


# ------------------------------------------------------------------------------------------------------------ I03
def i03(ctx):
    drv = api()
    rng = ctx.rng
    ctx.rule = "constants of each type with boundary and random values, references and indices of each type and size, each against each type; all 256 type codes; distinct values"
    vals = [("b", "0"), ("b", "1")]
    ints = [0, 1, -1, 2**31, -2**31, 2**53, 2**53 + 1, -2**53 - 1, 2**63 - 1, -2**63, 2**62 + 1, 2**54 + 3] + [rng.randrange(-2**63, 2**63) for _ in range(ctx.n(300, 20000))]
    ints += [rng.randrange(-2**rng.randrange(1, 63), 2**rng.randrange(1, 63)) for _ in range(ctx.n(300, 20000))]
    vals += [("i", str(i)) for i in ints]
    vals += [("f", h) for h in ["0000000000000000", "8000000000000000", "3ff0000000000000", "7ff0000000000000", "fff0000000000000", "7ff8000000000000", "0000000000000001", "7fefffffffffffff", "4340000000000001"]]
    vals += [("f", "%016x" % (rng.getrandbits(64) & ~(0x7ff << 52) | rng.randrange(0x7ff) << 52)) for _ in range(ctx.n(100, 3000))]
    for c in "QBVW":
        vals += [(c, str(s)) for s in ((1,) if c in "QB" else (1, 2, 3, 17, 2**40, rng.randrange(1, 2**62)))]
    for c in ("xV", "xW"):
        vals += [(c, "%d %d" % (s, k)) for s in (1, 2, 5, 9) for k in (1, 2, 3, 5, 9, 20)]
    groups = [vals[i:i + 60] for i in range(0, len(vals), 60)]
    names = {"Q": "qubit", "B": "bit", "b": "bool", "i": "int", "f": "float", "V": "qubit array", "W": "bit array"}
    node = semantics.TYPE_NODE
    typ = lambda b: (lambda d: (d["@"], d["size"]))(lang.load(b))
    for g, r in zip(groups, ctx.run(drv, [["types"] + [y for x in g for y in x] for g in groups])):
        if not ran(ctx, r, "types", {"values": g}):
            continue
        for j, ((k, v), x) in enumerate(zip(g, r)):
            f = fields(x)
            ctx.seen((k, v))
            bad = lambda why: ctx.violation("%s %s: %s" % (k, v, why), {"kind": k, "value": v})
            loc = f[1]
            if len(k) == 1:
                t, size, own = k, 0 if k in "bif" else int(v), 1 if k in "bif" else int(v)
            else:
                s, n = map(int, v.split())
                t, size, own = (k[1], s, n) if n != 1 else ({"V": "Q", "W": "B"}[k[1]], 0, 1)
            ty = fields(f[2])
            if ty[0] == b"throw" or typ(ty[0])[0] != node[t] or show(ty[1]) != names[t] or int(ty[2]) != own:
                bad("has type and size %s, expected %s and %d" % (ty, names[t], own))
                continue
            if len(k) == 1 and t not in "bif" and int(ty[3]) != size:
                bad("has a type of size %s, expected %d" % (show(ty[3]), size))
            ts = fields(f[3])
            if ts[0] == b"throw" or typ(ts[0])[0] != node[t] or show(ts[1]) != names[t] + ", " + names[t]:
                bad("types_of gives %s" % ts)
            cc = fields(f[4])
            if (cc == [b"const"]) != (t in "bif" and len(k) == 1) or (cc[0] == b"throw" and cc[1] != b"Error"):
                bad("check_const gives %s" % cc)
            for c, y in zip("QBVWbif", f[5:]):
                p = fields(y)
                ctx.count("promotions")
                can = semantics.promotes(t, c)
                if p[0] == b"throw":
                    bad("promoting to %s throws %s" % (names[c], p))
                    continue
                if (p[0] != b"none") != can or p[3] != (b"1" if can else b"0") or p[4] != (b"1" if t == c else b"0") or p[5] != b"untouched":
                    bad("to %s: promoted %s, check_promote %s, type_check %s, %s" % (names[c], show(p[0]), show(p[3]), show(p[4]), show(p[5])))
                    continue
                if can:
                    if p[1] != loc:
                        bad("promoting to %s moves it from %s to %s" % (names[c], show(loc), show(p[1])))
                    d = lang.load(p[0])
                    if typ(p[2])[0] != node[c]:
                        bad("promoting to %s gives type %s" % (names[c], show(p[2])))
                    if c in "bif":
                        val = semantics.promote(semantics.Val(k, const(k, v)), c).dump([])
                        if semantics.diff(val, lang.strip(d, ("%", "#"))):
                            bad("promoting to %s gives %s" % (names[c], show(p[0])))
        spec, el = fields(r[-2]), fields(r[-1])
        for c in range(256):
            one, three = fields(spec[2 * c]), fields(spec[2 * c + 1])
            ch = chr(c)
            if ch in names:
                if one[0] != b"ok" or typ(one[1])[0] != node[ch] or show(one[2]) != names[ch] or three[:2] != [b"ok", b"3"] or typ(three[2])[0] != node[ch] or \
                        show(three[3]) != "qubit, %s, int" % names[ch]:
                    ctx.violation("type code %r gives %s and %s" % (ch, one, three), {"code": c})
            elif one[:2] != [b"throw", b"invalid_argument"] or three[:2] != [b"throw", b"invalid_argument"]:
                ctx.violation("type code %r gives %s and %s" % (ch, one, three), {"code": c})
        i = 0
        for c in "QBVWbif":
            for d in "QBVWbif":
                if fields(el[i]) != [b"1" if c == d else b"0", b"1" if semantics.promotes(c, d) else b"0"]:
                    ctx.violation("type_check and check_promote of %s and %s are %s" % (names[c], names[d], fields(el[i])), {"types": c + d})
                i += 1
        for c in "QBVWbif":
            x = fields(el[i])
            i += 1
            if c in "VW":
                if x[0] != b"ok" or typ(x[1])[0] != {"V": "Qubit", "W": "Bit"}[c]:
                    ctx.violation("the elements of %s are %s" % (names[c], x), {"type": c})
            elif x[0] != b"throw":
                ctx.violation("the elements of %s are %s" % (names[c], x), {"type": c})
        if fields(el[i]) != [b"0"]:
            ctx.violation("the empty list of type codes gives %s types" % fields(el[i]), {})
    ctx.sample(list(vals[5]))


# ------------------------------------------------------------------------------------------------------------ K01
SPECIAL_FLOATS = ["1. / 0", "- 1. / 0", "0. / 0", "sqrt(-1)", "- 0.", "1.7976931348623157e308", "2.2250738585072014e-308", "0.1", "1.e300 * 1.e300", "log(0)", "asin(2)", "1.e-200 * 1.e-200", "4.9e-300 / 1.e20"]
SPECIAL_INTS = ["0", "1", "- 1", "23", "24", "255", "256", "65535", "65536", "4294967295", "4294967296", "9223372036854775807", "- 9223372036854775807 - 1", "- 24", "- 25", "- 256", "- 257", "- 65537",
                "- 4294967297", "true", "1 << 62"]


def k01(ctx):
    drv = api()
    rng = ctx.rng
    ctx.rule = ("syntax and semantic trees of generated, faulty, special-valued and example programs, serialised and read back twice; primitive values over boundaries and random ones; distinct texts and values; "
                "dumps hold every field, exact number and link")
    texts = [gen.layout(p, rng) for p in lang.programs(rng, ctx.n(900, 20000), wild=0.2, faults=0.03, size=14)]
    texts += ["version 3.0\nqubit q\n" + "\n".join("Rx(%s) q\nwait(%s) q" % (a, b) for a, b in zip(rng.sample(SPECIAL_FLOATS, 8), rng.sample(SPECIAL_INTS, 8))) for _ in range(ctx.n(60, 600))]
    texts += ["version %s\nasm(a%s) '''%s'''" % (v, n, "x" * n) for v, n in zip(["3", "3.0", "03.0", "3.000"] * 10, [0, 1, 22, 23, 24, 25, 254, 255, 256, 257, 65534, 65535, 65536, 65537, 1000])]
    texts += [show(c) for c in lang.corpus()] + lang.big(rng) + lang.big(rng, 1100, 130, 1)
    files = [rng.choice(["-", "+f", "+" + lang.FILE, "+" + "n" * 300, "+\u20ac"]) for _ in texts]
    for t, fl, o in zip(texts, files, ctx.run(drv, [["roundtrip", t, f] for t, f in zip(texts, files)])):
        replay = {"text": t, "file": fl}
        if not ran(ctx, o, "serialisation", replay):
            continue
        if o[0] == b"throw":
            ctx.violation("an exception got out: %s" % o[1:], replay)
            continue
        ctx.count(show(o[0]))
        if o[0] == b"parse-err":
            continue
        ctx.seen(t)
        ctx.count("nodes", o[2].count(b'"@"') + (o[3].count(b'"@"') if len(o) > 3 else 0))
        if o[1]:
            ctx.violation(show(o[1])[:2000], replay)
    hx = lambda: "%016x" % rng.getrandbits(64)
    fl = ["0000000000000000", "8000000000000000", "7ff0000000000000", "fff0000000000000", "7ff8000000000000", "0000000000000001", "3ff0000000000000", "7fefffffffffffff", "bff0000000000001"]
    prims = [("bool", "0"), ("bool", "1")] + [("float", f) for f in fl] + [("float", hx()) for _ in range(ctx.n(500, 20000))]
    edge = sorted({s * (2**k + d) for k in (0, 3, 4, 5, 7, 8, 15, 16, 31, 32, 62, 63) for d in (-2, -1, 0, 1, 2) for s in (1, -1)} | {-2**63})
    prims += [("int", str(i)) for i in edge + [rng.randrange(-2**63, 2**63) for _ in range(ctx.n(500, 20000))] if -2**63 <= i < 2**63]
    prims += [("complex", " ".join(rng.choice(fl + [hx()]) for _ in range(2))) for _ in range(ctx.n(200, 3000))]
    prims += [("axis", " ".join(rng.choice(fl + [hx()]) for _ in range(3))) for _ in range(ctx.n(200, 3000))]
    prims += [("str", bytes(rng.randrange(256) for _ in range(n))) for n in list(range(0, 40)) + [255, 256, 257, 65535, 65536, 70000]]
    prims += [("str", s) for s in (b"\0", b"a\0b", b"'''", "é€𝄞".encode(), b'"\\', b"\xff\xfe")]
    prims += [("version", " ".join(str(rng.choice([0, 1, 3, 10, 255, 65536, 2**31 - 1, 2**40, 2**63 - 1])) for _ in range(n))) for n in [0, 1, 2, 3, 4, 23, 24, 25] * 6]
    names = ["", "X", "1q_X", "operator+", "é", "a" * 300]
    prims += [("instruction", "-"), ("function", "-")]
    prims += [("instruction", rng.choice(names) + "/" + "".join(rng.choice("QBVWbif") for _ in range(n))) for n in [0, 1, 2, 3, 5, 24, 30] * ctx.n(12, 200)]
    prims += [("function", rng.choice(names) + "/" + "".join(rng.choice("QBVWbif") for _ in range(n)) + "/" + rng.choice("QBVWbif")) for n in [0, 1, 2, 3, 5, 24] * ctx.n(12, 200)]
    tn = {"Q": "qubit", "B": "bit", "b": "bool", "i": "int", "f": "float", "V": "qubit array", "W": "bit array"}
    groups = [prims[i:i + 50] for i in range(0, len(prims), 50)]
    for g, r in zip(groups, ctx.run(drv, [["prim"] + [y for x in g for y in x] for g in groups])):
        if not ran(ctx, r, "primitives", {"values": [[a, show(b)] for a, b in g]}):
            continue
        for (k, v), x in zip(g, r):
            f = fields(x)
            ctx.seen((k, v))
            ctx.count("primitives")
            if k == "version":
                want = [(v + " " if v else "").encode()]
            elif k in ("instruction", "function"):
                parts = v.split("/")
                want = v if v == "-" else "/".join([parts[0], ", ".join(tn[c] for c in parts[1])] + ([tn[parts[2]]] if len(parts) > 2 else []))
                text = "unresolved" if v == "-" else "%s(%s)" % tuple(want.split("/")[:2]) + (" -> " + tn[parts[2]] if len(parts) > 2 else "")
                want = [want.encode(), b"equal", text.encode()]
            else:
                want = [v if isinstance(v, bytes) else v.encode()]
            if f != want and not (k in ("float", "complex", "axis") and same_floats(f, want)):
                ctx.violation("%s %s came back as %s" % (k, show(v)[:200], f), {"kind": k, "value": show(v)})
    ctx.sample(texts[0][:300])


def same_floats(a, b):
    """Equal apart from the payload of NaNs."""
    x, y = a[0].split(), b[0].split()
    if len(a) != 1 or len(x) != len(y):
        return False
    for p, q in zip(x, y):
        if p != q:
            f, g = (struct.unpack(">d", bytes.fromhex(s.decode()))[0] for s in (p, q))
            if f == f or g == g:
                return False
    return True


# ------------------------------------------------------------------------------------------------------------ X01
def bare_error(b, names):
    """An error text without the file name it starts with."""
    for n in names:
        p = b"Error at " + n
        if b.startswith(p):
            return b"Error at F" + b[len(p):]
    return b


def json_errors(b, names):
    """Diagnostics of a JSON result without file names, or None if it is a tree."""
    d = json.loads(b.decode("utf-8", "surrogateescape"))
    if list(d) != ["errors"]:
        return None
    out = []
    for e in d["errors"]:
        e = dict(e)
        e.pop("relatedInformation", None)
        out.append(e)
    return out


def x01(ctx):
    drv = api()
    rng = ctx.rng
    ctx.rule = "random valid, faulty and broken texts through 22 entry points (11 that parse, 11 that also analyse): acceptance, trees, errors and JSON compared, file names apart; distinct texts"
    reqs = []
    texts = [hostile_text(rng) for _ in range(ctx.n(380, 8000))] + SHARED + lang.big(rng) + [lang.token_soup(rng, 5) for _ in range(ctx.n(40, 800))]
    for i, t in enumerate(texts):
        label = rng.choice(["", "f", "dir/name.cq", "a b", "é"])
        reqs.append(["entries", t, label, rng.choice(["x%d.cq", "x %d", "é%d.cq", "./y%d"]) % i])
    for q, r in zip(reqs, ctx.run(drv, reqs)):
        replay = {"text": q[1], "label": q[2], "path": q[3]}
        if not ran(ctx, r, "entry points", replay):
            continue
        ctx.seen(q[1])
        names = [n.encode() for n in ("<unknown file name>", q[3])] + ([q[2].encode()] if q[2] else [])
        got = {}
        for x in r:
            f = fields(x)
            got[show(f[0])] = (f[1:-1], f[-1])
        for group, ref in ((list(got)[:9], "parse_string"), (list(got)[9:], "analyze_string")):
            base = got[ref][0]
            if base[0] == b"throw":
                ctx.violation("%s throws %s" % (ref, base), replay)
                continue
            ok = base[0] == b"ok"
            whats = [bare_error(w, names) for w in base[2::2]]
            ctx.count(ref + (" ok" if ok else " err"))
            jref = None
            for n in group:
                f, cerr = got[n]
                ctx.count("answers")
                bad = lambda why: ctx.violation("%s: %s" % (n, why), replay)
                if n.startswith("cqasm::"):
                    if ok:
                        if f[0] != b"ok" or unfile(f[1], names) != unfile(base[1], names) or cerr:
                            bad("gives %s %s" % (show(f[0]), show(cerr)))
                    elif f[:2] != [b"throw", b"AnalysisFailed"] or [bare_error(w, names) for w in cerr.split(b"\n")] != b"\n".join(whats).split(b"\n"):
                        bad("gives %s and writes %r; expected the errors %s" % (f[:2], cerr, whats))
                elif f[0] == b"throw":
                    bad("throws %s" % f[1:])
                elif f[0] == b"skip":
                    pass
                elif f[0] == b"json":
                    try:
                        errs = json_errors(f[1], names)
                    except ValueError as e:
                        if not ok:
                            bad("not JSON: %s" % e)
                        errs = None
                    if ok:
                        if errs is not None:
                            bad("gives errors %s" % errs)
                        elif jref is None:
                            jref = f[1]
                        elif unname(jref, names) != unname(f[1], names):
                            bad("gives other JSON")
                    elif errs is None:
                        bad("gives no errors")
                    else:
                        want = json_errors(b'{"errors":[' + b",".join(base[3::2]) + b"]}", names)
                        if errs != want:
                            bad("gives the errors %s, expected %s" % (errs, want))
                else:
                    n_ = len(f) > 2 and show(f[2]) or ""
                    report = not ("V3x" in n or "to_strings" in n)      # the serialised form has no locations
                    if f[0] != base[0]:
                        bad("gives %s, expected %s %s" % (show(f[0]), show(base[0]), n_))
                    elif ok and unfile(f[1], names, report) != unfile(base[1], names, report):
                        bad("gives another tree")
                    elif not ok:
                        ws = [bare_error(w, names) for w in (f[2::2] if report else f[2:])]
                        if ws != whats:
                            bad("gives the errors %s, expected %s" % (ws, whats))
                        if not report and f[1]:
                            bad("gives a tree besides errors: %r" % f[1][:200])
    ctx.sample(texts[0][:300])


def unfile(dump, names, places=True):
    """A dump without the file names in its locations, or without the locations."""
    def go(n):
        if isinstance(n, dict):
            return {k: (v[:4] if k == "%" and isinstance(v, list) else go(v)) for k, v in n.items() if places or k != "%"}
        if isinstance(n, list):
            return [go(e) for e in n]
        return n
    return go(lang.load(dump))


def unname(js, names):
    """The JSON of a tree without the file names its locations start with."""
    for n in names:
        js = js.replace(b'"' + n + b":", b'"F:')
    return js


# ------------------------------------------------------------------------------------------------------------ X02
def x02(ctx):
    drv = api()
    rng = ctx.rng
    ctx.rule = ("files of every size up to a few 100 kB and of many contents, under odd names, through relative, absolute, dotted and linked paths, against parsing the same bytes; paths that are missing, "
                "directories, devices, FIFOs, broken and looping links, empty or too long; distinct paths; open files and the scratch directory compared before and after")
    root = os.path.join(ctx.work, "files")
    os.mkdir(root)
    contents = []
    for c in lang.corpus():
        contents.append(c)
    base = b"version 3.0\nqubit q\nX q\n"
    contents += [b"", b"\n", b"version 3.0", base, b"\xef\xbb\xbf" + base, base.replace(b"\n", b"\r\n"), base.replace(b"\n", b"\r"), b"\xff" + base, base + b"\xc3", base + b"\0", b"\0", base + b"// " + b"c" * 300000 + b"\n",
                 base + b"\x1a" + base, "version 3.0\nqubit q // é€𝄞\nX q".encode(), base + b"\x80\n", base.decode().encode("utf-16"), base + b"X q\n" * 400, b"version 3.0\nasm(a) '''\r\n\x0b\x0c'''"]
    for n in (4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537):
        for text, at in (("é", 0), ("'", 1), ("\n", 0)):
            head = b"version 3.0\nasm(a) '''"
            contents.append(head + b"z" * max(0, n - len(head) - at) + text.encode() + b"z'''\nqubit q")
    for _ in range(ctx.n(150, 4000)):
        t = hostile_text(rng)
        contents.append(t.encode("utf-8", "surrogateescape"))
    names = ["a.cq", "b", "with space", "ünï.cq", "-x", "#", "%41", "a'b", 'a"b', "a\\b", "a\nb", "{}", "{0}", "*", "~", "$HOME", "n" * 255, "x.tar.gz", "\udcff\udcfe"]
    cases = []
    for i, c in enumerate(contents):
        n = names[i] if i < len(names) else "f%d" % i
        p = os.path.join(root, n)
        with open(os.fsencode(p), "wb") as f:
            f.write(c)
        via = rng.randrange(5)
        if via == 0:
            path = os.path.relpath(p, ctx.work)
        elif via == 1:
            path = root + "/../files//./" + n
        elif via == 2:
            os.symlink(os.fsencode(n), os.path.join(root, "link%d" % i))
            path = os.path.join(root, "link%d" % i)
        else:
            path = p
        cases.append((path, c))
    os.mkdir(root + "/dir")
    os.mkfifo(root + "/fifo")
    os.symlink("nowhere", root + "/broken")
    os.symlink("loop", root + "/loop")
    os.symlink("dir", root + "/dirlink")
    os.chmod(os.path.join(root, "a.cq"), 0o400)
    missing = [root + "/missing", root + "/dir", root + "/dir/", root + "/fifo", root + "/broken", root + "/loop", root + "/dirlink", "", " ", "/", ".", "..", "/dev/null", "/dev/zero", root + "/a.cq/x", root + "/a.cq/",
               root + "/" + "n" * 256, "/" + "x" * 5000, root + "/dir/../missing", "missing.cq", root + "/A.CQ", root + "/a.cq ", root + "/{}", root + "/%d%s", root + "/missing\nname", root + "/\u00e9\u00e9", root + "/{0}x",
               "file://" + root + "/a.cq", "https://example.org/a.cq", "-", root + "/*.cq", "~", "$PWD/files/a.cq", root + "/b/..", root + "/nodir/../a.cq"]
    missing = [m for m in missing if not os.path.isfile(os.path.join(ctx.work, m)) or m == ""]

    def snapshot():
        out = {}
        for d, ds, fs in os.walk(os.fsencode(root)):
            for f in ds + fs:
                p = os.path.join(d, f)
                st = os.lstat(p)
                out[p] = (st.st_mode, st.st_size, st.st_mtime_ns, st.st_ino, os.readlink(p) if os.path.islink(p) else hashlib.sha1(open(p, "rb").read()).digest() if os.path.isfile(p) else b"")
        out[b"."] = sorted(os.listdir(os.fsencode(root)))
        return out
    before = snapshot()
    labels = [rng.choice(["-", "+label", "+" + lang.FILE]) for _ in cases]
    lone = lang.exe()
    want = ctx.run(lone, [["parse", c, l] for (_, c), l in zip(cases, labels)])
    got = ctx.run(drv, [["file", os.fsencode(p), l, "3"] for (p, _), l in zip(cases, labels)])
    for (p, c), l, w, g in zip(cases, labels, want, got):
        replay = {"path": repr(p), "contents": show(c)[:2000], "label": l}
        if w is None or isinstance(w, Crash) or not ran(ctx, g, "reading a file", replay):
            continue
        ctx.seen(("file", repr(p), c))
        ctx.count("regular files")
        if g[0] != b"same":
            ctx.violation(show(g[0]), replay)
        r = fields(g[1])
        exp = [w[0]] + w[2:]
        if r[:-1] != exp:
            d = next((x, y) for x, y in zip(r[:-1] + [b"(nothing)"], exp + [b"(nothing)"]) if x != y)
            ctx.violation("the file gives %s, its bytes %s" % (show(d[0])[:500], show(d[1])[:500]), replay)
        if r[-1]:
            ctx.violation("something was printed: %s" % show(r[-1]), replay)
        s = fields(g[2])
        if s[0] == b"throw":
            ctx.violation("analyze_file throws %s" % s[1:], replay)
    for m, g in zip(missing, ctx.run(drv, [["file", m, rng.choice(["-", "+label"]), "2"] for m in missing], case_timeout=20)):
        replay = {"path": m}
        if not ran(ctx, g, "reading a path that is no file", replay):
            continue
        ctx.seen(("missing", m))
        ctx.count("paths that are no file")
        if g[0] != b"same":
            ctx.violation(show(g[0]), replay)
        for how, x in zip(("parse_file", "analyze_file", "V3xAnalyzer::parse_file", "V3xAnalyzer::analyze_file_to_json"), g[1:]):
            f = fields(x)
            if f[:2] != [b"throw", b"Error"] or m.encode() not in f[2]:
                ctx.violation("%s(%r) ended with %s, expected a parse error naming the path" % (how, m[:100], [show(y)[:200] for y in f]), replay)
    after = snapshot()
    if before != after:
        ctx.violation("files changed: %s" % [k for k in set(before) | set(after) if before.get(k) != after.get(k)], {})
    ctx.sample(cases[0][0][len(ctx.work):] if cases[0][0].startswith(ctx.work) else cases[0][0])
    ctx.sample(missing[3][len(ctx.work):])


# ------------------------------------------------------------------------------------------------------------ X03
def location_text(file, r):
    """How the range of a diagnostic is written in the text of an error, by the rules of A03."""
    (a, b), (c, d) = r
    s = file or "<unknown file name>"
    if a:
        s += ":%d" % a
        if b:
            s += ":%d" % b
    if a != c or b != d:
        s += ".."
        if a != c:
            s += "%d" % c + (":%d" % d if d else "") if c else ""
        elif d:
            s += "%d" % d
    return s


def x03(ctx):
    drv = api()
    rng = ctx.rng
    ctx.rule = "random broken and faulty texts with hostile names and contents under hostile file names; distinct (text, file name) whose JSON was decoded by a strict decoder and compared with the result"
    nasty = ["\"", "\\", "\u00e9", "\u20ac", "\U0001d11e", "'", "\t", "\x01", "\x1f", "\x7f", "\u2028", "{", "}", "@", "$", "#", "`", "\ufeff", "\\u0041", "\\n", "\x0b"]
    texts = [hostile_text(rng) for _ in range(ctx.n(600, 12000))]
    texts += ["version 3.0\nqubit q\nX " + "".join(rng.choice(nasty) for _ in range(rng.randrange(1, 4))) + " q" for _ in range(ctx.n(200, 3000))]
    texts += ["version 3.0; qubit q; %s %s(q)" % (rng.choice(["X", "foo", "qubit"]), rng.choice(["q", "\u00e9", "_a", "\"x\""])) for _ in range(ctx.n(50, 500))]
    texts += [next(lang.texts(rng, 1, wild=0, faults=0.9, size=30)) for _ in range(ctx.n(150, 2000))]
    texts += lang.big(rng) + lang.big(rng, 1100, 130, 2)
    reqs = []
    for t in texts:
        k = rng.random()
        f = "-" if k < 0.2 else "+" if k < 0.25 else "+" + "".join(rng.choice(nasty + list("abc/. %:?&+")) for _ in range(rng.choice([1, 1, 1, 2, 3, 5, 9])))
        reqs.append(["json", t, f])
    for q, o in zip(reqs, ctx.run(drv, reqs)):
        replay = {"text": q[1], "file": q[2]}
        if not ran(ctx, o, "JSON", replay):
            continue
        if o[0] == b"throw":
            ctx.violation("an exception got out: %s" % o[1:], replay)
            continue
        ctx.seen((q[1], q[2]))
        ctx.count(show(o[0]))
        file = q[2][1:] or None
        pe, re_ = fields(o[3]), fields(o[4])
        if len(o) > 7:
            ctx.count("answers of the wrappers compared", 6)
            w = fields(o[7])
            if w:
                ctx.violation("%s gives %s, expected %s" % tuple(show(x)[:300] for x in w[:3]), replay)
                continue
        for what, js, es, tree in (("parse", o[1], pe, o[5]), ("analysis", o[2], re_, o[6])):
            bad = lambda why: ctx.violation("%s: %s" % (what, why), dict(replay, json=show(js)[:1500]))
            if not es:
                t = lang.load(tree)
                raws = [n["backend_code"] for n in lang.walk(t) if n["@"] == "AsmDeclaration"]
                if any(ord(ch) < 32 or ch in "\"\\" for r in raws for ch in r):
                    continue
                try:
                    d = strict_json(js)
                except BadJson as e:
                    bad("not JSON: %s" % e)
                    continue
                ctx.count("trees decoded")
                if not (isinstance(d, list) and len(d) == 1 and d[0][0] == "Program"):
                    bad("not a program: %s" % str(d)[:200])
                continue
            try:
                d = strict_json(js)
                own = [strict_json(x) for x in es[1::2]]
            except BadJson as e:
                bad("not JSON: %s" % e)
                continue
            if not (isinstance(d, list) and len(d) == 1 and d[0][0] == "errors" and isinstance(d[0][1], list)):
                bad("not a list of errors")
                continue
            if d[0][1] != own:
                bad("the diagnostics are not those of the errors, in order")
                continue
            for w, e in zip(es[0::2], own):
                ctx.count("diagnostics decoded")
                try:
                    r = e.get("range")
                    pos = tuple((r.get(k).get("line"), r.get(k).get("character")) for k in ("start", "end"))
                except AttributeError:
                    bad("a diagnostic without range: %s" % e)
                    continue
                why = check_error_value(e, e.get("message"), (file, pos))
                if why:
                    bad("a diagnostic %s" % why)
                    continue
                text = show(w)
                want = ("Error at %s: %s" % (location_text(file, pos), e.get("message"))).split("\0")[0]    # what() is a C string
                if text != want:
                    bad("the error reads %r, its JSON says %r" % (text, want))
    ctx.sample(reqs[0][1][:300])
    ctx.sample(reqs[0][2])


# ------------------------------------------------------------------------------------------------------------ Z01
def signatures(rng, quick):
    """Every instruction with any parameters and any operands: what no signature of it allows, for the most part."""
    gates = semantics.SINGLE + semantics.DOUBLE
    gates = rng.sample(gates, 6) + ["Rx", "CRk", "Rn"] if quick else gates
    names = ["measure"] * 2 + ["reset", "init", "barrier", "wait"] + gates + ["inv.X", "pow(2).X", "pow(q).X", "ctrl.Rx", "inv.ctrl.CRk", "nothing"]
    values = ["1", "1.5", "true", "q", "b", "r", "c", "x", "r[1]", "-1"]
    operands = ["q", "r", "r[0:3]", "b", "c", "c[1]", "1", "r[7]", "x", "r[0, 1]"]
    several = ["q, q", "q, q, q", "r, q", "q, r", "q, b", "r[0, 1], r[2, 3]", "r[0, 1], r[2]", "1, 2, 3", "q, x", "r, r"]
    for n in names:
        lists = [""] + ["(%s)" % ", ".join(rng.choice(values[:3] if j < 2 else values) for _ in range(k)) for k in (1, 2, 3, 4, 5, 6) for j in range(3 if quick else 12)]
        if n == "wait":
            lists = ["(%s)" % v for v in values]
        elif n in ("reset", "init", "barrier"):
            lists = [""]
        for ps in lists:
            to = ["b = ", "c = ", "q = ", "c[0:3] = ", "x = ", "1 = "] if n == "measure" else [""]
            of = operands if n in semantics.NONGATES else operands + several
            yield "version 3.0\nqubit q\nqubit[5] r\nbit b\nbit[5] c\n" + "\n".join("%s%s%s %s" % (t, n, ps, o) for t in to for o in of)


def z01(ctx):
    drv = api()
    rng = ctx.rng
    ctx.rule = ("type-confused, mutated, deep, long and random texts; distinct ones that were parsed, analysed, printed, converted, serialised, cloned, unwrapped and destroyed under the sanitizers, "
                "with the number of allocated bytes compared before and after")
    texts = []
    for _ in range(ctx.n(1500, 40000)):
        k = rng.randrange(8)
        g = gen.Gen(rng)
        if k < 3:
            texts.append(gen.layout(g.wild_program(rng.randrange(1, 12)), rng))
        elif k < 5:
            p = next(lang.programs(rng, 1, wild=0.3, faults=0.3))
            texts.append(gen.layout([s for s in lang.mutate_tokens(rng, p) if s], rng))
        elif k < 6:
            texts.append(lang.mutate_text(rng, next(lang.texts(rng, 1))))
        elif k < 7:
            texts.append("version 3.0\nqubit[5] q\nbit[5] b\n" + lang.token_soup(rng, rng.randrange(1, 20)))
        else:
            texts.append(rng.choice(SHARED))
    for d in (5, 50, 150):
        texts += ["version 3.0; qubit q; Rx(%s1%s) q" % ("(" * d, ")" * d), "version 3.0; qubit q; Rx(%s1) q" % ("-" * d), "version 3.0; qubit q; %sX q" % ("inv." * d), "version 3.0; qubit q; Rx(1%s) q" % ("**1" * d),
                  "version 3.0; qubit q; %sX q, q" % ("ctrl." * d), "version 3.0; qubit q; Rx(%s1%s) q" % ("sin(" * d, ")" * d), "version 3.0; qubit q; Rx(%s1%s) q" % ("true ? " * d, " : 2" * d),
                  "version 3.0; qubit[%d] q; X q[%s]" % (d, ", ".join("0:%d" % (d - 1) for _ in range(d))), "version 3.0; qubit q; X %s" % ", ".join(["q"] * d), "version 3.0" + "; qubit q" * d,
                  "version 3.0; X q%s" % ("[0]" * d), "version 3.0" + "; X q" * d, "version 3.0; qubit[9223372036854775807] q; X q; X q[9223372036854775806]", "version 3.0; qubit q; f(%s)" % ",".join("1" * d)]
    texts += [show(c) for c in lang.corpus()]
    texts += list(signatures(rng, ctx.quick))
    groups = [texts[i:i + 10] for i in range(0, len(texts), 10)]
    res = ctx.run(drv, [["hostile", rng.choice(["-", "+f"])] + g for g in groups], case_timeout=60)
    for g, r in zip(groups, res):
        if isinstance(r, Crash):
            for t, s in zip(g, ctx.run(drv, [["hostile", "+f", t] for t in g])):
                ran(ctx, s, "the analysis ended the process", {"text": t})
            continue
        if r is None:
            continue
        for t, x in zip(g, r):
            f = fields(x)
            ctx.seen(t)
            if f[0] == b"throw":
                ctx.violation("an exception got out: %s" % [show(y) for y in f[1:]], {"text": t})
                continue
            ctx.count("bytes of output read", int(f[2]))
            if f[1]:
                ctx.violation("%s bytes leak each time" % show(f[1]), {"text": t})
    ctx.sample(texts[0][:300])


# ------------------------------------------------------------------------------------------------------------ I04
def i04(ctx):
    drv = api()
    rng = ctx.rng
    ctx.rule = ("families of signatures that differ in one part: name, number, order, kind or size of one type, return type; and of axes with edge values; "
                "all pairs within a family, in both directions, and their texts")
    T = semantics.NAMES
    bits = lambda f: "%016x" % struct.unpack(">Q", struct.pack(">d", f))[0]
    names = ["X", "x", "", "XX", "1q_X", "1q_1q_X", "measure", "operator+", "é", "a b", "X\0", "Rx", "{}", "%s", "X("]
    jobs, meta = [], []
    for kind in ("instruction", "function"):
        for _ in range(ctx.n(160, 4000)):
            n = rng.choice(names)
            t = [rng.choice("QBVWbif") for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
            z = [rng.choice([0, 1, 2, 7]) for _ in t]
            ret = rng.choice("QBVWbif")
            rz = rng.choice([0, 1, 3])
            fam = [(n, t, z, ret, rz)] * 2
            fam += [(m, t, z, ret, rz) for m in rng.sample(names, 3)]
            for i in range(len(t)):
                fam.append((n, t[:i] + [rng.choice("QBVWbif")] + t[i + 1:], z, ret, rz))
                fam.append((n, t, z[:i] + [z[i] + rng.choice([-1, 1, 2**31])] + z[i + 1:], ret, rz))
                fam.append((n, t[:i] + t[i + 1:], z[:i] + z[i + 1:], ret, rz))
            fam.append((n, t[::-1], z[::-1], ret, rz))
            fam.append((n, t + ["Q"], z + [0], ret, rz))
            fam.append((n, t + t, z + z, ret, rz))
            if kind == "function":
                fam += [(n, t, z, c, rz) for c in "Qbif"] + [(n, t, z, ret, rz + 1)]
            rng.shuffle(fam)
            fam = fam[:14]
            jobs.append(["same", kind] + [x for m, tt, zz, c, cz in fam for x in (m, "-" if not tt and rng.random() < 0.5 else "+" + "".join(tt), " ".join(map(str, zz)), c + str(cz))])
            meta.append((kind, fam))
    edge = [0.0, -0.0, 1.0, -1.0, 0.5, float("inf"), float("-inf"), float("nan"), 5e-324, 1.7976931348623157e308, 1.0000000000000002, 3.14159]
    for _ in range(ctx.n(60, 1000)):
        a = [rng.choice(edge) for _ in range(3)]
        fam = [a, list(a), a[::-1], [a[1], a[0], a[2]]] + [a[:i] + [rng.choice(edge)] + a[i + 1:] for i in range(3) for _ in range(2)]
        jobs.append(["same", "axis"] + [bits(x) for f in fam for x in f])
        meta.append(("axis", fam))
    for (kind, fam), r in zip(meta, ctx.run(drv, jobs)):
        if not ran(ctx, r, "same", {"kind": kind, "family": str(fam)}):
            continue
        part = (lambda x: x[:3]) if kind == "instruction" else (lambda x: x)
        texts = []
        for i, (x, o) in enumerate(zip(fam, r)):
            s, f, copy, eq, ne = [v.decode("utf-8", "replace") for v in fields(o)]
            if kind == "axis":
                nan = any(v != v for v in x)
            else:
                nan = False
                want = "%s(%s)" % (x[0], ", ".join(T[c] for c in x[1])) + (" -> " + T[x[3]] if kind == "function" else "")
                texts.append(want)
                if s != want:
                    ctx.violation("%s prints as %r, expected %r" % (kind, s, want), {"object": str(x)})
            if kind == "axis":
                got = re.findall(r"[-+.\w]+", s)
                if len(got) != 3 or not all(float(g) == v or (v != v and "nan" in g) for g, v in zip(got, x)) or [g[0] == "-" for g in got] != [math.copysign(1, v) < 0 for v in x]:
                    ctx.violation("axis prints as %r" % s, {"object": str(x)})
            if f != s:
                ctx.violation("%s prints as %r and formats as %r" % (kind, s, f), {"object": str(x)})
            if (copy == "copy") == nan:
                ctx.violation("%s: a copy is not equal" % kind, {"object": str(x)})
            for j, y in enumerate(fam):
                ctx.seen((kind, str(x), str(y)))
                same = all(p == q for p, q in zip(x, y)) if kind == "axis" else part(x) == part(y)
                ctx.count("equal pairs" if same else "different pairs")
                if (eq[j] == "1") != same:
                    ctx.violation("%s: %s and %s compare %s" % (kind, x, y, "equal" if eq[j] == "1" else "different"), {"objects": str([x, y])})
                if (ne[j] == "1") == same:
                    ctx.violation("%s: != of %s and %s is %s" % (kind, x, y, ne[j]), {"objects": str([x, y])})
        last = r[len(fam)].decode("utf-8", "replace")
        want = "|".join(["unresolved"] + texts) if kind != "axis" else None
        if want is not None and last != want:
            ctx.violation("references to %ss print as %r, expected %r" % (kind, last, want), {"family": str(fam)})
        if want is None and last not in ('[1, 0, 0][1, 0, 0]000""', '[1.0, 0.0, 0.0][1.0, 0.0, 0.0]000""'):
            ctx.violation("the default primitives are %s" % last, {})
    ctx.sample([str(m) for m in meta[:3]])


# ------------------------------------------------------------------------------------------------------------ M15
def m15(ctx):
    drv = api()
    rng = ctx.rng
    ctx.rule = ("random programs, some statements faulty, with random annotations attached to random nodes of the parsed tree, with and without locations; the semantic tree, or the errors, and "
                "their positions, against the reference; both trees through serialisation; distinct (program, annotations)")
    names = ["a", "libqasm", "x.y", "", "é", "a b", "qubit", "\0", '"', "n"]
    jobs, meta = [], []
    for i in range(ctx.n(700, 12000)):
        g = gen.Gen(rng)
        prog = g.program(rng.randrange(1, 10), faults=rng.choice([0, 0, 0, 0.25]), version="3.0" if rng.random() < 0.97 else "3.1")
        text = gen.layout(prog, rng)
        p = syntax.parse(text, None)
        if p.ast is None or p.unspecified:
            continue
        stmts = p.ast["block"]["statements"]
        strip = rng.random() < 0.3
        job = ["built", text, "1" if strip else "0"]
        for _ in range(rng.choice([0, 1, 2, 3, 6, 12])):
            k = rng.randrange(len(stmts))
            depth, target = -1, stmts[k]
            if target["@"] == "GateInstruction" and rng.random() < 0.5:
                depth, target = 0, target["gate"]
                while target["gate"] and rng.random() < 0.6:
                    depth, target = depth + 1, target["gate"]
            def operand():
                x = rng.random()
                if x < 0.15:
                    e = g.kernel()
                    return e if isinstance(e, list) else g.ex(e)
                if x < 0.25:
                    return g.ex(g.wild(2))
                if x < 0.6:
                    return g.ex(g.const(rng.choice("bif"), 2))
                return (g.operand(rng.choice("qb")) or [None])[0]
            ops = [o for o in (operand() for _ in range(rng.choice([0, 1, 1, 2, 4]))) if o]
            spelled = gen.layout([["version", "3.0"], ["Mark"] + [t for j, o in enumerate(ops) for t in ([","] if j else []) + (o if isinstance(o, list) else g.ex(o))]], rng).split("Mark", 1)[1] if ops else ""
            aux = syntax.parse("version 3.0\nX " + spelled, "annotation") if ops else None
            if ops and (aux.ast is None or aux.unspecified or len(aux.ast["block"]["statements"]) != 1):
                continue
            place = rng.choice([None, rng.randrange(1, 10**6)])
            iface, oper = rng.choice(names), rng.choice(names)
            job += [str(k), str(depth), iface, oper, spelled, "-" if place is None else str(place)]
            note = {"@": "AnnotationData", "interface": {"name": syntax.raw(iface)}, "operation": {"name": syntax.raw(oper)},
                    "operands": {"items": aux.ast["block"]["statements"][0]["operands"]["items"] if ops else []}}
            if place is not None:
                note["%"] = [place, 1, place, 9, "annotation"]
            target["annotations"] = target.get("annotations", []) + [note]
        if sum(n.get("annotations", []) != [] for n in lang.walk(p.ast)) == 0 and not strip:
            continue
        jobs.append(job)
        meta.append((p, strip))
    for job, (p, strip), r in zip(jobs, meta, ctx.run(drv, jobs)):
        what = {"text": job[1], "annotations": str(job[2:])}
        if not ran(ctx, r, "built", what):
            continue
        if r[0] == b"parse-err":
            ctx.count("not parsed (left to P02)")
            continue
        ctx.seen(str(job))
        ctx.count("trees " + ("without" if strip else "with") + " locations")
        a = semantics.Analyzer().analyze(p.ast)
        ctx.count("annotations", (len(job) - 3) // 6)
        for v in (r[1], r[2]):
            if v:
                ctx.violation(show(v), what)
        errors = lang.err_list(r[4:])
        if len(errors) != len(a.errors):
            ctx.violation("%d errors, expected %d: %s" % (len(errors), len(a.errors), [str(e) for e in errors][:3]), what)
            continue
        for e, f in zip(errors, a.errors):
            ctx.count("errors")
            want = f.loc if f.loc and not strip else [0, 0, 0, 0]
            if f.kind == "not an integer":
                continue
            if list(e.range) != want[:4]:
                ctx.violation("error at %s, expected %s: %s" % (list(e.range), want[:4], e), what)
        if a.errors:
            continue
        want, got = a.tree, semantics.clean(lang.load(r[3]))
        if strip:
            want = lang.strip(want, ("%",))
        d = semantics.diff(want, got, ulps=64)
        if d:
            ctx.violation("the semantic tree differs: %s" % d, what)
        ctx.count("trees compared")
    ctx.sample(jobs[0][1:])


CHECKS = {"M09": m09, "M10": m10, "M13": m13, "I01": i01, "I02": i02, "M15": m15, "I03": i03, "I04": i04, "K01": k01, "X01": x01, "X02": x02, "X03": x03, "Z01": z01}


# ------------------------------------------------------------------------------------------------------------ K02
def python_package(ctx):
    """The repository's Python package, laid out as python/CMakeLists.txt installs it."""
    pkg = os.path.join(ctx.work, "pkg")
    shutil.copytree(os.path.join(build.REPO, "python", "module"), pkg)
    gen_ = os.path.join(build.generate(), "libqasm", "v3x")
    for src, name in (("syntactic", "ast"), ("semantic", "semantic"), ("types", "types"), ("values", "values")):
        shutil.copy(os.path.join(gen_, src + "_generated.py"), os.path.join(pkg, "cqasm", "v3x", name + ".py"))
    shutil.copy(os.path.join(build.VERIF, "pyenv", "libqasm.py"), os.path.join(pkg, "libqasm", "libqasm.py"))
    exe = os.path.join(ctx.work, "python")
    with open(exe, "w") as f:
        f.write("#!/bin/sh\nexec '%s' -B '%s' \"$@\"\n" % (sys.executable, os.path.join(build.VERIF, "pyenv", "worker.py")))
    os.chmod(exe, 0o755)
    return exe, {"VF_PYPKG": pkg, "VF_PYLIB": build.build_full("pylib", "pylib.cpp")}


def renumber(tree):
    """A loss-free dump without locations, its links given by the position of their target in the tree."""
    ids = {}

    def number(n):
        if isinstance(n, dict):
            if "#" in n:
                ids.setdefault(n["#"], len(ids))
            for v in n.values():
                number(v)
        elif isinstance(n, list):
            for v in n:
                number(v)

    def go(n):
        if isinstance(n, dict):
            if "->" in n:
                return {"->": ids.get(n["->"], n["->"])}
            return {k: go(v) for k, v in n.items() if k not in "#%"}
        if isinstance(n, list):
            return [go(v) for v in n]
        return n
    number(tree)
    return go(tree)


def first_difference(a, b, at=""):
    if type(a) is not type(b):
        return "%s: %.200r, not %.200r" % (at, a, b)
    if isinstance(a, dict):
        if list(a) != list(b):
            return "%s: fields %s, not %s" % (at, list(a), list(b))
        for k in a:
            d = first_difference(a[k], b[k], at + "." + k)
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return "%s: %d elements, not %d" % (at, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = first_difference(x, y, "%s[%d]" % (at, i))
            if d:
                return d
        return None
    return None if a == b else "%s: %.200r, not %.200r" % (at, a, b)


CALLS = ["parse_string", "analyze_string", "parse_string_to_json", "analyze_string_to_json", "parse_file", "analyze_file", "parse_file_to_json",
         "analyze_file_to_json"]


def k02(ctx):
    exe, env = python_package(ctx)
    rng = ctx.rng
    ctx.rule = "random valid, faulty and broken texts (valid UTF-8) through the eight functions of the Python package, on default and bare analyzers; distinct texts"
    texts = [hostile_text(rng) for _ in range(ctx.n(420, 9000))] + SHARED + lang.big(rng)
    texts += [next(lang.texts(rng, 1, wild=0, faults=0, size=20)) for _ in range(ctx.n(200, 4000))]
    texts += ["version 3.0\n" + "asm(%s) \'\'\'%s\'\'\'\n" % (n, c) for n, c in (("é", "x"), ("b", "é\n€\U0001f600"), ("b", "\"\\"), ("b", ""))]
    reqs = []
    for i, t in enumerate(texts):
        t = t if isinstance(t, str) else t.decode("utf-8", "replace")
        t = t.encode("utf-8", "replace").decode("utf-8")
        name = rng.choice(["", "", "f", "dir/name.cq", "a b", "é €"])
        reqs.append([t, name, rng.choice("dddb"), rng.choice(["", "x%d.cq" % i, "é %d.cq" % i])])
    for q, r in zip(reqs, ctx.run(exe, reqs, case_timeout=60, extra_env=env)):
        replay = {"text": q[0], "file name": q[1], "analyzer": "default" if q[2] == "d" else "without defaults", "path": q[3]}
        if not ran(ctx, r, "the Python package", replay):
            continue
        ctx.seen(q[0] + q[2])
        got = json.loads(r[0])
        calls = (CALLS if q[3] else CALLS[:4]) + ["analyze_string again"]
        for name, g in zip(calls, got):
            ctx.count("calls")
            kind = name.split("_")[0]
            b = 0 if kind == "parse" else 1
            ref = fields(r[1 + b + (2 if "file" in name else 0)])
            bad = lambda why: ctx.violation("%s: %s" % (name, why), replay)
            if isinstance(g, dict) and "raised" in g:
                bad("raises %s" % g["raised"])
                continue
            if "json" in name:
                if g.encode("latin-1") != ref[3]:
                    bad("gives the JSON %.300r, C++ gives %.300r" % (g, ref[3]))
                continue
            if ref[0] == b"err":
                want = [e.decode("latin-1") for e in ref[4:]]
                ctx.count("error lists")
                if g.get("errors") != want:
                    bad("gives %s, C++ reports %s" % (str(g)[:300], want))
                continue
            want = renumber(lang.load(ref[1]))
            if "tree" not in g:
                bad("gives %s, C++ gives a tree" % g)
                continue
            ctx.count("trees")
            ctx.count("nodes", ref[1].count(b'"@":'))
            d = first_difference(g["tree"], want)
            if d:
                bad("the Python tree differs from the C++ one at %s" % d)
            if not g["class"]:
                bad("the root is of the wrong class")
            if not g["python"]:
                bad("Python reads another tree from what it wrote")
            back = g["cpp"]
            d = back if isinstance(back, str) else first_difference(renumber(back), want)
            if d:
                bad("read back by C++, the tree Python wrote differs: %s" % d)
    ctx.sample(texts[0][:300])


CHECKS["K02"] = k02


# ------------------------------------------------------------------------------------------------------------ K03
def k03(ctx):
    python_package_, env = python_package(ctx)
    exe = os.path.join(ctx.work, "prims")
    with open(exe, "w") as f:
        f.write("#!/bin/sh\nexec '%s' -B '%s' \"$@\"\n" % (sys.executable, os.path.join(build.VERIF, "pyenv", "prims.py")))
    os.chmod(exe, 0o755)
    rng = ctx.rng
    ctx.rule = ("values of every primitive type (boundary and random) written and read by the Python package, directly and through CBOR bytes; versions from texts, lists and iterators; instructions and references "
                "from names and types of every kind, with one wrong type at every place; distinct cases")
    from checks_util import FRAGMENTS, utf8_text
    words = ["", "X", "CNOT", "qubit", "'", "é", "\U0001f600", "b'x'", "a\0b", "\\x41", "x" * 300, "X" * 70000, "None", "\n", "x "] + [f.decode("utf-8") for f in FRAGMENTS if f.decode("utf-8", "replace").encode() == f]
    text = lambda: rng.choice(words) if rng.random() < 0.5 else utf8_text(rng)
    num = lambda: rng.choice([0, 1, 2, 3, 9, 10, 99, 2**31 - 1, 2**31, 2**53, 2**53 + 1, 2**63 - 1, rng.randrange(2**63)])
    sig = lambda: [[rng.choice("QVBWbif"), rng.choice([1, 1, 2, 3, 1000, 2**40])] for _ in range(rng.choice([0, 0, 1, 1, 2, 2, 3, 5, 9, 40]))]
    full = {"Q": "Qubit", "V": "QubitArray", "B": "Bit", "W": "BitArray", "b": "Bool", "i": "Int", "f": "Float"}
    made = lambda ts: [[full[k], n] for k, n in ts]
    cases, want = [], []

    def add(case, w):
        cases.append(case)
        want.append(w)

    def rounded(t, v, shown):
        add(["round", t, v], [shown, shown, shown, True])
    for b in (False, True):
        rounded("Bool", b, ["bool", str(b)])
    for i in SPECIAL_INTS + [0, 23, 24, 255, 256, 65535, 65536, 2**32 - 1, 2**32, 2**63 - 1, -24, -25, -256, -257, -2**63, 2**53 + 1] + [rng.randrange(-2**63, 2**63) >> rng.randrange(63) for _ in range(ctx.n(500, 20000))]:
        try:
            rounded("Int", str(int(i)), ["int", str(int(i))])
        except ValueError:
            pass
    for h in ["0" * 16, "8" + "0" * 15, "3ff0000000000000", "7ff0000000000000", "fff0000000000000", "7ff8000000000000", "0000000000000001", "7fefffffffffffff", "3fb999999999999a"] + ["%016x" % (rng.getrandbits(64) & ~(0x7ff << 52) | rng.randrange(0x7ff) << 52) for _ in range(ctx.n(500, 20000))]:
        rounded("Float", h, ["float", h])
    for t in words + [text() for _ in range(ctx.n(700, 20000))]:
        rounded("Str", t, ["str", t])
        add(["bytes", t], ["str", t])
    for _ in range(ctx.n(700, 20000)):
        v = [num() for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 9]))]
        shown = ["Version", [["int", str(x)] for x in v]]
        rounded("Version", v, shown)
        add(["version", v, rng.choice(["same", "tuple", "iter", "text"])], [shown, True, True, len(v)])
        add(["version", ".".join(map(str, v)), "same"], [shown, True, True, len(v)])
    for bad in ("3.x", "x", "", ".", "3.", "3..0", "v3"):
        add(["version", bad, "same"], {"raised": "ValueError"})
    for _ in range(ctx.n(900, 20000)):
        n, ts = text(), sig()
        rounded("InstructionRef", [n, ts], ["ref", ["str", n, made(ts)]])
        how, wrap = rng.choice(["list", "tuple", "iter", "generator"]), rng.choice(["instruction", "ref", "wrapped", "keywords"])
        add(["instruction", n, ts, how, wrap], ["Instruction", "str", n, "tuple", made(ts), True, True, True])
        odd = list(ts)
        odd.insert(rng.randrange(len(ts) + 1), [rng.choice(["none", "str", "int", "class", "ast"]), 1])
        add(["instruction", n, odd, how, wrap], {"raised": "TypeError"})
        add(["instruction", n or "x", None, rng.choice(["short", "none"]), rng.choice(["instruction", "ref", "wrapped"]) if n else "instruction"], ["Instruction", "str", n or "x", "tuple", [], True, True, True])
    rounded("InstructionRef", None, ["ref", None])
    for h in ("none", "null"):
        add(["unresolved", h], [True, "unresolved", ["ref", None]])
    add(["link"], [None, None])
    for c, w, r in zip(cases, want, ctx.run(exe, [[json.dumps(c)] for c in cases], extra_env=env)):
        if not ran(ctx, r, "Python primitives", {"case": c}):
            continue
        ctx.seen(repr(c))
        ctx.count(c[0])
        got = json.loads(r[0])
        if got != w:
            ctx.violation("%.300s gives %.300s, expected %.300s" % (json.dumps(c), json.dumps(got), json.dumps(w)), {"case": c, "got": got, "expected": w})
    ctx.sample([str(c)[:200] for c in rng.sample(cases, 5)])


CHECKS["K03"] = k03
