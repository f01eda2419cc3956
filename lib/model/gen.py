"""Generators of cQASM programs: lists of statements, each a list of token texts, and layouts of them."""
from . import syntax
from .semantics import SINGLE, DOUBLE, GATE_PARAMS
from .syntax import PREC

NAMES = ["q", "b", "r", "c", "qq", "bb", "x1", "_", "_a", "a_", "Z9", "e5", "E", "versions", "Version", "measure_", "bit0",
         "qubits", "inv2", "pow_", "True", "FALSE", "asm0", "H", "CNOT", "Rx", "sin", "operator", "init1", "resetX", "waiting",
         "true1", "longer_name_with_digits_0123456789", "O0", "l1", "B", "Q", "W", "V", "q0", "q_0", "barrier2"]
FUNCTIONS = "sqrt exp log sin cos tan sinh cosh tanh asin acos atan asinh acosh atanh abs".split()
INT_EDGE = ["9223372036854775807", "9223372036854775806", "4611686018427387904", "4294967296", "2147483648", "2147483647",
            "3037000500", "3037000499", "65536", "255", "64", "63", "62"]
FLOAT_EDGE = ["0.", ".0", "0.0", "1.e308", "1.7976931348623157e308", "2.2250738585072014e-308", "1.e-300", "0.1", "1.e15",
              "9007199254740993.", "0.30000000000000004", "123456789.123456789", "1.0e+2", "1.5E-3", ".5e1", "5.E0", "0.5", "1.",
              "3.14159265358979", "1.0000000000000002", "4.9406564584124654e-300"]


def prec(t):
    k = t[0]
    if k == "tern":
        return 0
    if k == "bin":
        return PREC[t[1]]
    if k == "un":
        return 50
    return 60


def toks(t, rng, least=0, parens=0.1):
    """Token texts of an expression tree, with the parentheses it needs and some more."""
    p = prec(t)
    k = t[0]
    if k == "lit" or k == "id":
        out = [t[1]]
    elif k == "un":
        out = [t[1]] + toks(t[2], rng, 50, parens)
    elif k == "bin":
        right = t[1] == "**"
        out = toks(t[2], rng, p + (1 if right else 0), parens) + [t[1]] + toks(t[3], rng, p + (0 if right else 1), parens)
    elif k == "tern":
        out = toks(t[1], rng, 1, parens) + ["?"] + toks(t[2], rng, 0, parens) + [":"] + toks(t[3], rng, 0, parens)
    elif k == "call":
        out = [t[1], "("]
        for i, a in enumerate(t[2]):
            out += ([","] if i else []) + toks(a, rng, 0, parens)
        out.append(")")
    else:
        out = [t[1], "["]
        for i, e in enumerate(t[2]):
            out += [","] if i else []
            if e[0] == "range":
                out += toks(e[1], rng, 0, parens) + [":"] + toks(e[2], rng, 0, parens)
            else:
                out += toks(e, rng, 0, parens)
        out.append("]")
    if p < least or rng.random() < parens:
        out = ["("] + out + [")"]
    return out


class Gen:
    def __init__(self, rng, parens=0.08):
        self.rng, self.parens = rng, parens
        self.vars = []                      # (name, kind, size)
        self.used = set(["pi", "eu", "tau", "true", "false"])
        self.hazard = 0.05                  # how often a constant expression is at its limits

    # expressions ------------------------------------------------------------------------------------------------
    def lit_int(self):
        r = self.rng
        k = r.random()
        if k < self.hazard:
            s = r.choice(INT_EDGE)
        elif k < 0.15:
            s = str(r.randrange(2**r.randrange(1, 63)))
        else:
            s = str(r.randrange(20))
        if r.random() < 0.05:
            s = "0" * r.randrange(1, 4) + s
        return ("lit", s)

    def lit_float(self):
        r = self.rng
        k = r.random()
        if k < 0.2:
            return ("lit", r.choice(FLOAT_EDGE))
        if k < 0.35:
            return ("id", r.choice(["pi", "eu", "tau"]))
        s = r.choice(["%d.%d" % (r.randrange(100), r.randrange(1000)), "%d." % r.randrange(50), ".%d" % r.randrange(1, 1000)])
        if r.random() < 0.2:
            s += r.choice("eE") + r.choice(["", "+", "-"]) + str(r.randrange(20))
        return ("lit", s)

    def const(self, kind, d):
        r = self.rng
        if kind == "any":
            kind = r.choice("bif")
        if kind == "b":
            k = r.random()
            if d <= 0 or k < 0.25:
                return ("lit", r.choice(["true", "false"]))
            if k < 0.35:
                return ("un", "!", self.const("b", d - 1))
            if k < 0.6:
                return ("bin", r.choice(["&&", "||", "^^"]), self.const("b", d - 1), self.const("b", d - 1))
            if k < 0.9:
                a, c = r.choice(["ii", "ff", "bb", "if", "fi", "bi", "bf", "fb"])
                return ("bin", r.choice(["==", "!=", "<", ">", "<=", ">="]), self.const(a, d - 1), self.const(c, d - 1))
            return ("tern", self.const("b", d - 1), self.const("b", d - 1), self.const("b", d - 1))
        if kind == "i":
            k = r.random()
            if d <= 0 or k < 0.25:
                return self.lit_int()
            if k < 0.37:
                return ("un", r.choice("-~-"), self.const("i" if r.random() < 0.95 else "b", d - 1))
            if k < 0.42:
                return ("call", "abs", [self.const("i", d - 1)])
            if k < 0.92:
                op = r.choice(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "+", "-"])
                a = self.const(r.choice("iiiiib"), d - 1)
                if op in ("<<", ">>") and r.random() < 0.8:
                    return ("bin", op, a, ("lit", str(r.randrange(64))))
                if op in "/%" and r.random() < 0.8:
                    return ("bin", op, a, r.choice([("lit", str(r.randrange(1, 10))), ("un", "-", ("lit", str(r.randrange(1, 9))))]))
                return ("bin", op, a, self.const(r.choice("iiiiib") if a[0] != "lit" or a[1] not in ("true", "false") else "i", d - 1))
            return ("tern", self.const("b", d - 1), self.const("i", d - 1), self.const("i" if r.random() < 0.9 else "b", d - 1))
        k = r.random()
        if d <= 0 or k < 0.25:
            return self.lit_float()
        if k < 0.33:
            return ("un", "-", self.const("f", d - 1))
        if k < 0.53:
            return ("call", r.choice(FUNCTIONS), [self.const(r.choice("fffib"), d - 1)])
        if k < 0.92:
            op = r.choice(["+", "-", "*", "/", "**", "+", "-", "**"])
            a, c = r.choice(["ff", "fi", "if", "fb", "bf"]) if op != "**" else (r.choice("fib"), r.choice("fib"))
            return ("bin", op, self.const(a, d - 1), self.const(c, d - 1))
        a, c = r.choice(["ff", "fi", "if", "fb", "bf"])
        return ("tern", self.const("b", d - 1), self.const(a, d - 1), self.const(c, d - 1))

    def wild(self, d):
        """Any expression of the grammar, whatever it means."""
        r = self.rng
        k = r.random()
        if d <= 0 or k < 0.15:
            return r.choice([self.lit_int, self.lit_float, lambda: ("lit", r.choice(["true", "false"])),
                             lambda: ("id", r.choice(NAMES))])()
        if k < 0.3:
            return ("un", r.choice("-~!"), self.wild(d - 1))
        if k < 0.75:
            return ("bin", r.choice(list(PREC)), self.wild(d - 1), self.wild(d - 1))
        if k < 0.85:
            return ("tern", self.wild(d - 1), self.wild(d - 1), self.wild(d - 1))
        if k < 0.93:
            return ("call", r.choice(NAMES + FUNCTIONS), [self.wild(d - 1) for _ in range(r.choice([0, 1, 1, 2, 3]))])
        return ("index", r.choice(NAMES), [self.wild_index(d - 1) for _ in range(r.choice([1, 1, 2, 3]))])

    def wild_index(self, d):
        return ("range", self.wild(d), self.wild(d)) if self.rng.random() < 0.4 else self.wild(d)

    def wild_flat(self, n):
        """A flat run of operands and operators, where precedence decides everything."""
        r = self.rng
        out = []
        for i in range(n):
            if i:
                out.append(r.choice(list(PREC)))
            while r.random() < 0.25:
                out.append(r.choice("+-~!"))
            k = r.random()
            if k < 0.1:
                out += ["("] + self.wild_flat(r.randrange(1, 4)) + [")"]
            elif k < 0.2:
                out += ["f", "("] + (self.wild_flat(r.randrange(1, 3)) if r.random() < 0.8 else []) + [")"]
            else:
                out.append(r.choice(["a", "b", "c", "1", "2.5", "true", "x"]))
            if r.random() < 0.08 and i < n - 1:
                out += ["?"] + self.wild_flat(r.randrange(1, 3)) + [":", r.choice(["u", "3"])]
        return out

    def ex(self, t, parens=None):
        return toks(t, self.rng, 0, self.parens if parens is None else parens)

    # operands ---------------------------------------------------------------------------------------------------
    def value(self, n):
        """An expression whose value is the integer n."""
        r = self.rng
        k = r.random()
        if k < 0.7:
            return ("lit", "0" * (r.random() < 0.05) + str(n))
        if k < 0.78 and n in (0, 1):
            return ("lit", "true" if n else "false")
        m = r.randrange(10)
        if k < 0.86:
            return ("bin", "-", ("lit", str(n + m)), ("lit", str(m)))
        if k < 0.93:
            return ("tern", self.const("b", 1), ("lit", str(n)), ("lit", str(n)))
        return ("bin", "+", ("un", "-", ("lit", str(m))), ("lit", str(n + m)))

    def pick(self, kinds):
        vs = [v for v in self.vars if v[1] in kinds]
        return self.rng.choice(vs) if vs else None

    def entries(self, indices):
        out, i = [], 0
        while i < len(indices):
            j = i
            while j + 1 < len(indices) and indices[j + 1] == indices[j] + 1:
                j += 1
            if j > i and self.rng.random() < 0.7:
                out.append(("range", self.value(indices[i]), self.value(indices[j])))
                i = j + 1
            elif self.rng.random() < 0.1:
                out.append(("range", self.value(indices[i]), self.value(indices[i])))
                i += 1
            else:
                out.append(self.value(indices[i]))
                i += 1
        return out

    def indices(self, size, n):
        r = self.rng
        if n <= size and r.random() < 0.5:
            a = r.randrange(size - n + 1)
            return list(range(a, a + n))
        return [r.choice([0, size - 1, r.randrange(size)]) for _ in range(n)]

    def operand(self, kind, n=None):
        """Tokens of an operand of n elements (any if None); kind 'q' or 'b'. -> (tokens, n) or None"""
        r = self.rng
        single, array = ("Q", "V") if kind == "q" else ("B", "W")
        cands = []
        for v in self.vars:
            if v[1] == single and n in (None, 1):
                cands.append(("var", v))
            if v[1] == array:
                if n in (None, v[2]):
                    cands.append(("var", v))
                cands.append(("idx", v))
                cands.append(("idx", v))
        if not cands:
            return None
        what, v = r.choice(cands)
        if what == "var":
            return [v[0]], v[2]
        m = n if n is not None else r.choice([1, 1, 2, 3, r.randrange(1, min(v[2], 6) + 1)])
        return self.ex(("index", v[0], self.entries(self.indices(v[2], m)))), m

    # statements -------------------------------------------------------------------------------------------------
    def fresh(self):
        r = self.rng
        for _ in range(20):
            n = r.choice(NAMES)
            if n not in self.used:
                return n
        while True:
            n = "v%d" % r.randrange(100000)
            if n not in self.used:
                return n

    def definition(self, kind=None, size=None, name=None):
        r = self.rng
        kind = kind or r.choice("QQVVVBBWWW")
        name = name or self.fresh()
        self.used.add(name)
        ty = "qubit" if kind in "QV" else "bit"
        if kind in "QB":
            self.vars.append((name, kind, 1))
            return [ty, name]
        size = size or r.choice([1, 1, 2, 2, 3, 3, 4, 5, 7, 8, 16, r.randrange(1, 40)])
        self.vars.append((name, kind, size))
        return [ty, "[", "0" * (r.random() < 0.04) + str(size), "]", name]

    def param_tokens(self, types):
        if not types:
            return []
        out = ["("]
        for i, t in enumerate(types):
            k = self.rng.choice({"f": "ffib", "i": "iiib"}[t])
            out += ([","] if i else []) + self.ex(self.const(k, self.rng.choice([0, 0, 1, 2, 3])))
        return out + [")"]

    def gate(self, two):
        """Tokens of a gate taking one or two operands."""
        r = self.rng
        out = []
        if two and r.random() < 0.6:
            g = r.choice(DOUBLE)
            return [g] + self.param_tokens(GATE_PARAMS.get(g, ""))
        g = r.choice(SINGLE)
        core = [g] + self.param_tokens(GATE_PARAMS.get(g, ""))
        n = r.choice([0, 0, 0, 1, 1, 2, 3, 5])
        if two:
            out += ["ctrl", "."]
        for _ in range(n):
            if r.random() < 0.5:
                out += ["inv", "."]
            else:
                out += ["pow", "("] + self.ex(self.const("any", r.choice([0, 1, 2]))) + [")", "."]
        return out + core

    def instruction(self):
        r = self.rng
        k = r.random()
        if k < 0.3:
            o = self.operand("q")
            return o and self.gate(False) + o[0]
        if k < 0.55:
            o = self.operand("q")
            p = o and self.operand("q", o[1])
            return p and self.gate(True) + o[0] + [","] + p[0]
        if k < 0.75:
            o = self.operand("b")
            p = o and self.operand("q", o[1])
            return p and o[0] + ["=", "measure"] + (self.param_tokens("fff") if r.random() < 0.3 else []) + p[0]
        if k < 0.9:
            o = self.operand("q")
            return o and [r.choice(["reset", "init", "barrier"])] + o[0]
        o = self.operand("q")
        return o and ["wait"] + self.param_tokens("i") + o[0]

    def raw(self):
        r = self.rng
        pieces = ["", " ", "\n", "a", "x y", "'", "''", "\"", ";", "//", "/*", "*/", "#", "version 3", "é", "→", "𝄞", "{", "}", "\\", "\t",
                  "\r\n", "measure", "0", "\\'", "$", "%s", "\x00", "\x7f", "]", "'x'"]
        s = "".join(r.choice(pieces) for _ in range(r.choice([0, 1, 2, 3, 6, 12])))
        while "'''" in s:
            s = s.replace("'''", "''")
        return "'''" + s.rstrip("'") + ("" if s.rstrip("'") == s else s[len(s.rstrip("'")):]) + "'''"

    def asm(self):
        r = self.rng
        s = self.raw()
        if s[3:].find("'''") != len(s) - 6:      # the code itself must not end in a quote
            s = "'''" + s[3:-3].strip("'") + "'''"
        return ["asm", "(", r.choice(NAMES), ")", s]

    def valid(self):
        r = self.rng
        k = r.random()
        if k < 0.06:
            return self.asm()
        if k < 0.14 or not self.vars:
            return self.definition()
        s = self.instruction()
        return s or self.definition()

    def kernel(self):
        """An expression that is at fault in itself, or at least unusual."""
        r = self.rng
        v = self.pick("VW") or ("q", "V", 2)
        one = self.pick("QB") or ("q", "Q", 1)
        n, size = v[0], v[2]
        k = r.randrange(16)
        if k == 0:
            return ["undeclared_%d" % r.randrange(9)]
        if k == 1:
            return [n]
        if k == 2:
            return [one[0]]
        if k == 3:
            return [r.choice(["1", "0", "7"]), r.choice("/%"), "0"]
        if k == 4:
            return ["9223372036854775807", r.choice("+*"), str(r.randrange(2, 9))]
        if k == 5:
            return ["1", r.choice(["<<", ">>"]), r.choice(["64", "100", "4294967296"])]
        if k == 6:
            return [r.choice(["f", "Sin", "max", "operator"]), "(", "1", ")"]
        if k == 7:
            return [r.choice(FUNCTIONS), "("] + r.choice([[], ["1", ",", "2"], ["1", ",", "2", ",", "3."]]) + [")"]
        if k == 8:
            return [n, "[", str(size + r.choice([0, 1, 2**32])), "]"]
        if k == 9:
            return [n, "[", r.choice(["1.", "pi", "0.5"]), "]"]
        if k == 10:
            return [r.choice([one[0], "pi"]), "[", "0", "]"]
        if k == 11:
            return ["true", r.choice(["<<", "&", "%", "|"]), "1.5"]
        if k == 12:
            return [r.choice("!~"), "2.5"]
        if k == 13:
            return ["1", r.choice(["&&", "||", "^^"]), "2.5"]
        if k == 14:
            return ["1", "?", "2", ":", "3"]
        return [r.choice(["1.5", "true", "- 1"]).split(" ")[-1]]

    def nested(self, e, depth):
        """The expression e somewhere inside others."""
        r = self.rng
        if depth <= 0:
            return e
        c = lambda: self.ex(self.const(r.choice("bif"), r.choice([0, 1])))
        p = ["("] + e + [")"]
        k = r.randrange(9)
        if k == 0:
            e = p + [r.choice(list("+-*/%<>&|^") + ["**", "<<", "==", "&&", "^^", ">="])] + ["("] + c() + [")"]
        elif k == 1:
            e = ["("] + c() + [")"] + [r.choice(list("+-*/%<>&|^") + ["**", ">>", "!=", "||", "<="])] + p
        elif k == 2:
            e = [r.choice("-+~!")] + p
        elif k == 3:
            e = [r.choice(FUNCTIONS)] + p
        elif k == 4:
            e = ["("] + c() + [")", "?"] + p + [":", "("] + c() + [")"]
        elif k == 5:
            e = ["("] + c() + [")", "?", "("] + c() + [")", ":"] + p
        elif k == 6:
            e = p + ["?", "("] + c() + [")", ":", "("] + c() + [")"]
        elif k == 7:
            n = r.choice(["r", (self.pick("VW") or ("q",))[0]])
            return self.nested([n, "["] + e + ["]"], depth - 1)
        else:
            e = p
        return self.nested(e, depth - 1)

    def modifiers(self):
        r = self.rng
        out = []
        for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
            m = r.choice(["inv", "pow", "pow", "ctrl"])
            out += [m] + (["("] + (self.nested(self.kernel(), r.choice([0, 0, 1])) if r.random() < 0.2 else self.ex(self.const(r.choice("if"), 1))) + [")"] if m == "pow" else []) + ["."]
        return out

    def placed(self):
        """A statement with an expression at fault in one of the places that take one."""
        r = self.rng
        e = self.nested(self.kernel(), r.choice([0, 0, 1, 1, 2, 3]))
        q = self.operand("q") or (["q"], 1)
        p = self.operand("q", q[1]) or (["q"], 1)
        b = self.operand("b", q[1]) or (["b"], 1)
        v = self.pick("VW") or ("q", "V", 2)
        k = r.randrange(12)
        some = lambda: self.ex(self.const(r.choice("if"), 1))
        if k == 0:
            return ["Rx", "("] + e + [")"] + q[0]
        if k == 1:
            i = r.randrange(3)
            return ["U", "("] + [t for j in range(3) for t in ([","] if j else []) + (e if i == j else some())] + [")"] + q[0]
        if k == 2:
            return [r.choice(["CR", "CRk"]), "("] + e + [")"] + q[0] + [","] + p[0]
        if k == 3:
            return ["wait", "("] + e + [")"] + q[0]
        if k == 4:
            return ["pow", "("] + e + [")", "."] + (self.modifiers() if r.random() < 0.5 else []) + [r.choice(SINGLE[:6])] + q[0]
        if k == 5:
            return self.modifiers() + ["pow", "("] + e + [")", "."] + [r.choice(["X", "H", "S"])] + q[0]
        if k == 6:
            i, n = r.randrange(3), r.choice([1, 2, 3])
            ix = [t for j in range(n) for t in ([","] if j else []) + (e if j == i % n else [str(r.randrange(v[2]))])]
            return r.choice([["X"], ["reset"], ["inv", ".", "H"]]) + [v[0], "["] + ix + ["]"]
        if k == 7:
            return ["X", v[0], "["] + (e + [":", str(v[2] - 1)] if r.random() < 0.5 else ["0", ":"] + e) + ["]"]
        if k == 8:
            return b[0] + ["=", "measure"] + e
        if k == 9:
            return e + ["=", "measure"] + q[0]
        if k == 10:
            return [r.choice(["CNOT", "CZ", "SWAP"])] + (e + [","] + q[0] if r.random() < 0.5 else q[0] + [","] + e)
        return [r.choice(["reset", "init", "barrier", "X"])] + e

    def faulty(self):
        """Most of these are analysis errors; the reference decides."""
        r = self.rng
        k = r.random()
        if k < 0.35:
            return self.placed()
        s = self.faulty_simple()
        if k < 0.5 and s and s[0] in SINGLE + DOUBLE:
            s = self.modifiers() + s
        return s

    def faulty_simple(self):
        r = self.rng
        v = self.pick("VW") or ("q", "V", 2)
        one = self.pick("QB") or ("q", "Q", 1)
        q = self.operand("q") or (["q"], 1)
        b = self.operand("b") or (["b"], 1)
        n, size = v[0], v[2]
        some = lambda kind="any", d=1: self.ex(self.const(kind, d))
        k = r.randrange(34)
        use = ["X"] if v[1] == "V" else ["reset"]
        if k == 0:
            return ["H", "undeclared_" + str(r.randrange(9))]
        if k == 1 and self.vars:
            return [r.choice(["qubit", "bit"]), r.choice(self.vars)[0]]
        if k == 2:
            return [r.choice(["qubit", "bit"])] + (["[", "3", "]"] if r.random() < 0.5 else []) + [r.choice(["pi", "eu", "tau"])]
        if k == 3:
            return [r.choice(["qubit", "bit"]), "[", "0" * r.randrange(1, 3), "]", self.fresh()]
        if k == 4:
            return [r.choice(["x", "Xx", "cnot", "Hadamard", "RX", "sdag", "_", "measureX", "barrier1"])] + q[0]
        if k == 5:
            return [r.choice(["Rx", "CR", "Rn", "U", "CRk"])] + q[0]
        if k == 6:
            return [r.choice(["X", "H", "CZ", "Sdag"]), "("] + some() + [")"] + q[0]
        if k == 7:
            g = r.choice(["Rx", "Rn", "U", "Rz"])
            m = r.choice([x for x in (1, 2, 3, 4, 5, 6) if x != len(GATE_PARAMS[g])])
            return [g] + self.param_tokens("f" * m) + q[0]
        if k == 8:
            p = self.operand("q", q[1]) or (["q"], 1)
            return ["CRk", "("] + some("f") + [")"] + q[0] + [","] + p[0]
        if k == 9:
            return ["wait", "("] + some("f") + [")"] + q[0]
        if k == 10:
            return [r.choice(["X", "H", "reset", "init", "barrier"])] + b[0]
        if k == 11:
            return [r.choice(["X", "barrier"])] + some()
        if k == 12:
            p = self.operand("q", q[1] + r.choice([1, 2])) or (["q"], 1)
            return [r.choice(["CNOT", "SWAP", "CZ"])] + (q[0] + [","] + p[0] if r.random() < 0.5 else p[0] + [","] + q[0])
        if k == 13:
            p = self.operand("q", b[1] + r.choice([1, 2])) or (["q"], 1)
            return b[0] + ["=", "measure"] + p[0]
        if k == 14:
            return use + [n, "["] + self.ex(self.value(size + r.choice([0, 0, 1, 7, 2**31, 2**32, 2**62]))) + ["]"]
        if k == 15:
            return use + [n, "[", "-", str(r.choice([1, 1, 2, 2**31, 2**63 - 1])), "]"]
        if k == 16:
            hi = r.choice([size, size + 1, 2**31, 2**40, 2**63 - 1])
            return use + [n, "["] + self.ex(self.value(r.randrange(size))) + [":", str(hi), "]"]
        if k == 17 and size > 1:
            a = r.randrange(1, size)
            return use + [n, "["] + self.ex(self.value(a)) + [":"] + self.ex(self.value(r.randrange(a))) + ["]"]
        if k == 18:
            return use + [n, "["] + some("f") + ["]"]
        if k == 19:
            return use + [one[0], "[", "0", "]"]
        if k == 20:
            return ["Rx", "(", r.choice(["pi", "tau"]), "[", "0", "]", ")"] + q[0]
        if k == 21:
            return [r.choice(["inv", "ctrl"]), ".", r.choice(["CNOT", "SWAP", "CZ"])] + q[0] + [","] + q[0]
        if k == 22:
            return [r.choice(["inv", "ctrl"]), ".", "ctrl", ".", "X"] + q[0] + [","] + q[0]
        if k == 23:
            return ["Rx", "("] + [r.choice(["f", "Sin", "max", "sqrt2", "operator"]), "("] + some() + [")", ")"] + q[0]
        if k == 24:
            return ["Rx", "(", r.choice(FUNCTIONS), "("] + r.choice([[], some() + [","] + some()]) + [")", ")"] + q[0]
        if k == 25:
            op = r.choice(["&", "|", "^", "<<", ">>", "%"])
            return ["Rx", "("] + some("f", 0) + [op] + some("i", 0) + [")"] + q[0]
        if k == 26:
            op = r.choice(["&&", "||", "^^"])
            return ["Rx", "("] + some("i", 0) + [op] + some("b", 0) + [")"] + q[0]
        if k == 27:
            return ["Rx", "(", r.choice(["!", "~", "~"])] + some("f", 0) + [")"] + q[0]
        if k == 28:
            return ["Rx", "("] + some("i", 0) + [r.choice("/%"), "0", ")"] + q[0]
        if k == 29:
            return ["Rx", "(", "9223372036854775807", r.choice("+*"), str(r.randrange(2, 9)), ")"] + q[0]
        if k == 30:
            return ["Rx", "(", "1", r.choice(["<<", ">>"])] + r.choice([["64"], ["-", "1"], ["100"]]) + [")"] + q[0]
        if k == 31:
            return ["Rx", "("] + (q[0] if r.random() < 0.5 else b[0]) + r.choice([[], ["+", "1"], ["==", "1"]]) + [")"] + q[0]
        if k == 32:
            return b[0] + ["=", "measure"] + self.param_tokens("f" * r.choice([1, 2, 4])) + q[0]
        return [r.choice(["X", "H"])] + q[0] + [","] + q[0]

    def program(self, n, faults=0.0, version="3.0"):
        r = self.rng
        out = [["version", version]]
        for k in r.sample(["Q", "V", "V", "B", "W"], r.randrange(2, 6)):
            out.append(self.definition(k))
        for _ in range(n):
            out.append(self.faulty() if r.random() < faults else self.valid())
        return out

    def wild_statement(self):
        r = self.rng
        e = lambda d=3: self.ex(self.wild(r.randrange(d + 1))) if r.random() < 0.7 else self.wild_flat(r.randrange(1, 7))
        k = r.randrange(8)
        if k == 0:
            return self.asm()
        if k == 1:
            return [r.choice(["qubit", "bit"])] + (["[", str(r.randrange(5)), "]"] if r.random() < 0.6 else []) + [r.choice(NAMES)]
        if k == 2:
            return [r.choice(["reset", "init", "barrier"])] + e()
        if k == 3:
            return ["wait", "("] + e() + [")"] + e()
        if k == 4:
            return e() + ["=", "measure"] + (self.wild_list() if r.random() < 0.3 else []) + e()
        out = []
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            m = r.choice(["inv", "ctrl", "pow"])
            out += [m] + (["("] + e(2) + [")"] if m == "pow" else []) + ["."]
        out += [r.choice(NAMES + SINGLE)] + (self.wild_list() if r.random() < 0.4 else [])
        for i in range(r.choice([1, 1, 2, 3])):
            out += ([","] if i else []) + e()
        return out

    def wild_list(self):
        out = ["("]
        for i in range(self.rng.choice([1, 1, 2, 3])):
            out += ([","] if i else []) + self.ex(self.wild(self.rng.randrange(3)))
        return out + [")"]

    def wild_program(self, n):
        r = self.rng
        return [["version", r.choice(["3", "3.0", "3.0", "3.1", "03.00", "2.0", "999"])]] + [self.wild_statement() for _ in range(n)]


# ---------------------------------------------------------------------------------------------------------- layout
COMMENT_BITS = ["", " ", "x", "é", "*", "/", "'''", "\"", "/*", "//", ";", "→", "version 3.0", "\t", "qubit q", "***", "𝄞", "'", "(", "\\"]
ODD_BITS = ["\x1a", "\0", "\x01", "\x04", "\x08", "\x0b", "\x0c", "\x1b", "\x7f", "\x85", "\u00a0", "\u2028", "\u2029", "\ufeff", "\ufffd", "\U0010ffff", "$", "@", "#", "%s", "{}", "\\\n\\", "?"]


def comment(rng, multi):
    bits = COMMENT_BITS + (["\n", "\r\n"] if multi else [])
    s = "".join(rng.choice(bits if rng.random() < 0.85 else ODD_BITS) for _ in range(rng.randrange(5)))
    if multi:
        s = s.replace("*/", "*")
        while "*/" in s:
            s = s.replace("*/", "*")
        if s.endswith("*") and rng.random() < 0.5:
            s += " "
        return "/*" + (s.replace("\n", "\r", 1) if rng.random() < 0.05 else s) + "*/"
    return "//" + s.replace("\n", "")


def glue_needed(a, b):
    """Whether the two tokens would read differently if written together."""
    key = (a, b)
    r = _glue.get(key)
    if r is None:
        if a == "version":
            r = True
        else:
            t, e = syntax.lex(a + b)
            r = not (e is None and len(t) == 3 and t[0].s == a and t[1].s == b)
        if len(_glue) < 200000:
            _glue[key] = r
    return r


_glue = {}


class Style:
    def __init__(self, blanks=0.1, comments=0.0, crlf=0.1, semi=0.3, empty=0.1, lead=0.1, tail=0.5):
        self.blanks, self.comments, self.crlf, self.semi, self.empty = blanks, comments, crlf, semi, empty
        self.lead, self.tail = lead, tail


PLAIN = Style(0, 0, 0, 0, 0, 0, 1)


def random_style(rng):
    return Style(rng.choice([0, 0.1, 0.5, 0.9]), rng.choice([0, 0, 0.1, 0.4]), rng.choice([0, 0, 0.5, 1]),
                 rng.choice([0, 0.3, 0.5, 1]), rng.choice([0, 0.1, 0.5]), rng.choice([0, 0.5]), rng.choice([0, 0.5, 1]))


def blank(rng, st):
    out = ""
    if rng.random() < st.blanks:
        out += rng.choice([" ", "  ", "\t", " \t ", "    "])
    if rng.random() < st.comments:
        out += comment(rng, True)
        if rng.random() < st.blanks:
            out += rng.choice([" ", "\t"])
    return out


def separator(rng, st):
    out = ""
    while True:
        k = rng.random()
        if rng.random() < st.semi:
            out += ";"
        else:
            if rng.random() < st.comments:
                out += " " + comment(rng, False)
            out += "\r\n" if rng.random() < st.crlf else "\n"
        if st is PLAIN:
            return out
        b = blank(rng, st)
        out += b
        if rng.random() >= st.empty:
            return out


def render(statements, rng, st=PLAIN):
    """-> text whose tokens are those of the statements with separators between them"""
    out = []
    if rng.random() < st.lead:
        out.append(blank(rng, st))
        if rng.random() < 0.7:
            out.append(separator(rng, st))
    for i, s in enumerate(statements):
        if i:
            out.append(separator(rng, st))
            if out[-1].endswith("/"):
                out.append(" ")
        prev = None
        for t in s:
            if prev is not None:
                if prev == "version":
                    out.append(rng.choice([" ", "  ", "\t", " \t"]) if st is not PLAIN else " ")
                else:
                    g = blank(rng, st)
                    if not g and (glue_needed(prev, t) or (st is PLAIN and prev not in "([~!.-" and t not in ")],.([:")):
                        g = " "
                    if g.startswith("/") and prev in ("/", "*"):
                        g = " " + g
                    out.append(g)
            out.append(t)
            prev = t
        if prev == "/":
            out.append(" ")
        out.append(blank(rng, st) if st is not PLAIN else "")
        if out[-1].startswith("/") and prev == "/":
            out[-1] = " " + out[-1]
    if rng.random() < st.tail:
        out.append(separator(rng, st))
    elif rng.random() < st.comments:
        out.append(" " + comment(rng, False))
    return "".join(out)


def layout(statements, rng, st=None):
    """render, verified: the text lexes to exactly these tokens"""
    want = [t for s in statements for t in s]
    for _ in range(5):
        text = render(statements, rng, st or random_style(rng))
        toks, err = syntax.lex(text)
        if err is None and [t.s for t in toks if t.k not in ("NL", ";", "EOF")] == want:
            return text
    text = "\n".join(" ".join(s) for s in statements) + "\n"
    return text
