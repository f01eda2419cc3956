"""Reference semantic analyser: syntax tree (as built by syntax.py) -> expected semantic tree or faults."""
import ctypes
import math
import struct

from .syntax import float_dump

I64MIN, I64MAX = -2**63, 2**63 - 1
libm = ctypes.CDLL("libm.so.6")


def _mathfn(name, n=1):
    f = getattr(libm, name)
    f.restype = ctypes.c_double
    f.argtypes = [ctypes.c_double] * n
    return f


class Fault(Exception):
    """An analysis error; kind is for bookkeeping only, about is what its message has to name, in any order."""

    def __init__(self, kind, loc=None, about=()):
        self.kind, self.loc, self.about = kind, loc, list(about)
        super().__init__(kind)

    def context(self, n):
        if self.loc is None and n.get("%"):
            self.loc = n["%"]


NAMES = {"Q": "qubit", "V": "qubit array", "B": "bit", "W": "bit array", "b": "bool", "i": "int", "f": "float"}


def pack(values):
    return "(%s)" % ", ".join(NAMES[v.type()] for v in values)


class Var:
    def __init__(self, name, kind, size):
        self.name, self.kind, self.size = name, kind, size   # kind: Q V B W
        self.annotations = []


class Val:
    """kind: b i f (constant), or 'ref' (whole variable) or 'idx'."""
    __slots__ = ("kind", "v", "var", "idx", "loc")

    def __init__(self, kind, v=None, var=None, idx=None, loc=None):
        self.kind, self.v, self.var, self.idx, self.loc = kind, v, var, idx, loc

    def type(self):
        if self.kind == "ref":
            return self.var.kind
        if self.kind == "idx":
            return {"V": "Q", "W": "B"}[self.var.kind] if len(self.idx) == 1 else self.var.kind
        return self.kind

    def size(self):
        return self.var.size if self.kind == "ref" else len(self.idx) if self.kind == "idx" else 1

    def dump(self, variables):
        if self.kind == "ref":
            d = {"@": "VariableRef", "variable": {"->": self.link(variables)}}
        elif self.kind == "idx":
            d = {"@": "IndexRef", "variable": {"->": self.link(variables)},
                 "indices": [{"@": "ConstInt", "value": i} for i in self.idx]}
        elif self.kind == "b":
            d = {"@": "ConstBool", "value": self.v}
        elif self.kind == "i":
            d = {"@": "ConstInt", "value": self.v}
        else:
            d = {"@": "ConstFloat", "value": float_dump(self.v)}
        if self.loc:
            d["%"] = self.loc
        return d

    def link(self, variables):
        for i, v in enumerate(variables):
            if v is self.var:
                return i
        return "outside"


def promotes(t, to):
    return t == to or (t == "b" and to in "if") or (t == "i" and to == "f")


def promote(val, to):
    t = val.type()
    if t == to:
        return val
    if t == "b" and to == "i":
        return Val("i", int(val.v), loc=val.loc)
    if t in "bi" and to == "f":
        return Val("f", float(int(val.v)), loc=val.loc)
    return None


def _int(v):
    if not I64MIN <= v <= I64MAX:
        raise Fault("overflow")
    return v


def _div(a, b):
    if b == 0:
        raise Fault("division by zero")
    q = abs(a) // abs(b)
    return _int(q if (a < 0) == (b < 0) else -q)


def _mod(a, b):
    if b == 0:
        raise Fault("division by zero")
    r = abs(a) % abs(b)
    return -r if a < 0 else r


def _wrap(v):
    v &= 2**64 - 1
    return v - 2**64 if v >= 2**63 else v


def _shift(b):
    if not 0 <= b <= 63:
        raise Fault("shift count")


def _shl(a, b):
    _shift(b)
    return _wrap(a << b)


def _shr(a, b):
    _shift(b)
    return a >> b


def _fdiv(a, b):
    if b == 0:
        if a == 0 or a != a:
            return float("nan")
        return math.copysign(float("inf"), a) * math.copysign(1.0, b)
    return a / b


def _cmp(f):
    return lambda a, b: f(a, b)


def default_functions():
    t = {}

    def add(name, types, ret, f):
        t.setdefault(name, []).append((types, ret, f))

    add("operator-", "f", "f", lambda a: -a)
    add("operator-", "i", "i", lambda a: _int(-a))
    for op, ff, fi in (("+", lambda a, b: a + b, lambda a, b: _int(a + b)),
                       ("-", lambda a, b: a - b, lambda a, b: _int(a - b)),
                       ("*", lambda a, b: a * b, lambda a, b: _int(a * b)),
                       ("/", _fdiv, _div)):
        add("operator" + op, "ff", "f", ff)
        add("operator" + op, "ii", "i", fi)
    add("operator%", "ii", "i", _mod)
    add("operator**", "ff", "f", _mathfn("pow", 2))
    for types in ("ff", "ii", "bb"):
        add("operator==", types, "b", lambda a, b: a == b)
        add("operator!=", types, "b", lambda a, b: a != b)
        add("operator<", types, "b", lambda a, b: a < b)
        add("operator>", types, "b", lambda a, b: a > b)
        add("operator<=", types, "b", lambda a, b: a <= b)
        add("operator>=", types, "b", lambda a, b: a >= b)
    add("operator~", "i", "i", lambda a: ~a)
    add("operator&", "ii", "i", lambda a, b: a & b)
    add("operator|", "ii", "i", lambda a, b: a | b)
    add("operator^", "ii", "i", lambda a, b: a ^ b)
    add("operator<<", "ii", "i", _shl)
    add("operator>>", "ii", "i", _shr)
    add("operator!", "b", "b", lambda a: not a)
    add("operator&&", "bb", "b", lambda a, b: a and b)
    add("operator||", "bb", "b", lambda a, b: a or b)
    add("operator^^", "bb", "b", lambda a, b: a != b)
    for types in ("bff", "bii", "bbb"):
        add("operator?:", types, types[1], lambda c, a, b: a if c else b)
    for f in ("sqrt exp log sin cos tan sinh cosh tanh asin acos atan asinh acosh atanh").split():
        add(f, "f", "f", _mathfn(f))
    add("abs", "f", "f", abs)
    add("abs", "i", "i", lambda a: _int(abs(a)))
    return t


CONSTANTS = {"true": ("b", True), "false": ("b", False), "pi": ("f", 3.141592653589793), "eu": ("f", 2.718281828459045),
             "tau": ("f", 6.283185307179586)}

SINGLE = "H I mX90 mY90 mZ90 Rn Rx Ry Rz S Sdag T Tdag U X X90 Y Y90 Z Z90".split()
DOUBLE = "CNOT CR CRk CZ SWAP".split()
GATE_PARAMS = {"Rn": "fffff", "Rx": "f", "Ry": "f", "Rz": "f", "U": "fff", "CR": "f", "CRk": "i"}
MODIFIER_PARAMS = {"inv": "", "pow": "f", "ctrl": ""}
NONGATES = {"measure": ["", "fff"], "reset": [""], "init": [""], "barrier": [""], "wait": ["i"]}
NONGATE_OPERANDS = {"measure": ["BQ", "WV", "BV", "WQ"], "reset": ["Q", "V"], "init": ["Q", "V"], "barrier": ["Q", "V"],
                    "wait": ["Q", "V"]}


def default_instructions():
    t = {}
    for g in SINGLE:
        t[g] = ["Q", "V"]
        t["1q_" + g] = ["Q", "V"]
        t["2q_" + g] = ["QQ", "QV", "VQ", "VV"]
    for g in DOUBLE:
        t[g] = ["QQ", "QV", "VQ", "VV"]
    for n, o in NONGATE_OPERANDS.items():
        t[n] = list(o)
    return t


TYPE_NODE = {"Q": "Qubit", "V": "QubitArray", "B": "Bit", "W": "BitArray", "b": "Bool", "i": "Int", "f": "Float"}


class Scope:
    def __init__(self):
        self.variables = {}       # name -> Val
        self.instructions = {}    # name -> [operand types], in order of registration
        self.functions = {}


class Config:
    """What is registered: scopes from innermost to outermost."""

    def __init__(self, constants=True, functions=True, instructions=True):
        s = Scope()
        if constants:
            for n, (k, v) in CONSTANTS.items():
                s.variables[n] = Val(k, v)
        if functions:
            s.functions = default_functions()
        if instructions:
            s.instructions = default_instructions()
        self.scopes = [s]

    def clone(self):
        c = Config.__new__(Config)
        c.scopes = []
        for s in self.scopes:
            n = Scope()
            n.variables = dict(s.variables)
            n.instructions = {k: list(v) for k, v in s.instructions.items()}
            n.functions = {k: list(v) for k, v in s.functions.items()}
            c.scopes.append(n)
        return c


class Analysis:
    def __init__(self):
        self.errors = []       # Fault
        self.statements = []   # expected dumps
        self.owner = []        # per expected statement: index of the source statement
        self.variables = []    # Var
        self.version = None
        self.faulty = {}       # source statement index -> Fault
        self.consts = 0


class Analyzer:
    def __init__(self, config=None):
        self.config = (config or Config()).clone()

    # expressions ------------------------------------------------------------------------------------------------
    def lookup(self, name):
        for s in self.config.scopes:
            if name in s.variables:
                v = s.variables[name]
                return Val(v.kind, v.v, v.var, v.idx)
        raise Fault("unknown variable", about=["'%s'" % name])

    def call(self, name, args):
        overloads = self.config.scopes[-1].functions.get(name)
        if overloads is None:
            raise Fault("unknown function", about=["'%s'" % name])
        for types, ret, f in reversed(overloads):
            if len(types) == len(args) and all(promotes(a.type(), t) for a, t in zip(args, types)):
                ps = [promote(a, t) for a, t in zip(args, types)]
                if hasattr(f, "raw"):      # a function of the user's
                    return f.raw(ps)
                for p in ps:
                    if p.kind in ("ref", "idx"):
                        raise Fault("dynamic value", p.loc)
                return Val(ret, f(*[p.v for p in ps]))
        raise Fault("no overload", about=["'%s'" % name, pack(args)])

    def expr(self, n):
        try:
            v = self.visit(n)
            v.loc = n.get("%")
            return v
        except Fault as f:
            f.context(n)
            raise

    def visit(self, n):
        k = n["@"]
        if k == "IntegerLiteral":
            return Val("i", n["value"])
        if k == "FloatLiteral":
            return Val("f", struct.unpack(">d", bytes.fromhex(n["value"][2:]))[0])
        if k == "BooleanLiteral":
            return Val("b", n["value"])
        if k == "Identifier":
            return self.lookup(n["name"])
        if k == "FunctionCall":
            args = [self.expr(a) for a in (n["arguments"]["items"] if n["arguments"] else [])]
            return self.call(n["name"]["name"], args)
        if k == "Index":
            return self.index(n)
        if k == "TernaryConditionalExpression":
            return self.call("operator?:", [self.expr(n["cond"]), self.expr(n["if_true"]), self.expr(n["if_false"])])
        if k in UN:
            return self.call("operator" + UN[k], [self.expr(n["expr"])])
        return self.call("operator" + BIN[k], [self.expr(n["lhs"]), self.expr(n["rhs"])])

    def const_int(self, n):
        v = promote(self.visit(n), "i")
        if v is None or v.kind != "i":
            raise Fault("not an integer", n.get("%"))
        return v.v

    def index(self, n):
        try:
            e = self.expr(n["expr"])
            if e.kind != "ref" or e.var.kind not in "VW":
                raise Fault("cannot be indexed", about=["'%s'" % NAMES[e.type()]])
            out = []
            bad = []
            for i in n["indices"]["items"]:
                if i["@"] == "IndexItem":
                    x = self.const_int(i["index"])
                    if not 0 <= x < e.var.size:
                        bad.append(x)
                    out.append(x)
                else:
                    a, b = self.const_int(i["first"]), self.const_int(i["last"])
                    if a > b:
                        raise Fault("reversed range")
                    if a < 0 or b >= e.var.size:
                        size = e.var.size
                        bad += [x for x in (a, -1, size, b) if a <= x <= b and not 0 <= x < size]   # any of those will do
                    else:
                        out += range(a, b + 1)
            if bad:
                raise Fault("index out of range", about=[tuple(map(str, bad)), str(e.var.size)])
            return Val("idx", var=e.var, idx=out)
        except Fault as f:
            f.context(n)
            raise

    # instructions -----------------------------------------------------------------------------------------------
    def params(self, values, types, name):
        if len(values) != len(types):
            raise Fault("number of parameters", about=["'%s'" % name, str(len(values))] + [str(len(types))] * bool(types))
        out = []
        for v, t in zip(values, types):
            p = promote(v, t)
            if p is None:
                raise Fault("type of parameter", about=["'%s'" % name, pack([v])])
            out.append(p)
        return out

    def gate(self, n):
        """-> (dump-maker, resolution name, terminal name)"""
        try:
            name = n["name"]["name"]
            inner = self.gate(n["gate"]) if n["gate"] else None
            params = [self.expr(p) for p in n["parameters"]["items"]]
            if name in MODIFIER_PARAMS:
                types = MODIFIER_PARAMS[name]
            elif name in SINGLE or name in DOUBLE:
                types = GATE_PARAMS.get(name, "")
            else:
                raise Fault("unknown gate", about=["'%s'" % name])
            params = self.params(params, types, name)
            if inner and inner["two"]:
                raise Fault("modifier on a multi-qubit gate")
        except Fault as f:
            f.context(n)
            raise
        notes = self.annotated(n)
        terminal = inner["terminal"] if inner else name
        return {"name": name, "inner": inner, "params": params, "loc": n["%"], "notes": notes, "terminal": terminal,
                "two": name == "ctrl" if inner else name in DOUBLE,
                "resolution": ("2q_" if name == "ctrl" else "1q_") + terminal if inner else name}

    def annotated(self, n):
        """Annotations, which only trees built by hand have; a faulty operand is an error of its own and left out.
        -> what makes their dump"""
        out = []
        for a in n.get("annotations", []):
            values = []
            for o in a["operands"]["items"]:
                try:
                    v = self.visit(o)
                    v.loc = None
                    values.append(v)
                except Fault as f:
                    f.context(a)
                    self.r.errors.append(f)
            out.append((a, values))
        return lambda vs: [dict({"@": "AnnotationData", "interface": a["interface"]["name"], "operation": a["operation"]["name"],
                                 "operands": [v.dump(vs) for v in values]}, **({"%": a["%"]} if a.get("%") else {})) for a, values in out]

    def gate_dump(self, g, variables):
        return {"@": "Gate", "%": g["loc"], "name": g["name"],
                "gate": self.gate_dump(g["inner"], variables) if g["inner"] else None,
                "parameters": [p.dump(variables) for p in g["params"]], "annotations": g["notes"](variables)}

    def resolve(self, name, operands):
        types = [o.type() for o in operands]
        for s in self.config.scopes:
            for spec in reversed(s.instructions.get(name, [])):
                if len(spec) == len(types) and all(promotes(t, p) for t, p in zip(types, spec)):
                    return {"name": name, "operand_types": [{"@": TYPE_NODE[c], "size": 0} for c in spec]}, \
                        [promote(o, p) for o, p in zip(operands, spec)]
        raise Fault("no such instruction", about=["'%s'" % name, pack(operands)])

    def analyze(self, ast):
        r = Analysis()
        cfg = self.config.clone()
        saved, self.config = self.config, cfg
        try:
            self._analyze(ast, r)
        finally:
            self.config = saved
        return r

    def _analyze(self, ast, r):
        v = ast["version"]
        items = list(v["items"])
        self.r = r
        trimmed = list(items)
        while trimmed and trimmed[-1] == 0:
            trimmed.pop()
        if trimmed != [3]:
            r.errors.append(Fault("version", v["%"], ["3.0", ".".join(map(str, items))]))
            items = [3, 0]
        r.version = {"@": "Version", "%": v["%"], "items": items}
        makers = []
        scope = self.config.scopes[0]
        for i, s in enumerate(ast["block"]["statements"]):
            try:
                m = self.statement(s, scope, r)
                if m:
                    makers.append((i, m))
            except Fault as f:
                f.context(s)
                r.errors.append(f)
                r.faulty[i] = f
        for i, m in makers:
            r.statements.append(m(r.variables))
            r.owner.append(i)
        block = {"@": "Block", "statements": r.statements}
        loc = None
        for s in r.statements:
            l = s.get("%")
            if l:
                loc = list(l) if loc is None else (
                    list(min(loc[0:2], l[0:2])) + list(max(loc[2:4], l[2:4])) + [loc[4]])
        if loc:
            block["%"] = loc
        r.tree = {"@": "Program", "api_version": [3, 0], "version": r.version, "block": block,
                  "variables": [{"@": "Variable", "name": v.name, "typ": {"@": TYPE_NODE[v.kind], "size": v.size},
                                 "annotations": v.annotations(r.variables) if v.annotations else []} for v in r.variables]}

    def statement(self, s, scope, r):
        k = s["@"]
        if k == "Variable":
            bit = s["typ"]["name"]["name"] == "bit"
            size = s["typ"]["size"]
            if size is not None and size["value"] <= 0:
                raise Fault("array size", about=["bit" if bit else "qubit"])
            name = s["name"]["name"]
            notes = self.annotated(s)
            if name in scope.variables:
                raise Fault("redeclared", about=["'%s'" % name])
            var = Var(name, ("W" if bit else "V") if size else ("B" if bit else "Q"), size["value"] if size else 1)
            var.annotations = notes
            scope.variables[name] = Val("ref", var=var)
            r.variables.append(var)
            return None
        if k == "AsmDeclaration":
            notes = self.annotated(s)
            return lambda vs: {"@": "AsmDeclaration", "backend_name": s["backend_name"]["name"],
                               "backend_code": s["backend_code"], "annotations": notes(vs)}
        if k == "GateInstruction":
            g = self.gate(s["gate"])
            ops = [self.expr(o) for o in s["operands"]["items"]]
            ref, ops = self.resolve(g["resolution"], ops)
            sizes = [o.size() if o.kind in ("ref", "idx") and o.var.kind in "QV" else 0 for o in ops]
            if len(set(sizes)) > 1:
                raise Fault("different sizes")
            notes = self.annotated(s)
            return lambda vs: {"@": "GateInstruction", "%": s["%"], "instruction_ref": ref, "gate": self.gate_dump(g, vs),
                               "operands": [o.dump(vs) for o in ops], "annotations": notes(vs)}
        name = s["name"]["name"]
        ops = [self.expr(o) for o in s["operands"]["items"]]
        ref, ops = self.resolve(name, ops)
        params = [self.expr(p) for p in s["parameters"]["items"]]
        for types in NONGATES[name]:
            if len(types) == len(params):
                params = self.params(params, types, name)
                break
        else:
            raise Fault("number of parameters", about=["'%s'" % name, str(len(params))])
        if name == "measure":
            q = sum(o.size() for o in ops if o.kind in ("ref", "idx") and o.var.kind in "QV")
            b = sum(o.size() for o in ops if o.kind in ("ref", "idx") and o.var.kind in "BW")
            if q != b:
                raise Fault("different sizes")
        notes = self.annotated(s)
        return lambda vs: {"@": "NonGateInstruction", "%": s["%"], "instruction_ref": ref, "name": name,
                           "operands": [o.dump(vs) for o in ops], "parameters": [p.dump(vs) for p in params],
                           "annotations": notes(vs)}


UN = {"UnaryMinusExpression": "-", "BitwiseNotExpression": "~", "LogicalNotExpression": "!"}
BIN = {"PowerExpression": "**", "ProductExpression": "*", "DivisionExpression": "/", "ModuloExpression": "%",
       "AdditionExpression": "+", "SubtractionExpression": "-", "ShiftLeftExpression": "<<", "ShiftRightExpression": ">>",
       "CmpGtExpression": ">", "CmpLtExpression": "<", "CmpGeExpression": ">=", "CmpLeExpression": "<=",
       "CmpEqExpression": "==", "CmpNeExpression": "!=", "BitwiseAndExpression": "&", "BitwiseXorExpression": "^",
       "BitwiseOrExpression": "|", "LogicalAndExpression": "&&", "LogicalXorExpression": "^^", "LogicalOrExpression": "||"}


def clean(x, strip_loc=False):
    """A dump without node ids, links turned into positions in the list of variables."""
    ids = {}
    if isinstance(x, dict) and x.get("@") == "Program" and "variables" in x:
        for i, v in enumerate(x["variables"]):
            ids[v["#"]] = i

    def go(n):
        if isinstance(n, dict):
            if "->" in n:
                return {"->": ids.get(n["->"], "outside")}
            return {k: go(v) for k, v in n.items() if k != "#" and not (strip_loc and k == "%")}
        if isinstance(n, list):
            return [go(e) for e in n]
        return n
    return go(x)


def diff(want, got, path="", ulps=0):
    """-> None or a description of the first difference"""
    if isinstance(want, dict) and isinstance(got, dict):
        for k in want:
            if k not in got:
                return "%s.%s missing (expected %s)" % (path, k, str(want[k])[:200])
        for k in got:
            if k not in want:
                return "%s.%s unexpected: %s" % (path, k, str(got[k])[:200])
        for k in want:
            d = diff(want[k], got[k], "%s.%s" % (path, k), ulps)
            if d:
                return d
        return None
    if isinstance(want, list) and isinstance(got, list):
        for i, (a, b) in enumerate(zip(want, got)):
            d = diff(a, b, "%s[%d]" % (path, i), ulps)
            if d:
                return d
        if len(want) != len(got):
            return "%s has %d entries, expected %d" % (path, len(got), len(want))
        return None
    if type(want) is type(got) and want == got:
        return None
    if isinstance(want, str) and isinstance(got, str) and want.startswith("f:") and got.startswith("f:"):
        a = struct.unpack(">d", bytes.fromhex(want[2:]))[0]
        b = struct.unpack(">d", bytes.fromhex(got[2:]))[0]
        if a != a and b != b:
            return None
        if ulps and a == a and b == b and abs(order(a) - order(b)) <= ulps and (a != 0 or b != 0):
            return None
        return "%s is %r, expected %r" % (path, b, a)
    return "%s is %s, expected %s" % (path, str(got)[:300], str(want)[:300])


def order(f):
    (i,) = struct.unpack(">q", struct.pack(">d", f))
    return i if i >= 0 else -(i & (2**63 - 1))
