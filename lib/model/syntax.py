"""Reference lexer, recogniser and parser of cQASM 3.0, written from the language definition.

parse(text, file) -> Parsed with .ast (a nested dict in the shape of the driver's dumps, without "#"), or .error.
"""
import re
import struct

KEYWORDS = {"version", "measure", "reset", "init", "barrier", "wait", "inv", "pow", "ctrl", "qubit", "bit", "asm"}
I64MAX = 2**63 - 1

# signs, longest first
SIGNS = ["**", "<<", ">>", ">=", "<=", "==", "!=", "&&", "^^", "||", ";", ":", ",", ".", "=", "[", "]", "(", ")", "+", "-",
         "~", "!", "*", "/", "%", ">", "<", "&", "^", "|", "?"]
WORD = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")
NUMBER = re.compile(r"(?:[0-9]+\.[0-9]+(?:[eE][-+]?[0-9]+)?|[0-9]+\.(?:[eE][-+]?[0-9]+)?|\.[0-9]+(?:[eE][-+]?[0-9]+)?)|([0-9]+)")
VNUMBER = re.compile(r"[0-9]+(?:\.[0-9]+)?")
BLANK = re.compile(r"[ \t]+")
LINECOMMENT = re.compile(r"//[^\r\n]*")


class Tok:
    __slots__ = ("k", "s", "line", "col", "at")

    def __init__(self, k, s, line, col, at):
        self.k, self.s, self.line, self.col, self.at = k, s, line, col, at

    def __repr__(self):
        return "%s:%r@%d:%d" % (self.k, self.s, self.line, self.col)


def lex(text):
    """-> (tokens, error) where error is None or a Tok of kind 'LEX' at which no token starts; after it the rest is unread."""
    toks = []
    i, line, bol, n = 0, 1, 0, len(text)
    in_version = False

    def advance(s):
        nonlocal i, line, bol
        nl = s.count("\n")
        if nl:
            line += nl
            bol = i + s.rfind("\n") + 1
        i += len(s)

    while i < n:
        c = text[i]
        at = (line, i - bol + 1)
        if in_version:
            m = BLANK.match(text, i)
            if m:
                advance(m.group())
                continue
            m = VNUMBER.match(text, i)
            if not m:
                return toks, Tok("LEX", "", at[0], at[1], i)
            toks.append(Tok("VNUM", m.group(), at[0], at[1], i))
            advance(m.group())
            in_version = False
            continue
        m = BLANK.match(text, i) or LINECOMMENT.match(text, i)
        if m:
            advance(m.group())
            continue
        if text.startswith("/*", i):
            e = text.find("*/", i + 2)
            if e >= 0:
                advance(text[i:e + 2])
                continue
        if text.startswith("'''", i):
            e = text.find("'''", i + 3)
            s = text[i:e + 3] if e >= 0 else "'''"
            toks.append(Tok("RAW" if e >= 0 else "'''", s, at[0], at[1], i))
            advance(s)
            continue
        if c == "\n" or text.startswith("\r\n", i):
            s = "\n" if c == "\n" else "\r\n"
            toks.append(Tok("NL", s, at[0], at[1], i))
            advance(s)
            continue
        m = WORD.match(text, i)
        if m:
            s = m.group()
            k = s if s in KEYWORDS else "BOOL" if s in ("true", "false") else "ID"
            toks.append(Tok(k, s, at[0], at[1], i))
            advance(s)
            in_version = s == "version"
            continue
        m = NUMBER.match(text, i)
        if m:
            toks.append(Tok("INT" if m.group(1) else "FLOAT", m.group(), at[0], at[1], i))
            advance(m.group())
            continue
        for s in SIGNS:
            if text.startswith(s, i):
                toks.append(Tok(s, s, at[0], at[1], i))
                advance(s)
                break
        else:
            return toks, Tok("LEX", "", at[0], at[1], i)
    toks.append(Tok("EOF", "", line, i - bol + 1, i))
    return toks, None


UNARY = {"+", "-", "~", "!"}
LEVELS = [["**"], ["*", "/", "%"], ["+", "-"], ["<<", ">>"], [">", "<", ">=", "<="], ["==", "!="], ["&"], ["^"], ["|"],
          ["&&"], ["^^"], ["||"]]          # tightest first
PREC = {op: len(LEVELS) - i for i, l in enumerate(LEVELS) for op in l}
SEP = ("NL", ";")


class Dead(Exception):
    pass


class Recogniser:
    """All ways to read a token sequence, as sets of end positions; far = the furthest token no reading could take."""

    def __init__(self, toks):
        self.k = [t.k for t in toks]
        self.far = -1
        self.memo = {}

    def t(self, p, kinds):
        """terminal"""
        if p >= len(self.k):
            self.far = max(self.far, p)
            return ()
        if self.k[p] == kinds or (isinstance(kinds, (set, tuple)) and self.k[p] in kinds):
            return (p + 1,)
        if p > self.far:
            self.far = p
        return ()

    def seq(self, p, *items):
        cur = {p}
        for it in items:
            nxt = set()
            for q in cur:
                nxt.update(it(q) if callable(it) else self.t(q, it))
            cur = nxt
            if not cur:
                break
        return cur

    def expr(self, p):
        key = ("e", p)
        if key in self.memo:
            return self.memo[key]
        out = set()
        todo = list(self.unary(p))
        while todo:
            q = todo.pop()
            if q in out:
                continue
            out.add(q)
            for r in self.t(q, tuple(PREC)):
                todo += self.unary(r)
            for r in self.t(q, "?"):
                for s in self.expr(r):
                    for u in self.t(s, ":"):
                        todo += self.unary(u)
        self.memo[key] = out
        return out

    def unary(self, p):
        while p < len(self.k) and self.k[p] in UNARY:
            p += 1
        return self.atom(p)

    def atom(self, p):
        key = ("a", p)
        if key in self.memo:
            return self.memo[key]
        out = set(self.t(p, ("BOOL", "INT", "FLOAT", "ID")))
        self.t(p, tuple(UNARY))
        if out and self.k[p] == "ID":
            for q in self.t(p + 1, "("):
                out.update(self.t(q, ")"))
                out.update(self.seq(q, self.exprs, ")"))
            out.update(self.seq(p + 1, "[", self.indices, "]"))
        out.update(self.seq(p, "(", self.expr, ")"))
        self.memo[key] = out
        return out

    def exprs(self, p):
        out, todo = set(), list(self.expr(p))
        while todo:
            q = todo.pop()
            if q in out:
                continue
            out.add(q)
            for r in self.t(q, ","):
                todo += self.expr(r)
        return out

    def index(self, p):
        out = set(self.expr(p))
        for q in list(out):
            for r in self.t(q, ":"):
                out |= self.expr(r)
        return out

    def indices(self, p):
        out, todo = set(), list(self.index(p))
        while todo:
            q = todo.pop()
            if q in out:
                continue
            out.add(q)
            for r in self.t(q, ","):
                todo += self.index(r)
        return out

    def gate(self, p):
        out = set()
        for q in self.t(p, ("inv", "ctrl")):
            out |= self.seq(q, ".", self.gate)
        for q in self.t(p, "pow"):
            out |= self.seq(q, "(", self.expr, ")", ".", self.gate)
        for q in self.t(p, "ID"):
            out.add(q)
            out |= self.seq(q, "(", self.exprs, ")")
        return out

    def statement(self, p):
        out = set()
        for q in self.t(p, ("qubit", "bit")):
            for r in {q} | self.seq(q, "[", "INT", "]"):
                out.update(self.t(r, "ID"))
        for q in self.gate(p):
            out |= self.exprs(q)
        for q in self.seq(p, self.expr, "=", "measure"):
            out |= self.expr(q)
            for r in self.seq(q, "(", self.exprs, ")"):
                out |= self.expr(r)
        for q in self.t(p, ("reset", "init", "barrier")):
            out |= self.expr(q)
        out |= self.seq(p, "wait", "(", self.expr, ")", self.expr)
        out |= self.seq(p, "asm", "(", "ID", ")", "RAW")
        return out

    def program(self):
        p = 0
        while p < len(self.k) and self.k[p] in SEP:
            p += 1
        self.t(p, SEP)
        ends = self.seq(p, "version", "VNUM")
        done, todo = set(), list(ends)
        ok = False
        while todo:
            p = todo.pop()
            if p in done:
                continue
            done.add(p)
            if self.t(p, "EOF"):
                ok = True
            q = p
            while True:
                r = self.t(q, SEP)
                if not r:
                    break
                q = r[0]
            if q > p:
                if self.t(q, "EOF"):
                    ok = True
                todo += self.statement(q)
        return ok


def node(kind, loc=None, **fields):
    d = {"@": kind}
    if loc is not None:
        d["%"] = loc
    d.update(fields)
    return d


def raw(text):
    """text -> the dump's latin-1 view of its UTF-8 bytes"""
    return text.encode("utf-8", "surrogateescape").decode("latin-1")


def float_value(text):
    """-> dump form, or None if out of range, or '?' where the value is unspecified (subnormal)"""
    v = float(text)
    if v in (float("inf"), float("-inf")):
        return None
    if v != 0 and abs(v) < 2.2250738585072014e-308:
        return "?"
    if v == 0 and re.search("[1-9]", re.split("[eE]", text)[0]):
        return "?"
    return float_dump(v)


def float_dump(v):
    return "f:%016x" % struct.unpack(">Q", struct.pack(">d", v))[0]


BINARY = {"**": "PowerExpression", "*": "ProductExpression", "/": "DivisionExpression", "%": "ModuloExpression",
          "+": "AdditionExpression", "-": "SubtractionExpression", "<<": "ShiftLeftExpression", ">>": "ShiftRightExpression",
          ">": "CmpGtExpression", "<": "CmpLtExpression", ">=": "CmpGeExpression", "<=": "CmpLeExpression",
          "==": "CmpEqExpression", "!=": "CmpNeExpression", "&": "BitwiseAndExpression", "^": "BitwiseXorExpression",
          "|": "BitwiseOrExpression", "&&": "LogicalAndExpression", "^^": "LogicalXorExpression", "||": "LogicalOrExpression"}
PREFIX = {"-": "UnaryMinusExpression", "~": "BitwiseNotExpression", "!": "LogicalNotExpression"}


class RangeError_(Exception):
    def __init__(self, line, col, what):
        self.line, self.col, self.what = line, col, what


class Unspecified(Exception):
    pass


class Parser:
    def __init__(self, toks, file):
        self.toks, self.file = toks, file
        self.p = 0
        self.range_error = None

    def loc(self, t, to=None):
        e = to or t
        return [t.line, t.col, e.line, e.col + len(e.s), self.file]

    @property
    def cur(self):
        return self.toks[self.p]

    def take(self, *kinds):
        t = self.toks[self.p]
        if t.k not in kinds:
            raise Dead()
        self.p += 1
        return t

    def maybe(self, *kinds):
        if self.toks[self.p].k in kinds:
            self.p += 1
            return self.toks[self.p - 1]
        return None

    # literals ---------------------------------------------------------------------------------------------------
    def integer(self, t, text=None, col=None):
        v = int(text or t.s)
        if v > I64MAX:
            raise RangeError_(t.line, col or t.col, "int")
        return v

    # expressions ------------------------------------------------------------------------------------------------
    def primary(self):
        t = self.cur
        if t.k == "+":
            self.p += 1
            return self.primary()
        if t.k in PREFIX:
            self.p += 1
            return node(PREFIX[t.k], self.loc(t), expr=self.primary())
        if self.maybe("("):
            e = self.expr()
            self.take(")")
            return e
        if self.maybe("BOOL"):
            return node("BooleanLiteral", self.loc(t), value=t.s == "true")
        if self.maybe("INT"):
            return node("IntegerLiteral", self.loc(t), value=("int", t))
        if self.maybe("FLOAT"):
            return node("FloatLiteral", self.loc(t), value=("float", t))
        self.take("ID")
        if self.maybe("("):
            args = None
            if not self.maybe(")"):
                args = self.exprs()
                self.take(")")
            return node("FunctionCall", self.loc(t), name=node("Identifier", name=t.s), arguments=args)
        if self.maybe("["):
            items = [self.index()]
            while self.maybe(","):
                items.append(self.index())
            self.take("]")
            return node("Index", self.loc(t), expr=node("Identifier", name=t.s), indices=node("IndexList", items=items))
        return node("Identifier", self.loc(t), name=t.s)

    def index(self):
        e = self.expr()
        if self.maybe(":"):
            return node("IndexRange", first=e, last=self.expr())
        return node("IndexItem", index=e)

    def expr(self):
        """Ternaries around a flat list of operands and operators, grouped by level afterwards."""
        e = self.flat()
        t = self.maybe("?")
        if not t:
            return e
        a = self.expr()
        self.take(":")
        return node("TernaryConditionalExpression", self.loc(t), cond=e, if_true=a, if_false=self.expr())

    def flat(self):
        operands, ops = [self.primary()], []
        while self.cur.k in PREC:
            ops.append(self.take(*PREC))
            operands.append(self.primary())
        for i, level in enumerate(LEVELS):
            if not any(o.k in level for o in ops):
                continue
            if level == ["**"]:          # from the right
                j = len(ops) - 1
                while j >= 0:
                    if ops[j].k in level:
                        operands[j:j + 2] = [node(BINARY[ops[j].k], self.loc(ops[j]), lhs=operands[j], rhs=operands[j + 1])]
                        del ops[j]
                    j -= 1
            else:
                j = 0
                while j < len(ops):
                    if ops[j].k in level:
                        operands[j:j + 2] = [node(BINARY[ops[j].k], self.loc(ops[j]), lhs=operands[j], rhs=operands[j + 1])]
                        del ops[j]
                    else:
                        j += 1
        return operands[0]

    def exprs(self):
        items = [self.expr()]
        while self.maybe(","):
            items.append(self.expr())
        return node("ExpressionList", items=items)

    # statements -------------------------------------------------------------------------------------------------
    def at_end(self):
        return self.cur.k in SEP or self.cur.k == "EOF"

    def optional_list(self, rest):
        """(parameters)? rest: a parenthesis is the parameter list if the rest of the statement can be read that way."""
        start = self.p
        if self.cur.k == "(":
            try:
                self.p += 1
                params = self.exprs()
                self.take(")")
                r = rest()
                if not self.at_end():
                    raise Dead()
                return params, r
            except Dead:
                self.p = start
        return node("ExpressionList", items=[]), rest()

    def gate(self):
        t = self.cur
        if self.maybe("inv", "ctrl"):
            self.take(".")
            g, ops = self.gate()
            return node("Gate", self.loc(t), name=node("Identifier", name=t.s), gate=g,
                        parameters=node("ExpressionList", items=[]), annotations=[]), ops
        if self.maybe("pow"):
            self.take("(")
            e = self.expr()
            self.take(")")
            self.take(".")
            g, ops = self.gate()
            return node("Gate", self.loc(t), name=node("Identifier", name=t.s), gate=g,
                        parameters=node("ExpressionList", items=[e]), annotations=[]), ops
        self.take("ID")
        params, ops = self.optional_list(self.exprs)
        return node("Gate", self.loc(t), name=node("Identifier", name=t.s), gate=None, parameters=params, annotations=[]), ops

    def statement(self):
        t = self.cur
        if self.maybe("qubit", "bit"):
            size, end = None, t
            if self.maybe("["):
                n = self.take("INT")
                end = self.take("]")
                size = node("IntegerLiteral", value=("int", n))
            name = self.take("ID")
            return node("Variable", self.loc(name), name=node("Identifier", name=name.s),
                        typ=node("Type", self.loc(t, end), name=node("Keyword", name=t.s), size=size), annotations=[])
        if self.maybe("reset", "init", "barrier"):
            return self.nongate(t, [self.expr()], [])
        if self.maybe("wait"):
            self.take("(")
            a = self.expr()
            self.take(")")
            return self.nongate(t, [self.expr()], [a])
        if self.maybe("asm"):
            self.take("(")
            name = self.take("ID")
            self.take(")")
            code = self.take("RAW")
            return node("AsmDeclaration", backend_name=node("Identifier", name=name.s), backend_code=raw(code.s[3:-3]),
                        annotations=[])
        q = self.p
        while self.toks[q].k not in SEP and self.toks[q].k not in ("EOF", "="):
            q += 1
        if self.toks[q].k == "=":
            lhs = self.expr()
            self.take("=")
            m = self.take("measure")
            params, rhs = self.optional_list(self.expr)
            return self.nongate(m, [lhs, rhs], params["items"])
        g, ops = self.gate()
        return node("GateInstruction", list(g["%"]), gate=g, operands=ops, annotations=[])

    def nongate(self, t, operands, params):
        return node("NonGateInstruction", self.loc(t), name=node("Keyword", name=t.s),
                    operands=node("ExpressionList", items=operands), parameters=node("ExpressionList", items=params),
                    annotations=[])

    def program(self):
        while self.maybe(*SEP):
            pass
        self.take("version")
        v = self.take("VNUM")
        version = node("Version", self.loc(v), items=("version", v))
        statements = []
        while not self.maybe("EOF"):
            self.take(*SEP)
            while self.maybe(*SEP):
                pass
            if self.maybe("EOF"):
                break
            statements.append(self.statement())
            if not self.at_end():
                raise Dead()
        return node("Program", version=version, block=node("GlobalBlock", statements=statements))


def resolve_literals(x, out):
    """Replaces literal tokens by values, in place; out collects ('int'|'float'|'?', line, col) of the bad ones, in any order."""
    stack = [x]
    while stack:
        n = stack.pop()
        for k, v in n.items():
            if isinstance(v, tuple):
                what, t = v
                if what == "float":
                    f = float_value(t.s)
                    if f is None:
                        out.append(("float", t.line, t.col))
                    elif f == "?":
                        out.append(("?", t.line, t.col))
                    n[k] = f
                elif what == "int":
                    n[k] = int(t.s)
                    if n[k] > I64MAX:
                        out.append(("int", t.line, t.col))
                else:
                    parts = t.s.split(".")
                    n[k] = [int(p) for p in parts]
                    c = t.col
                    for p in parts:
                        if int(p) > I64MAX:
                            out.append(("int", t.line, c))
                        c += len(p) + 1
            elif isinstance(v, dict):
                stack.append(v)
            elif isinstance(v, list):
                stack += [e for e in v if isinstance(e, dict)]
    out.sort(key=lambda e: (e[1], e[2]))


class Parsed:
    ast = None          # nested dict
    error = None        # list of acceptable (line, col, endline, endcol) of the one error
    kind = None         # 'syntax' | 'lexical' | 'range'
    unspecified = False
    toks = ()


def parse(text, file):
    """text: str. file: latin-1 view of the file name, or None."""
    r = Parsed()
    file = file or None
    toks, lexerr = lex(text)
    r.toks = toks
    seq = toks + ([lexerr] if lexerr else [])
    rec = Recogniser(seq)
    ok = rec.program()
    if not ok:
        f = min(rec.far, len(seq) - 1)
        t = seq[f]
        r.kind = "lexical" if t.k == "LEX" else "syntax"
        r.error = [(t.line, t.col, t.line, t.col + len(t.s))]
        r.at = t
        if lexerr and f == len(seq) - 2:
            # the parser may have to look at the next token, and the lexer complains first
            r.error.append((lexerr.line, lexerr.col, lexerr.line, lexerr.col))
        return r
    p = Parser(toks, file)
    ast = p.program()
    bad = []
    resolve_literals(ast, bad)
    if any(b[0] == "?" for b in bad):
        r.unspecified = True
    hard = [b for b in bad if b[0] != "?"]
    if hard:
        r.kind = "range"
        r.error = [(b[1], b[2], b[1], b[2]) for b in hard]     # any one of them
        return r
    r.ast = ast
    return r
