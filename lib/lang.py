"""Shared by the checks of the language: running texts through the real library and looking at what comes back."""
import json
import os
import re
import urllib.parse

import build
from harness import Crash
from model import gen, semantics, syntax

FILE = "dir name/prög ram.cq"


def exe(flavor="asan"):
    return build.build_full("v3x", "v3x.cpp", flavor)


def fname(file):
    return "-" if file is None else "+" + file


class Err:
    """One error as the library reports it."""

    def __init__(self, what, js):
        self.what = what.decode("utf-8", "replace")
        d = json.loads(js.decode("utf-8", "surrogateescape"))
        r = d["range"]
        self.range = (r["start"]["line"], r["start"]["character"], r["end"]["line"], r["end"]["character"])
        self.message = d["message"]
        ri = d.get("relatedInformation")
        self.file = urllib.parse.unquote(ri[0]["location"]["uri"][8:]) if ri else None

    def __repr__(self):
        return self.what


def err_list(fields):
    return [Err(fields[i], fields[i + 1]) for i in range(0, len(fields) - 1, 2)]


class Obs:
    """What the library made of one text."""

    def __init__(self, fields):
        self.status = fields[0].decode()
        self.fields = fields
        self.errors = []
        self.root = self.ast = self.after = self.sem = None
        if self.status == "throw":
            return
        self.printed = fields[1]

    @property
    def thrown(self):
        return " ".join(f.decode("utf-8", "replace") for f in self.fields[1:])


def load(field):
    return json.loads(field.decode("latin-1"))


def show(text):
    return text if isinstance(text, str) else text.decode("utf-8", "backslashreplace")


def run(ctx, driver, op, texts, file=None, case_timeout=30):
    """-> [Obs or None]; crashes, hangs and escaping exceptions are violations."""
    res = ctx.run(driver, [[op, t, fname(file)] for t in texts], case_timeout=case_timeout)
    out = []
    for t, r in zip(texts, res):
        if r is None:
            out.append(None)
        elif isinstance(r, Crash):
            ctx.violation("%s: %r" % (op, r), {"text": show(t)})
            out.append(None)
        else:
            o = Obs(r)
            if o.status == "throw":
                ctx.violation("%s: an exception got out: %s" % (op, o.thrown), {"text": show(t)})
                out.append(None)
            else:
                if op == "parse":
                    o.ast = r[2]
                    o.errors = err_list(r[3:])
                else:
                    o.ast, o.after, o.sem = r[2], r[3], r[4]
                    rest = r[5:]
                    if o.status == "parse-err":
                        k = rest.index(b"=")
                        o.errors, o.analysis_errors = err_list(rest[:k]), err_list(rest[k + 1:])
                    else:
                        o.errors = err_list(rest)
                out.append(o)
    return out


def parse(ctx, driver, texts, file=None, **k):
    return run(ctx, driver, "parse", texts, file, **k)


def analyze(ctx, driver, texts, file=None, **k):
    return run(ctx, driver, "analyze", texts, file, **k)


def tree_names(dump):
    """A raw semantic dump, cleaned, with links given as the name, type and size of the variable."""
    ids = {v.get("#"): [v["name"], v["typ"]["@"], v["typ"]["size"]] for v in (dump or {}).get("variables", [])}

    def go(n):
        if isinstance(n, dict):
            if "->" in n:
                return {"->": ids.get(n["->"], "outside")}
            return {k: go(v) for k, v in n.items() if k != "#"}
        if isinstance(n, list):
            return [go(e) for e in n]
        return n
    return go(dump)


def model_names(tree):
    vs = [[v["name"], v["typ"]["@"], v["typ"]["size"]] for v in tree["variables"]]

    def go(n):
        if isinstance(n, dict):
            if "->" in n:
                return {"->": vs[n["->"]] if isinstance(n["->"], int) else n["->"]}
            return {k: go(v) for k, v in n.items()}
        if isinstance(n, list):
            return [go(e) for e in n]
        return n
    return go(tree)


def strip(x, keys=("%",)):
    if isinstance(x, dict):
        return {k: strip(v, keys) for k, v in x.items() if k not in keys}
    if isinstance(x, list):
        return [strip(e, keys) for e in x]
    return x


def walk(x):
    """All nodes of a dump, outermost first, in source order of the fields."""
    stack = [x]
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            if "@" in n:
                yield n
            stack += [v for v in reversed(list(n.values())) if isinstance(v, (dict, list))]
        elif isinstance(n, list):
            stack += [v for v in reversed(n) if isinstance(v, (dict, list))]


_corpus = None


def corpus():
    """The repository's own example programs, as bytes, if they are there."""
    global _corpus
    if _corpus is None:
        _corpus = []
        for d, _, fs in sorted(os.walk(os.path.join(build.REPO, "res"))):
            for f in sorted(fs):
                if f == "input.cq":
                    with open(os.path.join(d, f), "rb") as fh:
                        _corpus.append(fh.read())
    return _corpus


def model(text, file=None):
    """-> (Parsed, Analysis or None) of the reference."""
    p = syntax.parse(text, syntax.raw(file) if file else None)
    if p.ast is None or p.unspecified:
        return p, None
    return p, semantics.Analyzer().analyze(p.ast)


# --------------------------------------------------------------------------------------------------- hostile texts
TOKENS = ("version 3.0|version 3|qubit|bit|measure|reset|init|barrier|wait|inv|pow|ctrl|asm|true|false|q|b|x|H|CNOT|Rx|pi|sin|0|1|"
          "7|2.5|1.e3|.5|9223372036854775807|;|\n|\r\n|:|,|.|=|[|]|(|)|+|-|~|!|**|*|/|%|<<|>>|>|<|>=|<=|==|!=|&|^|"
          "&&|^^|?|'''code'''|''''''|'''|/*c*/|//c\n|/*|*/|//|é|$|@|\"|'|#|{|}|\\|`|\t| |version|3.0|1e5|0x1F|00|a.b|1..2|^^^|***|"
          "<<<|=>|&&&|!!|~~|qubitq|measure2|_|__a|H(|q[|[0:1]|(1)|=measure|.X|inv.|ctrl.").split("|") + ["|", "||", "|||"]


def token_soup(rng, n):
    sep = rng.choice(["", " ", " "])
    return sep.join(rng.choice(TOKENS) for _ in range(n))


def mutate_text(rng, t):
    """A small edit of a text."""
    k = rng.randrange(9)
    if not t:
        return rng.choice(TOKENS)
    i = rng.randrange(len(t))
    j = min(len(t), i + rng.choice([1, 1, 2, 3, 8, 30]))
    if k == 0:
        return t[:i] + t[j:]
    if k == 1:
        return t[:i] + t[i:j] + t[i:]
    if k == 2:
        return t[:i]
    if k == 3:
        return t[i:]
    if k == 4:
        return t[:i] + rng.choice(TOKENS) + t[i:]
    if k == 5:
        return t[:i] + rng.choice(TOKENS) + t[j:]
    if k == 6:
        return t[:i] + chr(rng.choice([0, 1, 9, 10, 13, 32, 34, 39, 42, 47, 59, 92, 127, 128, 255, 0x2028, 0xfeff, 0x1f600])) + t[i:]
    if k == 7:
        m = re.finditer(r"\S+", t)
        w = [x.span() for x in m]
        if len(w) > 1:
            a, b = sorted(rng.sample(range(len(w)), 2))
            (a0, a1), (b0, b1) = w[a], w[b]
            return t[:a0] + t[b0:b1] + t[a1:b0] + t[a0:a1] + t[b1:]
        return t + t
    return t[:i] + t[i].swapcase() + t[i + 1:]


def mutate_tokens(rng, stmts):
    """An edit of the token lists: delete, duplicate, swap, insert or replace a token."""
    out = [list(s) for s in stmts]
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        s = rng.choice(out)
        if not s:
            continue
        i = rng.randrange(len(s))
        k = rng.randrange(6)
        if k == 0:
            del s[i]
        elif k == 1:
            s.insert(i, s[i])
        elif k == 2:
            o = rng.choice(out)
            if o:
                j = rng.randrange(len(o))
                s[i], o[j] = o[j], s[i]
        elif k == 3:
            s.insert(i, rng.choice(TOKENS).strip() or ";")
        elif k == 4:
            s[i] = rng.choice(TOKENS).strip() or ";"
        else:
            a = rng.randrange(len(out))
            out[a] = out[a] + rng.choice(out)
    return out


def programs(rng, n, wild=0.3, faults=0.15, size=10):
    """Random programs as token lists."""
    for _ in range(n):
        g = gen.Gen(rng)
        if rng.random() < wild:
            yield g.wild_program(rng.randrange(1, 6))
        else:
            yield g.program(rng.randrange(size), faults=faults)


def texts(rng, n, **k):
    for p in programs(rng, n, **k):
        yield gen.layout(p, rng)


def lineate(stmts):
    """Each statement on a line of its own; -> text, with statement i on line i + 1 (statements hold no newline)."""
    return "\n".join(" ".join(s) for s in stmts) + "\n"


# ------------------------------------------------------------------------------------------------------ large texts
def far(rng, text):
    """The same program far down or far to the right."""
    head, _, rest = text.partition("version")
    gap = rng.choice(["\n" * 300, "\r\n" * 70000, " " * 300, "\t" * 70000, "/*%s*/" % ("\n" * 66000), "\n" * 65536 + " " * 65536, "/*%s*/" % ("x" * 65535)])
    if rng.random() < 0.5:
        return gap + text if not head.strip() else text
    lines = text.split("\n")
    k = rng.randrange(1, len(lines)) if len(lines) > 1 else 0
    return "\n".join(lines[:k] + [gap + lines[k]] + lines[k + 1:]) if k else text


def big(rng, n=280, nest=60, only=None):
    """Programs with more of everything than anyone would write by hand: n of most things, nest levels of nesting."""
    r = rng
    t = ["version 3.0\nqubit q\n" + "\n".join("X undeclared_%d" % i for i in range(n)),
         "version 3.0\nqubit[300] q; bit[300] b\n" + "\n".join(r.choice(["X q[%d]", "Rx(1.5) q[%d]", "b[%d] = measure q[0]", "X q[%d], nothing", "qubit v%d", "reset q[%d]"]) % (i % 290) for i in range(n)),
         "version 3.0\n" + "".join("%s[%d] v%d\n" % (r.choice(["qubit", "bit"]), i + 1, i) for i in range(n)) + "\n".join("H v%d\nX v%d[%d]" % (i, i, i) for i in range(0, n, 13)),
         "version 3.0; qubit[4200] q; bit[4200] b; b[0:4199] = measure q[0:4199]\nX q[%s]\nb = measure q\nH q[4199], q[0:1040]" % ", ".join(str((i * 7) % 4200) for i in range(n)),
         "version 3.0\nqubit %s\nX %s\nX %s_\nasm(%s) '''%s'''" % (("a" * 10 * n,) * 4 + ("\u00e9'\n" * 30 * n,)),
         "version 3.0; qubit q; Rx(%s1%s) q; Ry(%s) q; Rz(%s2%s) q" % ("(" * nest, ")" * nest, " + ".join("%d" % i for i in range(n)), "abs(" * nest, ")" * nest),
         "version 3.0; qubit[70] q; %sX q[0]; %sX q; X %s" % ("inv.pow(2)." * (nest // 2), "ctrl." * nest, ", ".join("q[%d]" % i for i in range(70))),
         "version 3.0\nqubit q\n" + "\n".join("Rx(%d / 0) q" % i for i in range(n)) + "\nX q" * n]
    return t if only is None else r.sample(t, only)
