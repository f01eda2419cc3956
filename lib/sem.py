"""Shared by the checks of the semantic analysis: programs with one statement per line, judged statement by statement."""
import lang
from model import gen, semantics, syntax


class Case:
    """A program with each statement on lines of its own, and what the reference makes of it."""

    def __init__(self, stmts, file=None):
        self.stmts, self.file = stmts, file
        parts, self.line, ln = [], [], 1
        for s in stmts:
            t = " ".join(s)
            self.line.append(ln)
            parts.append(t)
            ln += t.count("\n") + 1
        self.text = "\n".join(parts) + "\n"
        self.p, self.r = lang.model(self.text, file)
        self.ok = self.r is not None and len(self.p.ast["block"]["statements"]) == len(stmts) - 1

    def owner(self, line):
        """Index of the statement a line belongs to."""
        lo = 0
        for i, l in enumerate(self.line):
            if l <= line:
                lo = i
        return lo

    def fault(self, i):
        """The expected fault of statement i (an index into stmts), or None."""
        return self.r.faulty.get(i - 1)

    def bad(self):
        return {i + 1 for i in self.r.faulty}

    def show(self, i):
        return " ".join(self.stmts[i])

    def without_faults(self):
        bad = self.bad()
        return Case([s for i, s in enumerate(self.stmts) if i not in bad], self.file)


def run(ctx, drv, cases, **k):
    """-> [(case, Obs)] for the cases the reference and the parser take."""
    cases = [c for c in cases if c.ok]
    out = []
    for c, o in zip(cases, lang.analyze(ctx, drv, [c.text for c in cases], **k)):
        if o is None or o.status == "parse-err":
            if o is not None:
                ctx.count("not parsed (left to P02)")
            continue
        out.append((c, o))
    return out


def errors_by_statement(c, o):
    out = {}
    for e in o.errors:
        out.setdefault(c.owner(e.range[0]), []).append(e)
    return out


def acceptance(ctx, c, o, key=lambda c, i: c.show(i), count=True, only=None):
    """Every statement must have one error if it is faulty, none if not.  -> whether all of that was so."""
    by = errors_by_statement(c, o)
    ok = True
    for i in range(1, len(c.stmts)):
        if only and not only(c, i):
            continue
        f, es = c.fault(i), by.get(i, [])
        if count:
            ctx.seen(key(c, i))
            ctx.count("faulty statements" if f else "accepted statements")
        if f and not es:
            ctx.violation("accepted, expected an error (%s): %s" % (f.kind, c.show(i)), {"text": c.text})
            ok = False
        elif es and not f:
            ctx.violation("rejected: %s: %s" % (c.show(i), es[0]), {"text": c.text})
            ok = False
        elif len(es) > 1:
            ctx.violation("%d errors for one statement: %s: %s" % (len(es), c.show(i), es), {"text": c.text})
            ok = False
    extra = len(by.get(0, [])) - (1 if any(e.kind == "version" for e in c.r.errors) else 0)
    if extra:
        ctx.violation("%d unexpected errors at the version: %s" % (extra, by.get(0)), {"text": c.text})
        ok = False
    return ok


def trees(ctx, drv, cases, pick=None, what="the semantic tree", acceptance_of=None, ulps=0, **k):
    """Programs without faulty statements must be accepted and give the expected tree, as far as pick looks at it."""
    n = 0
    for c, o in run(ctx, drv, cases, **k):
        if c.r.errors:
            continue
        if o.status != "ok":
            acceptance(ctx, c, o, count=False, only=acceptance_of)
            continue
        want, got = c.r.tree, semantics.clean(lang.load(o.sem))
        n += 1
        if pick:
            w, g = pick(want), pick(got)
        else:
            w, g = want, got
        d = semantics.diff(w, g, ulps=ulps)
        if d:
            ctx.violation("%s differs: %s" % (what, d), {"text": c.text, "file": c.file})
    return n


def both(ctx, drv, programs, pick=None, what="the semantic tree", file=None, key=lambda c, i: c.show(i), only=None, ulps=0, **k):
    """The usual two passes: which statements are accepted, and what the accepted ones mean."""
    cases = [Case(p, file) for p in programs]
    second = []
    for c, o in run(ctx, drv, cases, file=file, **k):
        acceptance(ctx, c, o, key, only=only)
        second.append(c.without_faults() if c.r.faulty else c)
    ctx.count("trees compared", trees(ctx, drv, second, pick, what, only, ulps, file=file, **k))
    return cases


# What of a semantic tree belongs to which aspect
def variables(t):
    return [[v["name"], v["typ"]] for v in t["variables"]]


def statements(t):
    return t["block"]["statements"]


def values(x, kinds):
    return [n for n in lang.walk(x) if n["@"] in kinds]


def links(t):
    return [variables(t), [[n["variable"] for n in values(s, ("VariableRef", "IndexRef"))] for s in statements(t)]]


def indices(t):
    return [[[n["variable"], [i.get("value") for i in n["indices"]]] for n in values(s, ("VariableRef", "IndexRef")) if n["@"] == "IndexRef"] for s in statements(t)]


def bare(n):
    return lang.strip(n, ("%", "annotations"))


def signature(t):
    return [[s["@"], s.get("instruction_ref"), s.get("name") or (s.get("gate") or {}).get("name")] for s in statements(t)]


def operands(t):
    return [[s["@"], bare(s.get("operands"))] for s in statements(t)]


def chain(t):
    out = []
    for s in statements(t):
        g = s.get("gate")
        c = []
        while g:
            c.append([g["name"], bare(g["parameters"])])
            g = g["gate"]
        out.append([s["@"], c])
    return out


def parameters(t):
    return [[c, bare(s.get("parameters"))] for c, s in zip(chain(t), statements(t))]


DEFS = [["version", "3.0"], ["qubit", "q"], ["qubit", "[", "5", "]", "r"], ["bit", "b"], ["bit", "[", "5", "]", "c"]]


def packs(stmts, n=40, defs=DEFS):
    """Statements in programs of n."""
    for i in range(0, len(stmts), n):
        yield defs + stmts[i:i + n]
