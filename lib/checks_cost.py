"""What the library's work costs, counted in steps taken and bytes allocated, as its input grows; and what happens when there is no memory."""
import build
import lang
from checks_api import SHARED, ran, show
from harness import Crash

V = "version 3.0\n"


def lines(f, head="qubit[8] q\nbit[8] b\nqubit s\n"):
    return lambda n: V + head + "\n".join(f(i) for i in range(n))


# Programs of n parts each: twice the parts, twice the cost.
FLAT = {
    "gates": lines(lambda i: "H q[%d]" % (i % 8)),
    "statements of all kinds": lines(lambda i: ["H q[1]", "CNOT q[0], q[1]", "Rx(1.5) s", "b[0] = measure q[1]", "reset q", "barrier q", "wait(3) q", "inv.X q[0]", "asm(B) ''' x '''", "init s"][i % 10]),
    "variables": lambda n: V + "\n".join(("qubit a%d" if i % 2 else "bit[3] a%d") % i for i in range(n)),
    "variables in use": lambda n: V + "\n".join("qubit a%d\nX a%d" % (i, i) for i in range(n)),
    "declared again": lines(lambda i: "qubit s"),
    "undeclared names": lines(lambda i: "X u%d" % i),
    "unknown gates": lines(lambda i: "G%d s" % i),
    "wrong operands": lines(lambda i: "CNOT q[0]"),
    "indices out of range": lines(lambda i: "X q[99]"),
    "errors of functions": lines(lambda i: "Rx(1/0) s"),
    "syntax errors": lines(lambda i: "X q[,"),
    "foreign characters": lambda n: "$" * n,
    "lines": lambda n: V + "\n" * n + "qubit q",
    "semicolons": lambda n: V + ";" * n + "qubit q",
    "comment": lambda n: V + "/*" + "x\n" * n + "*/qubit q",
    "comments": lambda n: V + "/* x */\n" * n + "qubit q",
    "assembly": lambda n: V + "asm(B) '''" + "x'\n" * n + "'''",
    "name": lambda n: V + "qubit " + "a" * n + "\nX " + "a" * n + "\nX " + "b" * n,
    "indices": lambda n: V + "qubit[%d] q\nX q[%s]" % (n, ", ".join(map(str, range(n)))),
    "range": lambda n: V + "qubit[%d] q\nX q[0:%d]" % (n, n - 1),
    "register": lambda n: V + "qubit[%d] q\nX q" % n,
    "measured register": lambda n: V + "qubit[%d] q\nbit[%d] b\nb = measure q\nb[0:%d] = measure q[0:%d]" % (n, n, n - 1, n - 1),
    "registers": lambda n: V + "".join("qubit[%d] q%d\n" % (i % 5 + 1, i) for i in range(n)) + "X q0",
    "sum": lambda n: V + "qubit q\nRx(%s) q" % "+".join("1" for i in range(n)),
    "expressions": lines(lambda i: "Rx(sin(pi/3)*2+1 < 3 ? 1 : (4 - 2)) s"),
    "arguments": lambda n: V + "qubit q\nRx(abs(%s)) q" % ",".join("1" for i in range(n)),
    "operands": lambda n: V + "qubit[%d] q\nX %s" % (n, ", ".join("q[%d]" % i for i in range(n))),
    "parameters": lambda n: V + "qubit q\nRx(%s) q" % ",".join("1" for i in range(n)),
    "two registers": lambda n: V + "qubit[%d] a\nqubit[%d] c\nCNOT a, c\nSWAP a[0:%d], c[0:%d]" % (n, n, n - 1, n - 1),
    "the same index": lambda n: V + "qubit[9] q\nX q[%s]" % ", ".join("3" for i in range(n)),
    "ranges": lambda n: V + "qubit[9] q\nX q[%s]" % ", ".join("1:3" for i in range(n)),
    "ranges out of bounds": lambda n: V + "qubit[%d] q\n%s" % (n, "X q[0:%d]\n" % n * 40),
    "bits": lambda n: V + "qubit[2] q\n" + "bit[%d] b\n" % n + "b[1, 2] = measure q\n" * n,
    "assemblies": lines(lambda i: "asm(B%d) ''' x '''" % i),
    "controlled": lines(lambda i: "ctrl.pow(2).inv.X q[0], q[1]"),
    "wrong modifiers": lines(lambda i: "pow(true).X q[0]"),
    "stars": lambda n: V + "/*" + "*" * n + "*/qubit q",
    "no end of a comment": lambda n: V + "/*" + "*" * n,
    "no end of a text": lambda n: V + "asm(B) '''" + "'" * n,
    "line": lambda n: V + "qubit[8] q;" + "X q[1];" * n,
    "unknown functions": lines(lambda i: "Rx(f%d(1)) s" % i),
    "spaces": lambda n: V + "qubit" + " \t" * n + "q",
    "line comment": lambda n: V + "//" + "/" * n + "\nqubit q",
    "strings": lambda n: V + "\"x\" " * n,
    "digits": lambda n: V + "qubit q\nRx(1.%s) q" % ("1" * n),
    "digits of an integer": lambda n: V + "qubit q\nRx(%s) q" % ("1" * n),
}
# Programs n levels deep: the cost may grow with the square of the depth, but not beyond.
DEEP = {
    "powers": lambda n: V + "qubit q\nRx(%s) q" % "**".join("1" for i in range(n)),
    "signs": lambda n: V + "qubit q\nRx(%s1) q" % ("-" * n),
    "complements": lambda n: V + "qubit q\nRx(%s1) q" % ("~" * n),
    "negations": lambda n: V + "qubit q\nRx(%strue) q" % ("!" * n),
    "parentheses": lambda n: V + "qubit q\nRx(%s1%s) q" % ("(" * n, ")" * n),
    "calls": lambda n: V + "qubit q\nRx(%s1%s) q" % ("abs(" * n, ")" * n),
    "conditions": lambda n: V + "qubit q\nRx(%s1) q" % ("true ? 1 : " * n),
    "conditions within": lambda n: V + "qubit q\nRx(%s1%s) q" % ("true ? (" * n, ") : 2" * n),
    "differences": lambda n: V + "qubit q\nRx(%s1%s) q" % ("1 - (" * n, ")" * n),
    "ctrl": lambda n: V + "qubit[%d] q\n%sX %s" % (n + 1, "ctrl." * n, ", ".join("q[%d]" % i for i in range(n + 1))),
    "inv": lambda n: V + "qubit q\n%sX q" % ("inv." * n),
    "pow": lambda n: V + "qubit q\n%sX q" % ("pow(2)." * n),
    "undeclared": lambda n: V + "qubit q\nRx(%sx%s) q" % ("(1 + " * n, ")" * n),
}
TEXT = {"letters": "a", "capitals": "Ab", "escapes": "\"\n\\\t\x01", "reserved": " %?/", "foreign": "\u00e9\u20ac", "lines": "\n", "a quote": "'''", "NUL": "\0"}


def answer(r):
    return {r[i].decode(): (int(r[i + 1]), int(r[i + 2]), r[i + 3].decode()) for i in range(0, len(r), 4)}


def z03(ctx):
    exe = build.build_full("cost", "cost.cpp", "cov")
    ctx.rule = "distinct (kind of input, phase) pairs whose steps and bytes were compared at three sizes or more"
    ctx.assumptions = ["the steps of the stand-in for ANTLR are not counted"]
    reqs, about = [], []

    def ask(kind, name, sizes, make, text=True):
        for m in sizes:
            reqs.append(make(m))
            about.append((kind, name, m))

    n = 500 if ctx.quick else 2000
    recursive = ("sum",)        # one level of the call stack for each term
    flat, deep, text, table = [n, 2 * n, 4 * n], [4, 8, 16, 32] if ctx.quick else [4, 8, 16, 32, 64], [4000, 8000, 16000, 32000], [n, 2 * n, 4 * n]
    for k, f in FLAT.items():
        ask("flat", k, flat if k not in recursive else [500, 1000, 2000], lambda m: ["program", f(m)])
    for k, f in DEEP.items():
        ask("deep", k, deep, lambda m: ["program", f(m)])
    for k, t in TEXT.items():
        ask("text", k, text, lambda m: ["text", t * m])
    ask("tables", "tables", table, lambda m: ["tables", str(m)])
    res = ctx.run(exe, reqs, case_timeout=60)
    groups = {}
    for (kind, name, m), r, q in zip(about, res, reqs):
        groups.setdefault((kind, name), []).append((m, r, q))
    for (kind, name), g in groups.items():
        bad = [(m, r) for m, r, _ in g if r is None or isinstance(r, Crash)]
        if bad:
            if bad[0][1] is not None:
                ctx.violation("%s, %s of size %d: %r" % (kind, name, bad[0][0], bad[0][1]), {"request": g[0][2], "kind": name, "size": bad[0][0]})
            continue
        sizes = [m for m, _, _ in g]
        got = [answer(r) for _, r, _ in g]
        for ph in got[0]:
            if any(ph not in x for x in got):
                continue
            steps, bytes_ = [x[ph][0] for x in got], [x[ph][1] for x in got]
            ctx.seen("%s %s %s" % (kind, name, ph))
            ctx.count("steps counted", sum(steps))
            ctx.count("bytes counted", sum(bytes_))
            what = excess(kind, ph, sizes, steps, bytes_)
            if what:
                ctx.violation("%s (%s) of sizes %s: %s %s" % (name, kind, sizes, ph, what),
                              {"request": [g[0][2][0], g[0][2][1][:2000]], "kind": name, "phase": ph, "sizes": sizes, "steps": steps, "bytes": bytes_})
    for kind, name, ph in (("flat", "gates", "analyze"), ("text", "escapes", "json"), ("tables", "tables", "resolve variables")):
        g = groups.get((kind, name))
        if g and not any(r is None or isinstance(r, Crash) for _, r, _ in g):
            ctx.sample("%s, %s: %s" % (name, ph, ", ".join("%d: %d steps" % (m, answer(r)[ph][0]) for m, r, _ in g)))


def excess(kind, ph, sizes, steps, bytes_):
    """Sizes double. The cost of the last doubling is compared with that of the one before: twice is proportional, four times is the square."""
    limit = 2.5 if kind != "deep" else 5.5 if ph in ("analyze", "json", "strings", "end") else 14
    for k in range(2, len(sizes)):
        more, before = steps[k] - steps[k - 1], max(0, steps[k - 1] - steps[k - 2])
        if more > limit * before + 2000 + 0.01 * steps[k]:
            return "takes %s steps" % steps
        more, before = bytes_[k] - bytes_[k - 1], max(0, bytes_[k - 1] - bytes_[k - 2])
        if kind != "deep" and more > 3.2 * before + 20000 and bytes_[k] > 9 * bytes_[k - 2]:
            return "allocates %s bytes" % bytes_
    return None


# ------------------------------------------------------------------------------------------------------------ Z04
WHAT = {"parse": 30, "analyze": 60, "analyze string": 20, "parse file": 12, "analyze file": 10, "wrapper": 15, "parse strings": 15, "parse json": 40, "json": 40, "strings": 40, "unwrap": 40, "round trip": 40, "copy": 10, "make": 10,
        "utils": 30, "error": 30, "error copies": 30, "located error": 30, "context": 30, "location": 30, "version": 4, "types": 2, "instruction": 10, "promote": 4, "scope": 6, "resolve": 6,
        "register constant": 4, "register function": 4, "register instruction": 4, "register instruction by wrapper": 4}


def z04(ctx):
    exe = build.build_full("oom", "oom.cpp")
    rng = ctx.rng
    ctx.rule = "distinct (call, text, allocation) triples: the allocation was made to fail, the outcome looked at, what is left counted and what was there before used again"
    texts = [show(c) for c in lang.corpus() if len(c) < 400] + [t for t in SHARED if isinstance(t, str) and len(t) < 400]
    few = ["version 3.0; qubit q; X q", "version 3.0; X u; qubit q; qubit q; Rx(1/0) q", "version 3.0; X q[ ; @", "", "a rather long text, with \" and \n and % and \u00e9",
           "version 3.0\nqubit[3] q; bit[3] b\nRx(1+2*sin(pi)) q[0,1]\nb[0:1] = measure q[1:2]\ninv.pow(2).X q[0]; ctrl.X q[0], q[1]\nasm(A) '''x'''"]
    reqs = []
    for what, n in WHAT.items():
        n = ctx.n(n, n * 12)
        some = few + list(lang.texts(rng, n, faults=rng.choice([0, 0.3]), size=5)) + rng.sample(texts, min(len(texts), n // 2))
        many = {"make": 100, "parse": 80, "analyze string": 60, "parse file": 60, "analyze file": 60, "wrapper": 60, "parse strings": 60}.get(what, 150)
        for t in some[:max(n, 3)]:
            reqs.append([what, t, str(rng.randrange(1 << 30)), str(many if ctx.quick else 2 * many)])
    rng.shuffle(reqs)
    for q, r in zip(reqs, ctx.run(exe, reqs, case_timeout=120)):
        about = {"call": q[0], "text": q[1], "number": q[2], "budget": q[3]}
        if not ran(ctx, r, "%s: without memory the process ends" % q[0], about):
            continue
        r = [show(x) for x in r]
        if r[1]:
            ctx.violation("%s %s" % (q[0], r[1]), about)
        faults, threw, returned = int(r[2]), int(r[3]), int(r[4])
        for i in range(faults):
            ctx.seen("%s %s %s %d" % (q[0], q[1], q[2], i))
        ctx.count("allocations counted", int(r[0]))
        ctx.count("ended in bad_alloc", threw)
        ctx.count("returned all the same", returned)
        for k, what in zip(r[5::2], r[6::2]):
            ctx.violation("%s, when allocation %s of %s fails, %s" % (q[0], k, r[0], what), dict(about, allocation=k))
    ctx.sample({"call": reqs[0][0], "text": reqs[0][1][:200]})


CHECKS = {"Z03": z03, "Z04": z04}
