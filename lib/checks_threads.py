"""Concurrency: ThreadSanitizer and result comparison on threads that share nothing but finished results."""
import build
import lang
from checks_api import SHARED, hostile_text, show
from harness import Crash, Inconclusive

KINDS = ["parse_string", "analyze_string fresh", "analyze_string own", "V3xAnalyzer", "parse_file", "shared: analyse the parse result", "shared: read the parse result", "shared: read the analysis result",
         "analyzer copied from a shared one", "JSON", "analyze_file", "serialise", "queries"]
COLD = [0, 1, 2, 3, 4, 9, 10, 11, 12]


def rich(rng):
    """A program with one of everything, its literals, names, comments and code long and its own."""
    num = lambda n: "".join(rng.choice("0123456789") for _ in range(n))
    name = lambda n: "".join(rng.choice("abcdefghijklmnop_QRS0123456789") for _ in range(n))
    a, b = "v" + name(rng.choice([2, 9, 30])), "w" + name(rng.choice([3, 10, 40]))
    n, ways = rng.randrange(3, 60), rng.choice([12, 12, 16])
    flt = lambda: rng.choice(["1." + num(rng.choice([5, 16, 40])), num(rng.choice([1, 12])) + ".5e-" + str(rng.randrange(1, 40)), ".%sE+%d" % (num(20), rng.randrange(9)), "%s.0" % num(3)])
    one = lambda: rng.choice(["Rx(%s) %s[%d]" % (flt(), a, rng.randrange(n)), "CRk(%d) %s[0], %s[1]" % (rng.randrange(10**rng.randrange(1, 18)), a, a),
                              "pow(%s).inv.ctrl.X %s[1], %s[2]" % (flt(), a, a), "asm(%s) '''%s\n%s'''" % (name(1) and "c" + name(8), name(30), num(9)), "%s[%d] = measure %s[%d]" % (b, rng.randrange(n), a, rng.randrange(n)),
                              "Ry(sin(%s) * %s + (%d %% 7)) %s[0:%d]" % (flt(), flt(), rng.randrange(10**9), a, rng.randrange(n)), "@%s.%s(%s)\nH %s" % ("k" + name(6), "o" + name(12), flt(), a),
                              "wait(%d) %s" % (rng.randrange(10**9), a), "barrier %s[1,2,%d]" % (a, rng.randrange(n)), "/* %s */ reset %s" % (name(50), a), "init %s // %s\n" % (a, name(20)),
                              "CR(%s) %s[0], %s[2]" % (flt(), a, a), "Rx(%s) %s" % (flt(), b), "Z %s[%d]" % (a, n + rng.randrange(3)), "Rz(%s) %s" % ("u" + name(12), a), "Rx(%s(1)) %s" % ("f" + name(9), a)][:ways])
    return "version 3.0\nqubit[%d] %s; bit[%d] %s\n" % (n, a, n, b) + "\n".join(one() for _ in range(rng.randrange(5, 40)))


def t01(ctx):
    rng = ctx.rng
    ctx.rule = ("threads started together, each performing random operations of 13 kinds (parsing, analysing with its own analyzer, reading and analysing shared finished results, serialising, queries) with "
                "random yields at allocations inside the library; under ThreadSanitizer and under AddressSanitizer; every outcome compared with the same operation done alone, and between processes; in a "
                "part of the processes the threads make the first use of the library; distinct orders of operation begins and ends")
    by_text = {}
    n = 0
    for flavor, cold, warm in (("tsan", ctx.n(70, 1500), ctx.n(56, 1500)), ("asan", ctx.n(30, 600), ctx.n(60, 1500))):
        drv = build.build_full("threads", "threads.cpp", flavor)
        cold_reqs, warm_reqs = [], []
        for i in range(cold + warm):
            texts = [next(lang.texts(rng, 1, wild=0.05, faults=0.1, size=8)) if rng.random() < 0.4 else rich(rng) if rng.random() < 0.5 else rng.choice(SHARED) if rng.random() < 0.6 else hostile_text(rng) for _ in range(4)]
            if i < cold:
                kinds = rng.choice([COLD, COLD, [12], [0], [1], [rng.choice(COLD)]])
                cold_reqs.append(["go", rng.randrange(1 << 30), rng.choice([2, 3, 4, 8]), 2, rng.choice([0, 0, 30, 300]), "cold", ",".join(map(str, kinds))] + texts)
            else:
                kinds = rng.choice([list(range(13)), list(range(13)), [5, 6, 7], [7], [6], [8], [1, 2, 8], [rng.randrange(13)]])
                warm_reqs.append(["go", rng.randrange(1 << 30), rng.choice([2, 4, 4, 8]), rng.choice([4, 8]), rng.choice([0, 20, 100, 600]), "warm", ",".join(map(str, kinds))] + texts)
        # a process of its own for each of the cold ones; two processes at a time, so that the threads get cores
        res = [(r, o) for r, o in zip(warm_reqs, ctx.run(drv, warm_reqs, shards=4, case_timeout=90))]
        for i in range(0, len(cold_reqs), 6):
            part = cold_reqs[i:i + 6]
            res += list(zip(part, ctx.run(drv, part, shards=len(part), case_timeout=90)))
        for r, o in res:
            replay = {"flavor": flavor, "request": r}
            if o is None:
                continue
            if isinstance(o, Crash):
                if "FATAL: ThreadSanitizer" in o.summary or b"FATAL: ThreadSanitizer" in o.report:
                    raise Inconclusive("ThreadSanitizer does not start here: " + o.summary)
                ctx.violation("threads: %r\n%s" % (o, o.report.decode("utf-8", "replace")[:1500]), replay)
                continue
            ctx.seen(o[1])
            ctx.count("operations", int(o[4]))
            ctx.count("pairs of operations that overlapped", int(o[2]))
            ctx.count("yields inside the library", int(o[3]))
            ctx.count("processes whose threads used the library first" if r[5] == "cold" else "runs with shared results")
            if o[0]:
                ctx.violation("a thread got another result than alone: " + show(o[0])[:1500], replay)
            for x in o[5:]:
                k, t, h = x.split()
                ctx.count("outcomes " + KINDS[int(k)])
                key = (int(k), r[7 + int(t)])
                if by_text.setdefault(key, h) != h:
                    ctx.violation("%s of a text differs between two processes" % KINDS[int(k)], dict(replay, text=r[7 + int(t)]))
            if n < 3:
                ctx.sample({"threads": r[2], "order": show(o[1])})
                n += 1


CHECKS = {"T01": t01}
