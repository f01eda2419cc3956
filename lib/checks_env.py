"""Checks of what surrounds a call: the locale it runs in, and what it leaves behind in the process."""
import concurrent.futures as cf
import os
import re
import shutil
import subprocess

import checks_api
import checks_lang
import checks_sem
import checks_util
import lang
from checks_api import SHARED, api, hostile_text, show
from harness import ENV, Crash, Ctx, pack, unpack_all


class Enough(Exception):
    pass


class Recorder(Ctx):
    """Lets another check make its requests, and keeps them instead of running them."""

    def __init__(self, ctx, prop, scale):
        self.prop, self.tier, self.seed = prop, ctx.tier, ctx.seed
        self.scale = scale
        self.rng = __import__("random").Random("%s/%s/%d" % (ctx.prop, prop, ctx.seed))
        self.t0 = ctx.t0
        self.evaluations, self.distinct, self.samples, self.extra, self.viol = 0, set(), [], {}, []
        self.known, self.known_hit, self.work, self.stdout = [], {}, ctx.work, b""
        self.rule, self.level, self.assumptions, self.exhaustive = "", "", [], None
        self.recorded = []

    def n(self, quick, thorough=None):
        return max(1, int(quick * self.scale))

    def run(self, exe, reqs, case_timeout=30, shards=None, extra_env=None, args=()):
        reqs = list(reqs)
        self.recorded.append((exe, reqs))
        return [None] * len(reqs)

    def violation(self, *a, **k):
        pass


FROM = ["U01", "U02", "U03", "U04", "U05", "A01", "A02", "A03", "E01", "E02", "V01", "V02", "R01", "P02", "P03", "P05", "P06", "C01", "M01", "M02", "M04", "M06", "M08", "M12", "M13", "M15",
        "I01", "I02", "I03", "X01", "X02", "X03", "K01"]
HEAVY = {"M08": 4, "X01": 4, "X03": 3, "C01": 3, "M13": 3, "M04": 2}      # how many times fewer of these


def requests(ctx, scale, most, without=()):
    """exe -> [(property, request)], from what the other checks ask."""
    tables = {}
    for m in (checks_util, checks_lang, checks_sem, checks_api):
        tables.update(m.CHECKS)
    got = {}
    for prop in FROM:
        if prop not in tables or prop in without:
            continue
        rec = Recorder(ctx, prop, scale * (3 if prop[0] in "UAEVR" else 1))
        try:
            tables[prop](rec)
        except Exception:       # it wanted answers; what it asked before is enough
            pass
        for exe, reqs in rec.recorded:
            ctx.rng.shuffle(reqs)
            if prop[0] in "UAEVR":      # light
                take = reqs[:most * 10]
            else:
                take = [r for r in reqs if sum(map(len, r)) < 3000][:max(1, most // HEAVY.get(prop, 1))]
            got.setdefault(exe, []).extend((prop, r) for r in take)
    return got


# ------------------------------------------------------------------------------------------------------------ L01
LOCALES = [("de_DE", "UTF-8"), ("hi_IN", "UTF-8"), ("fr_FR", "UTF-8"), ("tr_TR", "ISO-8859-9"), ("de_DE", "ISO-8859-1"), ("el_GR", "ISO-8859-7"), ("ru_RU", "KOI8-R"), ("ps_AF", "UTF-8")]


def locales(ctx):
    """Compiles locales into the scratch directory; those that cannot be are left out."""
    d = os.path.join(ctx.work, "locales")
    os.makedirs(d)
    procs = []
    for lang_, charset in LOCALES:
        name = "%s.%s" % (lang_, charset)
        try:
            procs.append((name, subprocess.Popen(["localedef", "-i", lang_, "-f", charset, os.path.join(d, name)], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
        except OSError:
            pass
    return d, [n for n, p in procs if p.wait() in (0, 1) and os.path.exists(os.path.join(d, n, "LC_NUMERIC"))]


NUMBERS = ["version 3.0\nqubit[%s] q\nRx(%s) q[%s]\n", "version 3.0\nqubit[%s] q; bit b\nX q[0]\nRz(%s + 0.5) q[0]\nb = measure q[%s]\n", "version 3.0\n/* */ qubit[%s] q; Rx(1.0e3 * %s) q[%s, 0]\n",
           "version 3.0\nqubit[%s] q\npow(%s).X q[0]\nasm(Raw) '''%s'''\n", "version 3.0\nqubit[%s] q\n@a.b(1, %s, true)\nX q[%s]\n"]


def number_texts(rng, n):
    for _ in range(n):
        def fl():
            return rng.choice(["%d.%d" % (rng.randrange(10000), rng.randrange(10000)), ".%d" % rng.randrange(100), "%d." % rng.randrange(2000), "%d.%de%d" % (rng.randrange(99), rng.randrange(99), rng.randrange(-20, 20)),
                               "%de%d" % (rng.randrange(999), rng.randrange(-9, 9)), "1.5e400", "2.5e-400", "sqrt(2.25)", "%d.25 / 0.125" % rng.randrange(5000)])
        t = rng.choice(NUMBERS) % (rng.choice([5, 12, 1234, 1234567]), fl(), rng.choice([0, 1, 4, 999, 12345, 1.5]))
        if rng.random() < 0.4:      # far down, where places have separators
            t = t.replace("\n", "\n" * rng.choice([2, 2, 40, 1100]) + " " * rng.choice([0, 30, 1200]), 1)
        if rng.random() < 0.3:
            t = lang.mutate_text(rng, t)
        yield t


JSON_NUMBER = re.compile(rb'":"[-+]?[0-9][-+., 0-9e\x80-\xff]*"')


def unnumbered(b):
    """Without the numbers of the JSON of trees: the code that the tree generator makes writes them, and follows the locale of C++."""
    if isinstance(b, list):
        return [unnumbered(x) for x in b]
    if len(b) >= 8 and b[1:4] == b"\0\0\0":
        inner = unpack_all(b)
        if len(inner) == 1 and pack(inner[0]) == b:
            return unnumbered(inner[0])
    return JSON_NUMBER.sub(b'":"#"', b)


def l01(ctx):
    rng = ctx.rng
    ctx.rule = "distinct requests that gave, in some other locale, exactly the bytes that they give in the C locale"
    d, names = locales(ctx)
    hows = ["facet", "digits"] + [k + n for n in names for k in ("cpp:", "c:")]
    if ctx.quick:
        hows = ["facet", "digits"] + [("c:" if i % 3 == 1 else "cpp:") + n for i, n in enumerate(names)] + ["c:" + n for n in names[:1]]
    ctx.extra["locales"] = hows
    got = requests(ctx, 0.03, ctx.n(20, 600))
    drv = api()
    mine = []
    path = os.path.join(ctx.work, "f%d.cq")
    for i, t in enumerate(number_texts(rng, ctx.n(130, 3000))):
        k = rng.choice([0, 1, 1, 1, 2, 2, 2, 2])
        label = rng.choice(["", "f.cq", "a/b c.cq", "\u00e4\u00f6/\u0130.cq"])
        if k == 0:
            mine.append(["entries", t, label, path % i])
        elif k == 1:
            mine.append(["json", t, "+" + label if label else "-"])
        else:
            mine.append(["roundtrip", t, "+" + label if label else "-"])
    got.setdefault(drv, []).extend(("L01", r) for r in mine)
    for exe, pairs in sorted(got.items()):
        reqs = [r for _, r in pairs]
        plain = ctx.run(exe, reqs, case_timeout=60)
        shares = {}     # every request in one other locale at least, all locales with some of each kind
        for i in range(len(reqs)):
            for how in rng.sample(hows, min(len(hows), 1 if ctx.quick or reqs[i][0] == "entries" else 6)):    # entries writes a file, and these run at the same time
                shares.setdefault(how, []).append(i)

        def ask(item):
            how, idx = item
            return how, idx, ctx.run(exe, [reqs[i] for i in idx], case_timeout=60, shards=1, extra_env={"VF_LOCALE": how, "LOCPATH": d, "LC_ALL": "C"})

        with cf.ThreadPoolExecutor(8) as pool:
            answers = list(pool.map(ask, sorted(shares.items())))
        for how, idx, other in answers:
            good = [(i, o) for i, o in zip(idx, other) if o is not None and not isinstance(plain[i], (Crash, type(None)))]
            bad = [i for i, o in good if isinstance(o, Crash) or o != plain[i] and (how.startswith("c:") or unnumbered(o) != unnumbered(plain[i]))]
            again = dict(zip(bad, ctx.run(exe, [reqs[i] for i in bad], case_timeout=60)))
            for i, o in good:
                ctx.count("in " + how)
                if i not in again:
                    ctx.seen("%s %s %r" % (os.path.basename(exe), how, reqs[i]))
                    continue
                if again[i] != plain[i]:
                    ctx.count("requests whose answer is never the same twice")
                    continue
                prop, r = pairs[i]
                ctx.violation("in the locale %s: %s" % (how, o if isinstance(o, Crash) else first(plain[i], o)), {"locale": how, "request": [show(x) if isinstance(x, bytes) else x for x in r], "as in": prop})
    ctx.sample(mine[0][1][:200])


def first(a, b):
    """Where two answers part."""
    for x, y in zip(a, b):
        if x != y:
            k = next((j for j, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            return "%s... instead of %s..." % (show(y[max(0, k - 60):k + 60]), show(x[max(0, k - 60):k + 60]))
    return "another number of answers"


# ------------------------------------------------------------------------------------------------------------ Z02
NAMES = ["open", "openat", "openat2", "creat", "unlink", "unlinkat", "rename", "renameat", "renameat2", "mkdir", "mkdirat", "rmdir", "link", "linkat", "symlink", "symlinkat", "chmod", "fchmod", "fchmodat", "chown", "fchown",
         "lchown", "fchownat", "truncate", "ftruncate", "utime", "utimes", "utimensat", "futimesat", "chdir", "fchdir", "mknod", "mknodat", "setxattr", "fsetxattr", "mount", "umount2", "chroot",
         "socket", "connect", "bind", "sendto", "sendmsg", "fork", "vfork", "clone", "clone3", "execve", "execveat", "kill", "tkill", "tgkill", "setuid", "setgid", "setpriority", "sched_setaffinity", "setitimer", "alarm",
         "timer_create", "setrlimit", "shmget", "shm_open", "memfd_create", "inotify_init1", "flock", "fallocate", "sync", "fsync", "nanosleep", "clock_nanosleep", "pause"]


def traced(ctx, exe, reqs, allowed):
    """Runs the driver under strace, and says which calls to the system are no business of the library's."""
    wrap = os.path.join(ctx.work, "traced.sh")
    with open(wrap, "w") as f:
        f.write('#!/bin/sh\nexec strace -f -qq --seccomp-bpf -e trace=%s -e signal=none -o "$1.trace" %s "$1" "$2"\n' % (",".join("?" + n for n in NAMES), exe))
    os.chmod(wrap, 0o755)
    for f in os.listdir(ctx.work):
        if f.endswith(".trace"):
            os.unlink(os.path.join(ctx.work, f))
    res = ctx.run(wrap, reqs, case_timeout=120, extra_env={"ASAN_OPTIONS": ENV["ASAN_OPTIONS"].replace("hard_rss_limit_mb=3500:", "")})   # that limit has a thread of its own, which sleeps
    calls, strange = 0, []
    for f in sorted(os.listdir(ctx.work)):
        if not f.endswith(".trace"):
            continue
        begun = False
        for line in open(os.path.join(ctx.work, f), errors="surrogateescape"):
            m = re.match(r"\d+\s+(\w+)\((.*)$", line)
            if not m:
                continue
            name, rest = m.groups()
            if not begun:       # until its own output file is open the driver only starts
                begun = ".in.out\"" in rest and "O_WRONLY" in rest
                continue
            calls += 1
            p = re.search(r'"((?:[^"\\]|\\.)*)"', rest)
            p = p.group(1) if p else ""
            reads = name in ("open", "openat") and not re.search(r"O_WRONLY|O_RDWR|O_CREAT|O_TRUNC|O_APPEND", rest)
            if reads and (p in allowed or p.startswith("/proc/self/") or p == "."):
                continue
            strange.append(line.strip().split(None, 1)[1][:300])
    return res, calls, strange


def z02(ctx):
    drv = api()
    rng = ctx.rng
    ctx.rule = ("distinct (function, text) pairs after which the process was as before: output, files, directory, environment, locale, floating-point control, signals, streams, handlers, random numbers, limits, threads; "
                "and under strace, opening nothing but the input file")
    texts = [hostile_text(rng) for _ in range(ctx.n(220, 6000))] + SHARED + list(number_texts(rng, ctx.n(40, 500))) + [show(c) for c in lang.corpus()][:ctx.n(60, 1000)]
    for k in (3, 25, 120, 400):     # much of everything
        texts += ["version 3.0" + "; X q" * k, "version 3.0; qubit q" + "; X q" * k, "version 3.0; qubit[%d] q; X q[%s]" % (k, ", ".join(map(str, range(k)))), "version 3.0\n" + "X @ q;\n" * k,
                  "version 3.0; qubit q; Rx(%s) q" % "+".join(["1.5e0"] * k), "\n" * k + "version 3.0; bit %s" % ("b" * k), "version 3.0" + "".join("; qubit q%d" % i for i in range(k)), "version 3.0; asm(A) \'\'\'%s\'\'\'" % ("x" * k * 50)]
    texts += ["", "\n", " ", "version", "version 3.0\n", "\ufeffversion 3.0", "\0", "version 3.0; qubit q; Rx(0.0) q", "version 2.0", "version 3.0; qubit q; Rx(1 / 0) q"]
    tmp = os.path.join(ctx.work, "tmp")
    here = os.path.join(ctx.work, "input")
    os.makedirs(tmp)
    os.makedirs(here)
    reqs = []
    for i, t in enumerate(texts):
        path = os.path.join(here, "%d.cq" % i)
        with open(path, "wb") as f:
            f.write(t if isinstance(t, bytes) else t.encode("utf-8", "surrogateescape"))
        reqs.append(["effects", t, rng.choice(["", "f.cq", "dir/f.cq"]), path, os.path.join(here, "none%d.cq" % i)])
    known = ctx.run(drv, reqs, case_timeout=60, extra_env={"VF_EFFECTS": "u", "TMPDIR": tmp})
    plain = ctx.run(drv, reqs[::4], case_timeout=60, extra_env={"VF_EFFECTS": "", "TMPDIR": tmp})
    for r, a in list(zip(reqs, known)) + list(zip(reqs[::4], plain)):
        if not checks_api.ran(ctx, a, "a call ended the process", {"text": r[1]}):
            continue
        for k in range(0, len(a) - 1, 3):
            name, how, said = (show(x) for x in a[k:k + 3])
            ctx.seen("%s %s" % (name, r[1]))
            ctx.count("calls that " + how)
            if said:
                ctx.violation("%s (%s) leaves behind: %s" % (name, how, said), {"function": name, "text": r[1], "file name": r[2]})
    # the same for whatever the other checks ask
    got = requests(ctx, 0.03, ctx.n(25, 500), without=("M13",))
    for exe, pairs in sorted(got.items()):
        pairs = [(p, r) for p, r in pairs if r[0] not in ("entries", "file", "phases", "twice")]   # these write files themselves, or are told to write to cerr
        for (prop, r), a in zip(pairs, ctx.run(exe, [r for _, r in pairs], case_timeout=60, shards=8, extra_env={"VF_EFFECTS": "", "TMPDIR": tmp})):
            if a is None or isinstance(a, Crash):
                continue
            ctx.seen("%s %r" % (exe, r))
            ctx.count("requests of other checks")
            if a[-1]:
                ctx.violation("the calls of a request leave behind: %s" % show(a[-1]), {"request": [show(x) if isinstance(x, bytes) else x for x in r], "as in": prop})
    if os.listdir(tmp):
        ctx.violation("files are left in the temporary directory: %r" % os.listdir(tmp)[:5], {"files": os.listdir(tmp)[:50]})
    if shutil.which("strace"):
        some = reqs[:ctx.n(60, 600)] + reqs[-20:]
        for f in os.listdir(here):
            if f.startswith("none"):
                os.unlink(os.path.join(here, f))
        res, calls, strange = traced(ctx, drv, some, {r[3] for r in some} | {r[4] for r in some} | {tmp})
        done = sum(1 for r in res if r is not None and not isinstance(r, Crash))
        ctx.count("requests under strace", done)
        ctx.count("calls to the system looked at", calls)
        for s in sorted(set(strange)):
            ctx.violation("a call to the system that is no business of the library's: %s" % s, {"call": s})
    ctx.sample(texts[0] if isinstance(texts[0], str) else show(texts[0]))


CHECKS = {"L01": l01, "Z02": z02}
