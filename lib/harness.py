"""What every check shares: running drivers in batches, verdicts, known findings, evidence."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = max(2, min(8, os.cpu_count() or 2))

SCALE = float(os.environ.get("VERIF_SCALE", "1"))    # smaller quick runs, while developing
ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:detect_stack_use_after_return=0:"
                    "hard_rss_limit_mb=3500:allocator_may_return_null=0:max_allocation_size_mb=4000:"
                    "symbolize=1:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=98:second_deadlock_stack=1:suppressions=" + os.path.join(VERIF, "drivers", "tsan.supp"),
    "LSAN_OPTIONS": "exitcode=97",
    "LC_ALL": "C",
}


class Inconclusive(Exception):
    pass


class Died(Exception):
    def __init__(self, kind, report):
        self.kind, self.report = kind, report
        super().__init__(kind)


def pack(fields):
    out = [struct.pack("<I", len(fields))]
    for f in fields:
        if isinstance(f, str):
            f = f.encode("utf-8", "surrogateescape")
        elif isinstance(f, int):
            f = str(f).encode()
        out.append(struct.pack("<I", len(f)))
        out.append(f)
    return b"".join(out)


def unpack_all(buf):
    res, i, n = [], 0, len(buf)
    while i + 4 <= n:
        (cnt,) = struct.unpack_from("<I", buf, i)
        j = i + 4
        fields = []
        ok = True
        for _ in range(cnt):
            if j + 4 > n:
                ok = False
                break
            (ln,) = struct.unpack_from("<I", buf, j)
            j += 4
            if j + ln > n:
                ok = False
                break
            fields.append(buf[j:j + ln])
            j += ln
        if not ok:
            break
        res.append(fields)
        i = j
    return res


def crash_summary(err):
    t = err.decode("utf-8", "replace")
    for pat in (r"^.*runtime error:.*$", r"^.*ERROR: \w+Sanitizer.*$", r"^WARNING: ThreadSanitizer.*$",
                r"^.*Assertion.*$", r"^.*terminate called.*$", r"^.*what\(\).*$", r"^.*exhausted.*$"):
        m = re.search(pat, t, re.M)
        if m:
            return m.group(0).strip()[:300]
    return t.strip()[-300:]


def report_ends(err):
    return err if len(err) <= 16000 else err[:12000] + b"\n...\n" + err[-4000:]


class Crash:
    """Stands in for the response of a request that ended the driver."""

    def __init__(self, kind, summary, report):
        self.kind, self.summary, self.report = kind, summary, report

    def __repr__(self):
        return "%s: %s" % (self.kind, self.summary)


def _run_shard(exe, reqs, case_timeout, workdir, env, args=()):
    """Returns one response (list of bytes) or Crash per request."""
    out = []
    pos = 0
    stdout_all = b""
    rounds = 0
    retried = set()
    while pos < len(reqs):
        rounds += 1
        if rounds > 15:
            out += [None] * (len(reqs) - pos)   # too many crashes: the rest is not looked at
            break
        fi = tempfile.NamedTemporaryFile(dir=workdir, suffix=".in", delete=False)
        fi.write(b"".join(pack(r) for r in reqs[pos:]))
        fi.close()
        fo, fe, fs = fi.name + ".out", fi.name + ".err", fi.name + ".std"
        with open(fe, "wb") as ef, open(fs, "wb") as sf:
            p = subprocess.Popen([exe, fi.name, fo] + list(args), stdout=sf, stderr=ef, stdin=subprocess.DEVNULL,
                                 env=env, cwd=workdir, start_new_session=True)
            last, last_t, hang = -1, time.time(), False
            while True:
                try:
                    rc = p.wait(timeout=0.5 if time.time() - last_t > 2 else 0.02)
                    break
                except subprocess.TimeoutExpired:
                    sz = os.path.getsize(fo) if os.path.exists(fo) else 0
                    if sz != last:
                        last, last_t = sz, time.time()
                    elif time.time() - last_t > case_timeout:
                        hang = True
                        os.killpg(p.pid, signal.SIGKILL)
                        rc = p.wait()
                        break
        got = unpack_all(open(fo, "rb").read()) if os.path.exists(fo) else []
        err = open(fe, "rb").read()
        stdout_all += open(fs, "rb").read()[:100000]
        for f in (fi.name, fo, fe, fs):
            if os.path.exists(f):
                os.unlink(f)
        out += got
        pos += len(got)
        if rc == 0 and pos >= len(reqs):
            if b"Sanitizer" in err:
                raise Inconclusive("sanitizer report without failure: " + crash_summary(err))
            break
        if pos >= len(reqs):
            # all requests were answered and the process died afterwards (at exit)
            out[-1] = Crash("exit", crash_summary(err), report_ends(err))
            break
        if rc == 0:
            raise Inconclusive("driver ended early")
        if rc == 2 and not err:
            raise Inconclusive("driver could not start")
        if hang and pos not in retried:
            retried.add(pos)      # once more, on its own account, before it counts as a hang
            case_timeout = case_timeout * 2
            continue
        if rc == -signal.SIGKILL and not hang and pos not in retried:
            retried.add(pos)      # killed from outside (memory pressure): try again
            continue
        kind = "hang" if hang else "crash"
        out.append(Crash(kind, "no answer within %d s" % case_timeout if hang else crash_summary(err) or
                         "ended with status %d" % rc, report_ends(err)))
        pos += 1
        if hang:
            out += [None] * (len(reqs) - pos)   # the next one may hang just as long
            break
    return out, stdout_all


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.rule = ""
        self.samples = []
        self.extra = {}
        self.viol = []
        self.known_hit = {}
        self.level = "exploration"
        self.assumptions = []
        self.exhaustive = None
        base = os.path.join(VERIF, ".build")
        os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="work-%s-" % prop, dir=base)
        self.known = load_known(prop)
        self.stdout = b""

    @property
    def quick(self):
        return self.tier != "thorough"

    def n(self, quick, thorough=None):
        return max(1, int(quick * SCALE)) if self.quick else (thorough if thorough is not None else quick * 10)

    # --- running -------------------------------------------------------------------------------------------
    def run(self, exe, reqs, case_timeout=30, shards=None, extra_env=None, args=()):
        env = dict(os.environ)
        env.update(ENV)
        if extra_env:
            env.update(extra_env)
        reqs = list(reqs)
        if not reqs:
            return []
        if self.viol and time.time() - self.t0 > 150:
            return [None] * len(reqs)       # there is a verdict already
        k = shards or min(NPROC, max(1, len(reqs) // 8))
        parts = [reqs[i::k] for i in range(k)]
        res = [None] * len(reqs)
        with cf.ThreadPoolExecutor(k) as ex:
            futs = [ex.submit(_run_shard, exe, p, case_timeout, self.work, env, args) for p in parts]
            for i, f in enumerate(futs):
                out, so = f.result()
                self.stdout += so
                if len(out) != len(parts[i]):
                    raise Inconclusive("lost responses")
                for j, o in enumerate(out):
                    res[i + j * k] = o
        return res

    # --- observing -----------------------------------------------------------------------------------------
    def seen(self, key=None, nontrivial=True):
        self.evaluations += 1
        if nontrivial and key is not None:
            if not isinstance(key, (str, int, tuple, bytes)):
                key = repr(key)
            if isinstance(key, (str, bytes)) and len(key) > 64:
                key = hashlib.sha1(key if isinstance(key, bytes) else key.encode("utf-8", "replace")).digest()
            self.distinct.add(key)

    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            self.samples.append(x if isinstance(x, (str, int, float, list, dict)) else repr(x))

    def count(self, name, k=1):
        self.extra[name] = self.extra.get(name, 0) + k

    def violation(self, what, replay, key=None):
        """replay: anything JSON-able that reproduces it. key: identifies the failing input for known findings."""
        key = key or what
        for kf in self.known:
            if kf["match"] == key or (kf.get("regex") and re.search(kf["regex"], key)):
                self.known_hit[kf["id"]] = kf["what"]
                return
        if len(self.viol) < 50:
            self.viol.append((what, replay))

    # --- ending --------------------------------------------------------------------------------------------
    def finish(self):
        shutil.rmtree(self.work, ignore_errors=True)
        cov = {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
               "samples": self.samples or ["none"]}
        cov.update(self.extra)
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        ev = {"property": self.prop, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
              "level": self.level, "coverage": cov, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.viol)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        evd = os.path.join(VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        for w in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        if self.viol:
            rd = os.path.join(evd, "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, self.prop + ".json")
            with open(path, "w") as f:
                json.dump([{"what": w, "replay": r} for w, r in self.viol], f, indent=1, default=repr)
            for w, r in self.viol[:5]:
                print("  %s" % w[:1500])
                print("    input: %s" % (json.dumps(r, default=repr)[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        if self.evaluations == 0:
            raise Inconclusive("nothing was observed")
        print("%s: held on %d evaluations (%d distinct) in %.1f s" % (
            self.prop, self.evaluations, len(self.distinct), time.time() - self.t0))
        return 0


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]
