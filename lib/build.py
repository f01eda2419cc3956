"""Builds what a check needs from /repo's current working tree.

The repository's v3x half needs two code generators this sandbox does not have
(tree-gen and ANTLR).  /verif/tc contains replacements; here they are run on the
repository's own .tree and .g4 files, and the result is compiled together with
the repository's own sources.
"""
import concurrent.futures as cf
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
TC = os.path.join(VERIF, "tc")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, ".build"))

SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function",
             "-fno-sanitize-recover=all"],
    "tsan": ["-fsanitize=thread"],
    "none": [],
    "cov": ["-fsanitize-coverage=trace-pc-guard"],      # the driver counts; see cost.cpp
}
CXX = "clang++"
BASE = ["-std=c++20", "-O0", "-g1", "-w", "-fno-omit-frame-pointer", "-DSPDLOG_FMT_EXTERNAL"]


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p)
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(path):
    with open(path, "rb") as f:
        return f.read()


def _run(cmd, what, cwd=None, timeout=600):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, timeout=timeout)
    if r.returncode != 0:
        raise BuildError("%s failed (%d): %s\n%s" % (
            what, r.returncode, " ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))
    return r.stdout


def _files(*patterns):
    out = []
    for p in patterns:
        out += glob.glob(p, recursive=True)
    return sorted(f for f in out if os.path.isfile(f))


def _hdr_hash(dirs):
    parts = []
    for d in dirs:
        for f in _files(d + "/**/*.h", d + "/**/*.hpp"):
            parts.append(os.path.relpath(f, d))
            parts.append(_read(f))
    return _sha(*parts)


def _compile_all(jobs, outdir):
    """jobs: (src, obj, flags) ; compiled in parallel unless the object exists."""
    todo = [j for j in jobs if not os.path.exists(j[1])]
    def one(j):
        src, obj, flags = j
        tmp = obj + ".tmp%d.o" % os.getpid()
        _run([CXX] + flags + ["-c", src, "-o", tmp], "compiling " + src)
        os.replace(tmp, obj)
    with cf.ThreadPoolExecutor(max(2, os.cpu_count() or 2)) as ex:
        futs = [ex.submit(one, j) for j in todo]
        err = None
        for f in futs:
            try:
                f.result()
            except BuildError as e:
                err = err or e
        if err:
            raise err


def build_small(name, driver, flavor="asan", extra_flags=(), extra_srcs=()):
    """A driver linked with the repository sources that need no generated code."""
    repo_srcs = [os.path.relpath(f, REPO) for f in _files(REPO + "/src/*.cpp")] + list(extra_srcs)
    os.makedirs(BUILD, exist_ok=True)
    hh = _hdr_hash([os.path.join(REPO, "include"), os.path.join(VERIF, "drivers"), os.path.join(TC, "include")])
    flags = BASE + SAN[flavor] + list(extra_flags) + [
        "-I" + os.path.join(VERIF, "drivers"),
        "-I" + os.path.join(TC, "include"), "-I" + os.path.join(REPO, "include")]
    jobs = []
    for s in [os.path.join(VERIF, "drivers", driver)] + [os.path.join(REPO, x) for x in repo_srcs]:
        key = _sha(s, _read(s), hh, " ".join(flags))
        jobs.append((s, os.path.join(BUILD, "%s-%s.o" % (os.path.basename(s), key)), flags))
    _compile_all(jobs, BUILD)
    exe = os.path.join(BUILD, "%s-%s-%s" % (name, flavor, _sha(*[j[1] for j in jobs])))
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        _run([CXX] + SAN[flavor] + [j[1] for j in jobs] + ["-o", tmp, "-lfmt", "-lpthread"], "linking " + name)
        os.replace(tmp, exe)
    return exe


FAST = os.path.join(TC, "antlr_runtime.cpp")
TREES = ["syntactic", "semantic", "types", "values"]


def generate():
    """Run the generators on the repository's grammar and tree files."""
    srcs = _files(REPO + "/src/v3x/*.tree", REPO + "/src/v3x/*.g4")
    gens = _files(TC + "/*.py")
    key = _sha(*[_read(f) for f in srcs + gens])
    gen = os.path.join(BUILD, "gen-" + key)
    if os.path.isdir(gen):
        return gen
    tmp = gen + ".tmp%d" % os.getpid()
    v3x = os.path.join(tmp, "libqasm", "v3x")
    os.makedirs(v3x)
    cmds = [[sys.executable, TC + "/treegen.py", "%s/src/v3x/%s.tree" % (REPO, n),
             "%s/%s_generated.hpp" % (v3x, n), "%s/%s_generated.cpp" % (v3x, n), "%s/%s_generated.py" % (v3x, n)]
            for n in TREES]
    cmds.append([sys.executable, TC + "/antlrgen.py", REPO + "/src/v3x/CqasmLexer.g4",
                 REPO + "/src/v3x/CqasmParser.g4", v3x])
    with cf.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(_run, c, "generator") for c in cmds]:
            f.result()
    try:
        os.replace(tmp, gen)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return gen


def full_flags(gen, flavor):
    return BASE + SAN[flavor] + ["-I" + gen, "-I" + os.path.join(gen, "libqasm", "v3x"),
                                 "-I" + os.path.join(TC, "include"), "-I" + os.path.join(REPO, "include"),
                                 "-I" + os.path.join(REPO, "emscripten")]


def _pch(gen, flavor, flags, hh):
    src = os.path.join(TC, "include", "vf_pch.hpp")
    out = os.path.join(BUILD, "vf_pch-%s-%s.pch" % (flavor, _sha("2", hh, " ".join(flags))))
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        _run([CXX] + flags + ["-x", "c++-header", "-Xclang", "-fpch-instantiate-templates", "-Xclang", "-fno-pch-timestamp", src, "-o", tmp], "pch")
        os.replace(tmp, out)
    return out


def build_full(name, driver, flavor="asan", extra_srcs=()):
    """A driver linked with the whole of libqasm."""
    os.makedirs(BUILD, exist_ok=True)
    gen = generate()
    hh = _hdr_hash([os.path.join(REPO, "include"), gen, os.path.join(TC, "include"), os.path.join(VERIF, "drivers"),
                   os.path.join(REPO, "emscripten")])
    flags = full_flags(gen, flavor) + ["-I" + os.path.join(VERIF, "drivers")]
    pch = _pch(gen, flavor, flags, hh)
    uflags = flags + ["-include-pch", pch]
    gsrc = _files(gen + "/libqasm/v3x/*.cpp") + _files(TC + "/*.cpp")
    rsrc = _files(REPO + "/src/*.cpp", REPO + "/src/v3x/*.cpp")
    rsrc = [s for s in rsrc]
    dsrc = [os.path.join(VERIF, "drivers", driver)] + [os.path.join(REPO, x) for x in extra_srcs]
    srcs = gsrc + dsrc + rsrc
    order = {"syntactic_generated.cpp": 0, "CqasmParser.cpp": 1, "semantic_generated.cpp": 2}
    srcs.sort(key=lambda s: (order.get(os.path.basename(s), 9), -os.path.getsize(s)))
    jobs = []
    for s in srcs:
        key = _sha(s, _read(s), hh, " ".join(flags), "1")
        fl = flags if s.startswith(os.path.join(REPO, "emscripten")) else uflags   # versioning.hpp does not go with version.hpp
        if flavor == "cov" and (s.startswith(TC + os.sep) or os.path.basename(s).startswith("Cqasm")):
            fl = [f for f in fl if f not in SAN["cov"]]     # the stand-ins' steps do not count
        if s == FAST:
            # The stand-in's inner loops: optimised, and not sanitized (they are not what is under test) except for races.
            fl = [f for f in flags if f not in SAN["asan"] and f != "-O0"] + ["-O2"]
        jobs.append((s, os.path.join(BUILD, "%s-%s.o" % (os.path.basename(s), key)), fl))
    _compile_all(jobs, BUILD)
    jobs.sort(key=lambda j: j[0] == FAST)      # last, so that shared inline functions come from sanitized objects
    exe = os.path.join(BUILD, "%s-%s-%s" % (name, flavor, _sha(*[j[1] for j in jobs])))
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        _run([CXX] + SAN[flavor] + [j[1] for j in jobs] + ["-o", tmp, "-lfmt", "-lpthread"], "linking " + name)
        os.replace(tmp, exe)
    return exe


if __name__ == "__main__":
    t = time.time()
    print(build_full(sys.argv[1], sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else "asan"), time.time() - t)
