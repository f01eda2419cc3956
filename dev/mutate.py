"""Small changes to the sources, to find what no check notices.  Used while developing, never by a check.

mutate.py list SEED COUNT            -> mutants as JSON lines
mutate.py run MUTANTS LOG            -> (inside a private mount of /repo and /verif) takes mutants from the file until it is empty
"""
import fcntl
import json
import os
import random
import re
import subprocess
import sys
import time

R = "/repo/"
FILES = {}


def files(names, checks):
    for n in names.split():
        FILES[n] = checks.split()


LANG = "M08 M14 M06 M02 M05 M03 M01 M04 C02 C03 C01 M11 M12 M07 M15 I02 M09 M10 X01 Z01 K01 E01 M13"
files("src/v3x/semantic_analyzer.cpp include/libqasm/v3x/semantic_analyzer.hpp include/libqasm/v3x/semantic_helper.hpp", LANG)
files("src/v3x/analyzer.cpp include/libqasm/v3x/analyzer.hpp include/libqasm/v3x/analysis_result.hpp src/v3x/analysis_result.cpp", "I02 M12 M13 X01 M09 M10 M01 C02 O01 M03 X03 Z01 R01 M07")
files("src/v3x/syntactic_analyzer.cpp include/libqasm/v3x/syntactic_analyzer.hpp", "P04 P03 P05 P08 P02 P01 P07 P06 Z01 X01 M08")
files("src/v3x/antlr_scanner.cpp include/libqasm/v3x/antlr_scanner.hpp src/v3x/antlr_custom_error_listener.cpp src/v3x/parse_helper.cpp include/libqasm/v3x/parse_helper.hpp src/v3x/parse_result.cpp include/libqasm/v3x/parse_result.hpp", "P07 X02 X01 P01 Z01 P06 R01 X03 M13")
files("src/v3x/CqasmLexer.g4 src/v3x/CqasmParser.g4", "P02 P03 P07 P06 P08 P05 P04")
files("src/v3x/cqasm.cpp src/v3x/cqasm_python.cpp include/libqasm/v3x/cqasm_python.hpp emscripten/emscripten_wrapper.cpp", "X01 X03 I02 M13 Y01 X02 K02")
files("src/v3x/instruction.cpp include/libqasm/v3x/instruction.hpp src/v3x/instruction_set.cpp include/libqasm/v3x/instruction_set.hpp src/v3x/register_instructions.cpp", "I01 I04 M03 M06 M05 K01 I02 C02")
files("src/v3x/primitives.cpp include/libqasm/v3x/primitives.hpp src/annotations.cpp include/libqasm/annotations.hpp", "K01 I04 A01 A02 A03 E01 E02 P04 K02 M08 M11 X03")
files("src/v3x/register_consteval_core_functions.cpp include/libqasm/v3x/register_consteval_core_functions.hpp include/libqasm/v3x/core_function.hpp", "C01 C02 C03 I02 O01")
files("src/v3x/resolver.cpp include/libqasm/v3x/resolver.hpp include/libqasm/overload.hpp include/libqasm/v3x/scope.hpp", "O01 I02 M01 M03 C02 Z01 M08 E01 M09")
files("src/v3x/types.cpp src/v3x/values.cpp include/libqasm/v3x/types.hpp include/libqasm/v3x/values.hpp", "I03 I04 M06 C02 C01 M03 M11 I02 M02 M08")
files("src/utils.cpp include/libqasm/utils.hpp include/libqasm/string_builder.hpp", "U01 U02 U03 U04 U05 X03 E02")
files("src/version.cpp include/libqasm/version.hpp src/versioning.cpp include/libqasm/versioning.hpp", "V01 V02 Y01 M12")
files("src/error.cpp include/libqasm/error.hpp include/libqasm/result.hpp src/result.cpp src/tree.cpp include/libqasm/tree.hpp", "E01 E02 R01 X03 M13 X01 K01")
files("python/module/cqasm/v3x/__init__.py python/module/cqasm/v3x/instruction.py python/module/cqasm/v3x/primitives.py", "K02")
files("src/v3x/syntactic.tree src/v3x/semantic.tree src/v3x/types.tree src/v3x/values.tree", "P03 M11 K01 P01")

SUBS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
        (r" \+ ", " - "), (r" - ", " + "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"!(?=[a-z(])", ""), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b2\b", "3"), (r"\b3\b", "2"),
        (r"if \((?!.*constexpr)(.*)\) \{$", "if (false && (\\1)) {"), (r"if \((?!.*constexpr)(.*)\) \{$", "if (true || (\\1)) {"), (r"\bfront\(\)", "back()"), (r"\bback\(\)", "front()"), (r"\bbegin\(\)", "end()"),
        (r"\bfirst\b", "last"), (r"\blast\b", "first"), (r"\brbegin\(\)", "begin()"), (r"\.first\b", ".second"), (r"\.second\b", ".first"), (r"\bstart\b", "stop"), (r"\bmin\b", "max"), (r"\bmax\b", "min"),
        (r"(\w+)\+\+", "\\1"), (r"\bfloat\b", "int"), (r"\"([a-z])([a-z])\"", "\"\\2\\1\""), (r"\" *: *\"", "\"\""), (r"std::nullopt", "std::optional<std::string>{ \"\" }"), (r"break;", "continue;"), (r"continue;", "break;"),
        (r"push_back\(", "insert(X.begin(), "), (r"std::less\b", "std::greater"), (r"std::plus\b", "std::minus"), (r"std::bit_and\b", "std::bit_or"), (r"sizeof\((\w+)\)", "4"), (r"'(\w)'", lambda m: "'%s'" % chr(ord(m.group(1)) ^ 1)),
        (r"\brow\b", "column"), (r"\bline\b", "column"), (r"\blhs\b", "rhs"), (r"\bqubit\b", "bit"), (r"\bBool\b", "Int"), (r"\bInt\b", "Float"), (r"\bis_bit\b", "is_qubit")]
GSUBS = [(r"\*(?=[ ;)])", "+"), (r"\+(?=[ ;)])", "*"), (r"\?(?=[ ;)])", ""), (r"\| [^|;]*?(?=\||;| #|$)", ""), (r"~?\[([^\]]{2,})\]", lambda m: m.group(0).replace(m.group(1), m.group(1)[:-1])), (r"\.\.", ""), (r"\bchannel\(HIDDEN\)|-> skip", ""), (r"<assoc=right>", "")]


def mutants():
    out = []
    for f in FILES:
        if not os.path.exists(R + f):
            continue
        lines = open(R + f).read().split("\n")
        comment = False
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith("/*"):
                comment = True
            if comment or s.startswith(("//", "#", "*", "\"\"\"")) or not s:
                comment = comment and "*/" not in s
                continue
            for pat, rep in GSUBS if f.endswith(".g4") else SUBS:
                for m in re.finditer(pat, l):
                    n = l[:m.start()] + (rep(m) if callable(rep) else m.expand(rep) if "\\" in rep else rep) + l[m.end():]
                    if n != l:
                        out.append((f, i, l, n))
            if f.endswith(".g4"):
                continue
            if re.match(r"\s+[\w.>(:-]+[^=]*\);$", l) and "return" not in l or re.match(r"\s+[\w.>-]+ (=|\+=) .*;$", l) or re.match(r"\s+(throw|return|break|continue).*;$", l) or re.match(r"\s+\{ \"", l):
                out.append((f, i, l, ""))
            if i + 1 < len(lines) and l.endswith(";") and lines[i + 1].endswith(";") and l.strip() and lines[i + 1].strip():
                out.append((f, i, l + "\n" + lines[i + 1], lines[i + 1] + "\n" + l))
    return out


def sh(cmd, timeout, **k):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **k)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 124, ""


def one(mut, base):
    f, i, old, new = mut["file"], mut["line"], mut["old"], mut["new"]
    p = R + f
    src = open(p).read()
    lines = src.split("\n")
    n = old.count("\n") + 1
    assert "\n".join(lines[i:i + n]) == old
    try:
        open(p, "w").write("\n".join(lines[:i] + new.split("\n") + lines[i + n:]))
        rc, o = sh(["bash", "/opt/vp/test.sh", "/tmp/mut.%d.json" % os.getpid()], 300)
        try:
            passed = json.load(open("/tmp/mut.%d.json" % os.getpid()))["passed"]
        except (OSError, ValueError):
            return "does not build", []
        if [t for t in base if t not in passed]:
            return "killed by the tests", []
        res = []
        order = mut.get("checks") or FILES[f]
        for c in order:
            st = time.time()
            rc, o = sh(["python3", "/verif/check.py", c], 600, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", VERIF_SCALE="0.4"))
            if rc == 3 and "error:" in o:
                return "does not build", []
            res.append((c, rc, int(time.time() - st)))
            if rc == 1 or rc == 3 or rc == 124:
                if not mut.get("all"):
                    return ("killed by %s" % c) if rc == 1 else "no verdict from %s" % c, res
        if mut.get("all"):
            return "killed by %s" % " ".join(c for c, rc, _ in res if rc == 1) + ("; no verdict from %s" % " ".join(c for c, rc, _ in res if rc not in (0, 1)) if any(rc not in (0, 1) for _, rc, _ in res) else ""), res
        return "SURVIVES", res
    finally:
        open(p, "w").write(src)


def main():
    if sys.argv[1] == "list":
        m = mutants()
        random.Random(int(sys.argv[2])).shuffle(m)
        only = sys.argv[4:] or [""]
        k = 0
        for f, i, o, n in m:
            if any(x in f for x in only):
                print(json.dumps({"file": f, "line": i, "old": o, "new": n}))
                k += 1
                if k >= int(sys.argv[3]):
                    break
        return
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    q, log = sys.argv[2], sys.argv[3]
    while True:
        with open(q, "r+") as fh:
            fcntl.flock(fh, fcntl.LOCK_EX)
            ls = fh.read().splitlines()
            if not ls:
                return
            fh.seek(0)
            fh.truncate()
            fh.write("".join(l + "\n" for l in ls[1:]))
        m = json.loads(ls[0])
        try:
            v, res = one(m, base)
        except Exception as e:
            v, res = "failed: %s" % e, []
        with open(log, "a") as fh:
            fh.write(json.dumps([v, m["file"], m["line"] + 1, m["old"].strip(), m["new"].strip(), res]) + "\n")


main()
