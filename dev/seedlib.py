"""Writes /verif/seeded/<id>/ from a description of a planted bug.  Used while developing, never by a check."""
import json
import os
import shutil
import subprocess

SEEDED = "/verif/seeded"

SMALL = r'''#!/bin/bash
# exit 0 if the behaviour is right
set -u
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
g++ -std=c++20 -I/repo/include -I"$here/inc" "$here/demo.cpp" %s -o "$d/demo" -lfmt || exit 4
timeout 60 "$d/demo"
'''

FULL = r'''#!/bin/bash
# exit 0 if the behaviour is right; builds the whole library with the stand-ins for tree-gen and ANTLR beside this file
set -u
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
exe=$(VF_BUILD="$d/b" python3 -B "$here/lib/build.py" demo demo.cpp none | awk '{print $1}') || exit 4
[ -x "$exe" ] || exit 4
(cd "$d" && ulimit -v 8000000 && timeout 100 "$exe" "$d")
'''


def seed(sid, prop, edits, what, needs, demo, srcs=None):
    """edits: [(file, old, new)], srcs: repository sources for a small demo (None: the whole library)"""
    wt = "/tmp/seedwt"
    subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", wt], capture_output=True)
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "--detach", wt, "HEAD"], check=True, capture_output=True)
    try:
        for f, old, new in edits:
            p = os.path.join(wt, f)
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", wt, "diff"], check=True, capture_output=True).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", wt], capture_output=True)
    out = os.path.join(SEEDED, sid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(out + "/patch.diff", "wb").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(out + "/meta.json", "w"), indent=1)
    if srcs == "python":
        open(out + "/demo.sh", "w").write('#!/bin/bash\n# exit 0 if the behaviour is right\nexec timeout 60 python3 -B "$(dirname "$0")/demo.py"\n')
        open(out + "/demo.py", "w").write(demo)
    elif srcs is not None:
        open(out + "/demo.sh", "w").write(SMALL % " ".join("/repo/" + s for s in srcs))
        open(out + "/demo.cpp", "w").write(demo)
        if any("error" in s or "version" in s for s in srcs):
            os.makedirs(out + "/inc")
            for h in ("tree-annotatable.hpp", "tree-base.hpp", "tree-cbor.hpp"):
                shutil.copy("/verif/tc/include/" + h, out + "/inc/" + h)
    else:
        open(out + "/demo.sh", "w").write(FULL)
        shutil.copytree("/verif/tc", out + "/tc", ignore=shutil.ignore_patterns("__pycache__"))
        os.makedirs(out + "/lib")
        shutil.copy("/verif/lib/build.py", out + "/lib/build.py")
        os.makedirs(out + "/drivers")
        open(out + "/drivers/demo.cpp", "w").write(demo)
    os.chmod(out + "/demo.sh", 0o755)
