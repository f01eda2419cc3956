"""Y01: every interface reports the same library version."""
import ast
import json
import os
import re
import subprocess
import sys

import build
from harness import Crash

# runs get_version() of a packaging script without running the rest of the script
RUNNER = r"""
import ast, sys
path, root = sys.argv[1:3]
import os
os.chdir(root)
tree = ast.parse(open(path).read())
keep = []
for n in tree.body:
    if isinstance(n, ast.FunctionDef):
        keep.append(n)
    elif isinstance(n, (ast.Import, ast.ImportFrom)):
        mods = [a.name for a in n.names] if isinstance(n, ast.Import) else [n.module]
        if all(m.split('.')[0] in ('os', 're', 'sys', 'pathlib') for m in mods):
            keep.append(n)
    elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id.endswith('_dir'):
        keep.append(n)
tree.body = keep
env = {'__name__': 'packaging', '__file__': path}
exec(compile(tree, path, 'exec'), env)
print(env['get_version']())
"""


def y01(ctx):
    ctx.rule = "the version through C++, the JavaScript wrapper and both packaging scripts, repeatedly; distinct answers"
    exe = build.build_small("libver", "libver.cpp", extra_srcs=["emscripten/emscripten_wrapper.cpp"],
                            extra_flags=["-I" + os.path.join(build.REPO, "emscripten")])
    answers = {}
    for i, r in enumerate(ctx.run(exe, [["v"]] * 20, shards=4)):
        if isinstance(r, Crash):
            ctx.violation("asking for the version: %r" % r, {})
            return
        for k, name in enumerate(["get_version()", "version constant", "JavaScript wrapper", "JavaScript binding"]):
            answers.setdefault(r[k].decode(), []).append(name)
            ctx.seen((name, r[k]))
    for script in ("version.py", "setup.py"):
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", RUNNER, os.path.join(build.REPO, script), build.REPO],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        if p.returncode:
            ctx.violation("%s fails: %s" % (script, p.stderr.decode()[-400:]), {"script": script})
            continue
        v = p.stdout.decode().strip()
        answers.setdefault(v, []).append(script)
        ctx.seen((script, v))
    ctx.sample({k: sorted(set(v)) for k, v in answers.items()})
    if len(answers) != 1:
        ctx.violation("the interfaces disagree: %r" % {k: sorted(set(v)) for k, v in answers.items()}, answers)
    for v in answers:
        if not re.fullmatch(r"[0-9]+(\.[0-9]+)+([-.]?[a-z0-9]+)?", v):
            ctx.violation("%r is not a dotted release number" % v, answers)


CHECKS = {"Y01": y01}
