"""Regenerate /verif/seeded from tools/seeds.py: each planted bug is applied to
a scratch copy of /repo, checked to compile, to keep the stable tests passing
and to be distinguished by its demo.  usage: plant.py [ID...] [--check]"""
import json, os, shutil, subprocess, sys, tempfile, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []


def seed(id, property, file, old, new, needs, breaks, demo):
    edits = [(file, old, new)] if isinstance(file, str) else file
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


PRE = '''import sys, os, io, contextlib
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
sys.setrecursionlimit(5000)
import ptypes as pt, execution, scanning, parsing, operators, tokens, errors
from ptypes import Scalar, List, Range, Pattern, Block, nil, toPipType
state = lambda: execution.ProgramState()
S = Scalar
def run(code, *args, flags=""):
    """Output of a Pip program given as text."""
    st = execution.ProgramState()
    out = io.StringIO()
    err = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            tree = parsing.parse(scanning.scan(code + "\\n"))
            st.executeProgram(tree, list(args))
        except errors.FatalError:
            return out.getvalue() + "<fatal>"
    return out.getvalue()
def eq(a, b):
    ra, rb = repr(a), repr(b)
    if ra != rb:
        print("got", ra, "expected", rb)
        sys.exit(1)
'''


def main():
    exec(open(os.path.join(V, "tools", "seeds.py")).read(), globals())
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    for s in SEEDS:
        if ids and s["id"] not in ids:
            continue
        d = os.path.join(V, "seeded", s["id"])
        if os.path.exists(d) and not ids:
            continue
        t = tempfile.mkdtemp(prefix="plant")
        try:
            R = os.path.join(t, "repo")
            shutil.copytree("/repo", R, ignore=shutil.ignore_patterns(".git", "__pycache__"))
            patch = ""
            ok = True
            for f, old, new in s["edits"]:
                p = os.path.join(R, f)
                src = open(p).read()
                pre = ""
                if isinstance(old, tuple):
                    i = src.index(old[0])
                    pre, src, old = src[:i], src[i:], old[1]
                    i = src.index(old) + len(old)
                    src, post = src[:i], src[i:]
                else:
                    post = ""
                if src.count(old) != 1:
                    print(s["id"], "edit matches", src.count(old), "times in", f); ok = False; break
                dst = pre + src.replace(old, new) + post
                open(p, "w").write(dst)
            if not ok:
                continue
            for f in sorted({e[0] for e in s["edits"]}):
                a = open(os.path.join("/repo", f)).read().splitlines(True)
                b = open(os.path.join(R, f)).read().splitlines(True)
                patch += f"diff --git a/{f} b/{f}\n" + "".join(difflib.unified_diff(a, b, "a/" + f, "b/" + f))
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(patch)
            open(os.path.join(d, "demo.py"), "w").write(PRE + s["demo"].strip() + "\n")
            open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec timeout 120 python3 "$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]),
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            sh = os.path.join(d, "demo.sh")
            r0 = subprocess.run(["bash", sh], cwd="/repo", capture_output=True, text=True)
            r1 = subprocess.run(["bash", sh], cwd=R, capture_output=True, text=True)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
            tt = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "test"], cwd=R,
                                capture_output=True, text=True, env=env)
            passed = tt.stdout.strip().splitlines()[-1]
            ap = subprocess.run(["git", "-C", "/repo", "apply", "--check", os.path.join(d, "patch.diff")], capture_output=True, text=True)
            good = r0.returncode == 0 and r1.returncode != 0 and ap.returncode == 0
            line = f"{s['id']}: clean={r0.returncode} patched={r1.returncode} apply={ap.returncode} tests: {passed}"
            if not good:
                line += "\n  BAD " + r0.stdout + r0.stderr[-600:] + ap.stderr
            print(line, flush=True)
            if "--check" in sys.argv:
                c = subprocess.run(["python3-vt", os.path.join(V, "check.py"), s["property"]],
                                   env=dict(os.environ, PYVC_REPO=R), capture_output=True, text=True)
                print("   check exit", c.returncode, "|", "\n      ".join(c.stdout.strip().splitlines()[-4:]), flush=True)
        finally:
            shutil.rmtree(t)


main()
