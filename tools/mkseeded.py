"""Writes /verif/seeded/<id>/ from the table below (old text -> new text in a
scratch copy of /repo), and checks each: applies, stable tests pass, the
demonstration passes on the unchanged tree and fails with the patch.

usage: mkseeded.py [ID...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = {}
exec(open(os.path.join(HERE, "tools", "seeded_bugs.py")).read())

COMMON = open(os.path.join(HERE, "tools", "demo_common.py")).read()
SH = '''#!/bin/bash
# cwd: the repository. Exit 0: the property held in this scenario.
PYTHONDONTWRITEBYTECODE=1 exec timeout 60 python3 "$(dirname "$0")/demo.py"
'''


def run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True)


def main():
    ok = True
    for name, b in BUGS.items():
        if sys.argv[1:] and name not in sys.argv[1:]:
            continue
        tmp = tempfile.mkdtemp(prefix="seed-")
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        d = os.path.join(HERE, "seeded", name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f, old, new in b["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(name, "edit matches", s.count(old), "times:", old)
                ok = False
            open(p, "w").write(s.replace(old, new))
        diff = run(["git", "diff"], repo).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "common.py"), "w").write(COMMON)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip())
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b["property"], "needs": b["needs"],
                   "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        # originality of changed lines
        base = subprocess.run(["git", "-C", "/repo", "rev-parse", "0a32fb3"],
                              stdout=subprocess.PIPE, text=True).stdout.strip()
        removed = []
        cur = None
        for ln in diff.splitlines():
            if ln.startswith("--- "):
                cur = ln[6:]
            elif ln.startswith("-"):
                removed.append((cur, ln[1:]))
        for f, t in removed:
            orig = subprocess.run(["git", "-C", "/repo", "show",
                                   "%s:%s" % (base, f)],
                                  stdout=subprocess.PIPE, text=True).stdout
            if t not in orig.splitlines():
                print(name, "changes a line not in the original:", t)
        t = run(["python3-vt", "-m", "pytest", "-q", "test/test_filter.py",
                 "test/test_timer.py"], repo)
        a = run(["bash", os.path.join(d, "demo.sh")], repo)
        c = run(["bash", os.path.join(d, "demo.sh")], "/repo")
        good = a.returncode != 0 and c.returncode == 0 and "failed" not in \
            t.stdout and "error" not in t.stdout.lower()
        print(name, "OK" if good else "BAD", "patched rc", a.returncode,
              "clean rc", c.returncode, t.stdout.strip().splitlines()[-1],
              "|", a.stdout.strip().splitlines()[-1:])
        if not good:
            ok = False
            print(c.stdout[-1500:])
            print(a.stdout[-1500:])
        shutil.rmtree(tmp)
    sys.exit(0 if ok else 1)


main()
