"""Write the planted bugs of /verif/seeded from their description, and try them out.

  python3 tools/seeds.py write [ID...]      (re)create seeded/<id>/ from the entries below
  python3 tools/seeds.py try [ID...]        in a scratch copy: patch applies, tests pass, demo 0 before and non-zero after
  python3 tools/seeds.py check [ID...]      apply to /repo, run the check of the property (and --all: every check), undo

No check reads this file or /verif/seeded.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = "/repo"
sys.path.insert(0, HERE)
from seed_list import SEEDS  # noqa: E402

ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)


def scratch():
    d = tempfile.mkdtemp(prefix="seedrepo_", dir="/tmp")
    shutil.copytree(REPO, os.path.join(d, "r"), symlinks=True)
    return d, os.path.join(d, "r")


def write(ids):
    d, r = scratch()
    try:
        for s in SEEDS:
            if ids and s["id"] not in ids:
                continue
            sh("git checkout -q -- .", r)
            for f, old, new in s["edits"]:
                p = os.path.join(r, "conjugate", f)
                t = open(p).read()
                if t.count(old) != 1:
                    print("EDIT NOT UNIQUE", s["id"], t.count(old), old[:60])
                    break
                open(p, "w").write(t.replace(old, new))
            else:
                diff = sh("git diff", r).stdout
                out = os.path.join(ROOT, "seeded", s["id"])
                os.makedirs(out, exist_ok=True)
                open(os.path.join(out, "patch.diff"), "w").write(diff)
                open(os.path.join(out, "demo.sh"), "w").write(
                    '#!/bin/bash\n# run with cwd = the repository\n'
                    'D="$(cd "$(dirname "$0")" && pwd)"\n'
                    'PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD" exec /opt/venv/bin/python "$D/demo.py"\n')
                os.chmod(os.path.join(out, "demo.sh"), 0o755)
                open(os.path.join(out, "demo.py"), "w").write(s["demo"].lstrip("\n"))
                json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                          open(os.path.join(out, "meta.json"), "w"), indent=1)
    finally:
        shutil.rmtree(d)


def attempt(ids):
    d, r = scratch()
    try:
        for i in ids or sorted(os.listdir(os.path.join(ROOT, "seeded"))):
            s = os.path.join(ROOT, "seeded", i)
            sh("git checkout -q -- .", r)
            before = sh("bash %s/demo.sh" % s, r)
            a = sh("git apply %s/patch.diff" % s, r)
            if a.returncode:
                print(i, "PATCH DOES NOT APPLY", a.stderr[:200])
                continue
            after = sh("bash %s/demo.sh" % s, r)
            t = sh("PYTHONPATH=%s /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider --no-cov -x" % r, r)
            ok = before.returncode == 0 and after.returncode != 0 and t.returncode == 0
            print("ok  " if ok else "BAD ", i, before.returncode, after.returncode, t.stdout.strip().splitlines()[-1][:80],
                  "" if ok else before.stderr[-300:] + t.stdout[-600:], flush=True)
    finally:
        shutil.rmtree(d)


def check(ids, everything=False):
    assert not sh("git status --short", REPO).stdout.strip(), "/repo is not clean"
    claimed = [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]
    for i in ids or sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        s = os.path.join(ROOT, "seeded", i)
        prop = json.load(open(s + "/meta.json"))["property"]
        a = sh("git apply %s/patch.diff" % s, REPO)
        try:
            if a.returncode:
                print(i, "PATCH DOES NOT APPLY")
                continue
            caught = []
            for p in (claimed if everything else [prop]):
                o = sh("python3-vt run.py %s" % p, ROOT)
                v = [x for x in o.stdout.splitlines() if x.startswith("VIOLATION")]
                if o.returncode == 1 and v:
                    caught.append(p + ("(no input)" if all("no-failing" in x for x in v) else ""))
                elif o.returncode:
                    caught.append(p + "=rc%d" % o.returncode)
                u = [x for x in o.stdout.splitlines() if x.startswith("UNDECIDED")]
                if u:
                    caught.append(p + ":%d undecided" % len(u))
            print(i, prop, "caught by", caught or "NOTHING", flush=True)
        finally:
            sh("git checkout -q -- .", REPO)


if __name__ == "__main__":
    cmd, ids = sys.argv[1], [a for a in sys.argv[2:] if a != "--all"]
    {"write": lambda: write(ids), "try": lambda: attempt(ids), "check": lambda: check(ids, "--all" in sys.argv)}[cmd]()
