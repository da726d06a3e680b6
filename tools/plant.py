"""lab tool: make planted changes from a python list of specs, or re-verify

usage: plant.py make SPECS.py [id ...]   build seeded/<id>/ from the specs,
                                         after confirming each in a scratch
                                         copy
       plant.py check [id ...]           run the property's check (and others
                                         given as id:C01,C02) against each
A spec is a dict: id, property, needs, breaks, edits [(file, old, new)], demo
(python source).  Nothing here touches /repo.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.environ.get("PLANT_DIR", os.path.join(ROOT, "seeded"))
BASE = "4587076"
PY = "/opt/venv/bin/python"
DEMO = '''#!/bin/bash
# run with cwd = the repository, after the build
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
export HOME="$scratch" PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
cd "$scratch" || exit 2
timeout 200 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def copy_repo():
    tmp = tempfile.mkdtemp(prefix="plant")
    repo = os.path.join(tmp, "repo")
    sh("git clone -q /repo {}".format(repo))
    return tmp, repo


def tests(repo):
    home = tempfile.mkdtemp(prefix="planth")
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    env = dict(os.environ, HOME=home, PYTHONPATH=repo + "/src",
               PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    out = sh("{} -m pytest -q -rA -p no:cacheprovider tests 2>&1".format(PY),
             cwd=repo, env=env).stdout
    shutil.rmtree(home)
    good = {name.replace("/", ".").replace(".py::", "::")
            for name in re.findall(r"^PASSED (\S+)", out, re.M)}
    return base <= good, len(base & good), len(base)


def make(spec):
    tmp, repo = copy_repo()
    where = os.path.join(SEEDED, spec["id"])
    try:
        for name, old, new in spec["edits"]:
            path = os.path.join(repo, "src/dispersion", name)
            text = open(path, encoding="utf8").read()
            if text.count(old) != 1:
                return spec["id"], "text occurs {} times: {!r}".format(
                    text.count(old), old[:60])
            open(path, "w", encoding="utf8").write(text.replace(old, new))
        diff = sh("git diff", cwd=repo).stdout
        removed = set()
        for hunk in re.finditer(
                r"^@@ -(\d+)", sh("git diff -U0", cwd=repo).stdout, re.M):
            removed.add(int(hunk.group(1)))
        names = {e[0] for e in spec["edits"]}
        original = 0
        for name in names:
            out = sh("git diff -U0 -- src/dispersion/" + name, cwd=repo).stdout
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))?", out, re.M):
                n = int(m.group(2) or 1)
                if not n:
                    continue
                blame = sh("git blame -s -L {},+{} HEAD -- src/dispersion/{}"
                           .format(m.group(1), n, name), cwd=repo).stdout
                original += sum(line.startswith("^" + BASE[:6]) or
                                line[1:8].startswith(BASE)
                                for line in blame.splitlines())
        os.makedirs(where, exist_ok=True)
        open(os.path.join(where, "patch.diff"), "w").write(diff)
        open(os.path.join(where, "demo.py"), "w").write(spec["demo"].lstrip())
        open(os.path.join(where, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(where, "demo.sh"), 0o755)
        json.dump({"property": spec["property"], "needs": spec["needs"],
                   "what_it_breaks": spec["breaks"]},
                  open(os.path.join(where, "meta.json"), "w"), indent=1)
        comp = sh("{} -m compileall -q -f src/dispersion".format(PY), cwd=repo)
        good, n, total = tests(repo)
        with_bug = sh(os.path.join(where, "demo.sh"), cwd=repo)
        sh("git checkout -q -- .", cwd=repo)
        without = sh(os.path.join(where, "demo.sh"), cwd=repo)
        ok = (comp.returncode == 0 and good and with_bug.returncode != 0 and
              without.returncode == 0 and
              (original > 0 or "PLANT_ANY" in os.environ))
        if not ok:
            shutil.rmtree(where)
        return spec["id"], "{} build {} tests {}/{} demo {} {} original {} | {} | {}".format(
            "ok " if ok else "REJECTED", comp.returncode, n, total, without.returncode,
            with_bug.returncode, original, with_bug.stdout[-150:].replace("\n", " "),
            without.stdout[-150:].replace("\n", " ") if without.returncode else "")
    finally:
        shutil.rmtree(tmp)


def check(item, jobs=1):
    name, _, props = item.partition(":")
    meta = json.load(open(os.path.join(SEEDED, name, "meta.json")))
    tmp, repo = copy_repo()
    out = []
    try:
        got = sh("git apply {}".format(
            os.path.join(SEEDED, name, "patch.diff")), cwd=repo)
        if got.returncode:
            return name, "patch does not apply: " + got.stdout
        work = os.path.join(tmp, "verif")
        sh("git clone -q {} {}".format(ROOT, work))
        sh("cp -r {0}/vh {0}/run.sh {1}/".format(ROOT, work))
        for prop in (props or meta["property"]).split(","):
            env = dict(os.environ, VH_LAB_SRC=repo + "/src",
                       VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
            res = sh("bash {}/run.sh {}".format(work, prop), env=env)
            text = " ".join(line for line in res.stdout.splitlines()
                            if line.startswith(prop))[:230]
            out.append("{} {} {}".format(
                prop, {0: "MISSED", 1: "caught"}.get(res.returncode,
                                                     "ERROR"), text))
    finally:
        shutil.rmtree(tmp)
    return name, " || ".join(out)


def main():
    if sys.argv[1] == "make":
        space = {}
        exec(compile(open(sys.argv[2]).read(), sys.argv[2], "exec"), space)
        specs = [s for s in space["SPECS"]
                 if not sys.argv[3:] or s["id"] in sys.argv[3:]]
        with ThreadPoolExecutor(6) as pool:
            for name, text in pool.map(make, specs):
                print(name, text, flush=True)
    else:
        names = sys.argv[2:] or sorted(os.listdir(SEEDED))
        with ThreadPoolExecutor(2) as pool:
            for name, text in pool.map(check, names):
                print(name, text, flush=True)


main()
