"""undo each repair in a scratch clone and see which checks notice

usage: reverts.py COMMIT:PROP[,PROP...] ...   (results on stdout)
"""
import os
import shutil
import subprocess
import sys
import tempfile


def main():
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for item in sys.argv[1:]:
        commit, props = item.split(":")
        work = tempfile.mkdtemp(prefix="revert-")
        try:
            repo = os.path.join(work, "repo")
            subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
            done = subprocess.run(
                ["git", "-C", repo, "-c", "user.name=x", "-c",
                 "user.email=x@x", "revert", "-n", commit],
                capture_output=True, text=True)
            if done.returncode:
                print(item, "CONFLICT", flush=True)
                continue
            copy = os.path.join(work, "verif")
            shutil.copytree(verif, copy, ignore=shutil.ignore_patterns(
                ".git", "evidence", "replays", "seeded", "regress"))
            env = dict(os.environ, VH_LAB_SRC=os.path.join(repo, "src"),
                       VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
            for prop in props.split(","):
                run = subprocess.run(["bash", "run.sh", prop], cwd=copy,
                                     env=env, capture_output=True, text=True)
                lines = [l for l in run.stdout.splitlines() if l]
                print(commit, prop, {0: "MISSED", 1: "caught"}.get(
                    run.returncode, "ERROR"),
                      (lines[-2] if len(lines) > 1 else run.stderr[-200:])
                      [:150] if run.returncode else "", flush=True)
                keep = os.environ.get("KEEP")
                if keep and run.returncode == 1:
                    os.makedirs(keep, exist_ok=True)
                    for name in os.listdir(os.path.join(copy, "replays")):
                        if name.startswith(prop):
                            shutil.copy(os.path.join(copy, "replays", name),
                                        os.path.join(keep, commit + "-" +
                                                     name))
        finally:
            shutil.rmtree(work)


main()
