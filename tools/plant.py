"""plant.py [ID...]: builds /verif/seeded/<id>/ from tools/bugs_*.py, confirming in a
scratch copy that the patch applies, the suite passes and the demo tells the
two trees apart."""
import sys, os, subprocess, json, glob, importlib, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
sys.dont_write_bytecode = True
BUGS = []
for m in sorted(glob.glob(os.path.join(V, "tools", "bugs_*.py"))):
    BUGS += importlib.import_module(os.path.basename(m)[:-3]).BUGS

PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=300):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=env, timeout=timeout)


def main():
    want = sys.argv[1:]
    stable = json.load(open("/opt/vp/BASELINE.json"))
    for b in BUGS:
        if want and b["id"] not in want:
            continue
        d = os.path.join(V, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="plant_")
        try:
            r = os.path.join(tmp, "repo")
            subprocess.check_call(["cp", "-a", "/repo", r])
            sh("git checkout -q -- . ", r)
            for path, old, new in b["edits"]:
                p = os.path.join(r, path)
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], path, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = sh("git diff", r).stdout
            # the removed lines must be the original repository's
            base = {}
            for path, old, new in b["edits"]:
                base[path] = sh("git show cecf78e:" + path, r).stdout.splitlines()
            cur = None
            for line in diff.splitlines():
                if line.startswith("--- a/"):
                    cur = line[6:]
                elif line.startswith("-") and not line.startswith("---"):
                    if line[1:] not in base[cur]:
                        print("  WARNING", b["id"], "changes a line not in the base:", line)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            with open(os.path.join(d, "demo.py"), "w") as f:
                f.write(b["demo"])
            with open(os.path.join(d, "demo.sh"), "w") as f:
                f.write('#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" timeout 250 /opt/venv/bin/python "$D/demo.py"\n')
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            a = sh("bash " + os.path.join(d, "demo.sh"), "/repo")
            c = sh("bash " + os.path.join(d, "demo.sh"), r)
            t = sh(PY + " -m pytest -q -x -p no:cacheprovider mandala/tests 2>&1 | tail -3", r, env={**os.environ, "PYTHONPATH": r})
            ok = a.returncode == 0 and c.returncode != 0
            print(b["id"], b["property"], "demo clean:", a.returncode, "bug:", c.returncode, "|", (a.stderr or "").strip()[-300:] if a.returncode else "", "| bug says:",
                  (c.stderr or c.stdout).strip().splitlines()[-1:] , "| tests:", t.stdout.strip().splitlines()[-1:])
            if not ok:
                print("   NOT CONFIRMED")
        finally:
            shutil.rmtree(tmp)


main()
