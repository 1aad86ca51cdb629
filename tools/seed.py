"""Plants a bug: seed.py SPEC.py

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, DEMO (text of demo.py) and PAIRS = [(anchor, old, new), ...]: the first occurrence of old after
the first occurrence of anchor in salabim.py is replaced. Verifies in a scratch copy that the existing tests pass, and that the demo
fails with and passes without the change; then runs the check of the property (quick) against the scratch copy and reports.
"""
import json, os, shutil, subprocess, sys, tempfile
from pathlib import Path

PY = "/opt/venv/bin/python"
VERIF = Path(__file__).resolve().parent.parent


def apply(path, pairs):
    s = open(path, newline="").read()
    crlf = "\r\n" in s
    for anchor, old, new in pairs:
        if crlf:
            anchor, old, new = (t.replace("\n", "\r\n") for t in (anchor, old, new))
        i = s.find(anchor)
        if i < 0:
            sys.exit("anchor not found: " + anchor)
        j = s.find(old, i)
        if j < 0:
            sys.exit("text not found: " + old)
        s = s[:j] + new + s[j + len(old):]
    open(path, "w", newline="").write(s)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    sc = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        repo = sc + "/repo"
        os.mkdir(repo)
        for d in ("salabim", "tests"):
            shutil.copytree("/repo/" + d, repo + "/" + d)
        git = lambda *a: subprocess.check_output(["git", "-C", repo, "-c", "user.name=x", "-c", "user.email=x", "-c", "core.autocrlf=false", *a])
        git("init", "-q")
        git("add", "-A")
        git("commit", "-qm", "x")
        apply(repo + "/salabim/salabim.py", ns["PAIRS"])
        diff = git("diff")
        if not diff:
            sys.exit("no change")
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=repo, PYTHONUTF8="1", PYTHONHASHSEED="0")
        r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=repo, env=env, capture_output=True, text=True)
        print("tests:", r.stdout.strip().splitlines()[-1])
        if r.returncode:
            print("\n".join(r.stdout.splitlines()[-8:]))
            sys.exit("TESTS FAIL with the change")
        d = Path(sc) / "demo"
        d.mkdir()
        (d / "demo.py").write_text(ns["DEMO"].lstrip("\n"))
        (d / "demo.sh").write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        denv = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
        a = subprocess.run(["bash", str(d / "demo.sh")], cwd="/repo", env=denv, capture_output=True, text=True)
        b = subprocess.run(["bash", str(d / "demo.sh")], cwd=repo, env=denv, capture_output=True, text=True)
        print("demo unchanged:", a.returncode, "changed:", b.returncode)
        if a.returncode or not b.returncode:
            print(a.stdout[-800:], a.stderr[-800:], b.stdout[-800:], b.stderr[-800:])
            sys.exit("DEMO not ok")
        print("  changed says:", (b.stdout + b.stderr).strip().splitlines()[-1:])
        out = VERIF / "seeded" / ns["ID"]
        out.mkdir(parents=True, exist_ok=True)
        (out / "patch.diff").write_bytes(diff)
        shutil.copy(d / "demo.py", out)
        shutil.copy(d / "demo.sh", out)
        (out / "meta.json").write_text(json.dumps(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), indent=1) + "\n")
        for p in [ns["PROPERTY"]] + ns.get("ALSO", []):
            c = subprocess.run([PY, str(VERIF / "check.py"), p, "quick"], cwd=VERIF, env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1"), capture_output=True, text=True)
            print(p, "check:", c.returncode, "CAUGHT" if c.returncode == 1 else "MISSED", c.stdout.strip().splitlines()[-1:][0][:300] if c.stdout.strip() else "")
    finally:
        shutil.rmtree(sc)


main()
