"""Validates planted bugs (tests pass, demo tells) in a scratch copy and runs checks against them. usage: try_bugs.py [--all-checks] [--no-check] ID..."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.environ.get("SEEDED", os.path.join(VERIF, "seeded"))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def tests(repo):
    out = os.path.join(repo, "junit.xml")
    subprocess.run([PY, "-m", "pytest", "-c", "config/pytest.ini", "--rootdir=" + repo, "-q", "-p", "no:cacheprovider", "-p", "no:randomly", "--no-cov", "--timeout=300",
                    "-o", "junit_family=xunit2", "--junitxml=" + out, "tests"], cwd=repo, env=dict(ENV, PYTHONPATH=repo + "/src"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    import xml.etree.ElementTree as ET
    bad = set()
    for c in ET.parse(out).getroot().iter("testcase"):
        if any(x.tag in ("failure", "error", "skipped") for x in c):
            bad.add(c.get("classname") + "::" + c.get("name"))
    return sorted(bad & STABLE)


def demo(repo, folder):
    # The demo runs with cwd /repo; here the copy stands for it.
    return subprocess.run(["bash", os.path.join(folder, "demo.sh")], cwd=repo, env=dict(os.environ), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)


def check(repo, prop):
    p = subprocess.run([os.path.join(VERIF, "check"), prop, "--tier", "quick"], env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    props = ["C%02d" % k for k in range(1, 21)]
    for bug in args or sorted(os.listdir(SEEDED)):
        folder = os.path.join(SEEDED, bug)
        meta = json.load(open(os.path.join(folder, "meta.json")))
        tmp = tempfile.mkdtemp(prefix="bug-")
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        try:
            d0 = demo(repo, folder)
            r = subprocess.run(["git", "apply", os.path.join(folder, "patch.diff")], cwd=repo, capture_output=True, text=True)
            if r.returncode:
                print(bug, "PATCH FAILS", r.stderr, flush=True)
                continue
            d1 = demo(repo, folder)
            line = [bug, meta["property"], "demo %d->%d" % (d0.returncode, d1.returncode)]
            if d0.returncode:
                line.append("DEMO BAD: " + d0.stdout.decode()[-800:])
            elif "--show" in sys.argv:
                line.append(d1.stdout.decode()[-600:])
            if "--no-tests" not in sys.argv:
                line.append("tests broken %r" % tests(repo)[:6])
            print(*line, flush=True)
            if "--no-check" in sys.argv:
                continue
            for prop in props if "--all-checks" in sys.argv else [meta["property"]]:
                rc, out = check(repo, prop)
                v = [x for x in out.splitlines() if x.startswith(("VIOLATION", "ERROR", "HARNESS"))]
                lines = out.splitlines()
                k = lines.index(v[0]) if v else 0
                print("   ", bug, prop, "exit", rc, (lines[k - 1][:300] if v and k else ""), v[:1] if rc != 1 else "", [x for x in lines if " runs (" in x], flush=True)
        finally:
            shutil.rmtree(tmp)


if __name__ == "__main__":
    main()
