"""Writes seeded/<id>/ from a Python spec: make_bug.py SPEC.py, where SPEC.py calls bug(id, property, file, [(old, new)...], demo, needs, breaks)."""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "src/cognitivefactory/interactive_clustering/"
SH = '''#!/bin/bash
# Exit 0: the property holds on this demonstration; non-zero: it is broken. Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def bug(name, prop, edits, demo, needs, breaks, sh=SH):
    if isinstance(edits, tuple):
        edits = [edits]
    files = {}
    for path, old, new in edits:
        full = os.path.join("/repo", PKG + path)
        text = files.get(full) or open(full, newline="").read()
        crlf = "\r\n" in text
        if crlf:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if text.count(old) != 1:
            raise SystemExit("%s: %d matches of %r in %s" % (name, text.count(old), old, path))
        files[full] = text.replace(old, new)
    diff = ""
    try:
        for full, text in files.items():
            open(full, "w", newline="").write(text)
        diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    folder = os.path.join(os.environ.get("SEEDED", os.path.join(VERIF, "seeded")), name)
    os.makedirs(folder, exist_ok=True)
    open(os.path.join(folder, "patch.diff"), "wb").write(diff)
    open(os.path.join(folder, "demo.sh"), "w").write(sh)
    open(os.path.join(folder, "demo.py"), "w").write(demo.lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(folder, "meta.json"), "w"), indent=1)


if __name__ == "__main__":
    for spec in sys.argv[1:]:
        exec(compile(open(spec).read(), spec, "exec"), {"bug": bug})
