"""Replays one file in this (fresh) process and reports whether the same violation happens again."""
import json
import os
import shutil
import subprocess
import sys
import tempfile


def main():
    path = sys.argv[1]
    with open(path) as f:
        data = json.load(f)
    from sim import lane
    from sim.runner import child_env

    if data.get("phase") == "hash":
        from sim import hashphase

        scratch = tempfile.mkdtemp(prefix="icsim-replay-")
        try:
            differs, detail = hashphase.replay(data, scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        print("plan:", json.dumps(data["plan"])[:4000])
        print(data["kind"], detail)
        print("identical detail" if detail == data["detail"] else "DIFFERENT detail")
        if differs:
            print("VIOLATION property=%s replay=%s" % (data["property"], path))
        return 1 if differs else 0
    if os.environ.get("PYTHONHASHSEED") != str(data["hashseed"]):
        return subprocess.call([sys.executable, "-m", "sim.replay"] + sys.argv[1:], env=child_env(data["hashseed"]))
    world = lane.get_world(data["property"])
    lane.prepare(world)
    scratch = tempfile.mkdtemp(prefix="icsim-replay-")
    try:
        result = lane.run_plan(world, data["plan"], os.path.join(scratch, "run"))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if len(sys.argv) > 2:
        with open(sys.argv[2], "w") as f:
            json.dump(result, f)
    for line in result.get("tail", []):
        print("  ", line)
    print("plan:", json.dumps(data["plan"])[:4000])
    if result["ok"]:
        print("no violation")
        return 0
    print("%s\n%s" % (result["kind"], result["detail"]))
    same = result["kind"] == data["kind"] and result.get("digest") == data.get("digest")
    print("identical event log" if same else "DIFFERENT event log")
    if result["kind"] == "HARNESS":
        return 2
    print("VIOLATION property=%s replay=%s" % (data["property"], path))
    return 1


if __name__ == "__main__":
    sys.exit(main())
