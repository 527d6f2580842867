"""Runs the same seeds several times, with other worker counts and another hash seed, and compares the event digest of every run.
usage: determinism.py [--runs N] [--seed N] [C01 ...]"""
import argparse
import os
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from sim.runner import child_env  # noqa: E402


def digests(prop, seed, runs, lanes, hashseed, shift):
    with tempfile.TemporaryDirectory(prefix="icsim-det-", dir="/dev/shm") as tmp:
        procs = []
        for k in range(lanes):
            args = [prop, "--seed", str(seed), "--lane", str(k), "--lanes", str(lanes), "--runs", str(runs), "--scratch", "%s/%ss%d" % (tmp, "x" * shift, k), "--out", "%s/o%d" % (tmp, k),
                    "--log", "%s/l%d" % (tmp, k)]
            procs.append(subprocess.Popen([sys.executable, "-m", "sim.lane"] + args, env=child_env(hashseed), cwd=VERIF))
        assert all(p.wait() == 0 for p in procs)
        return dict(line.split(" ", 1) for k in range(lanes) for line in open("%s/l%d" % (tmp, k)).read().splitlines())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("props", nargs="*")
    ap.add_argument("--runs", type=int, default=400)
    ap.add_argument("--seed", type=int, default=1)
    a = ap.parse_args()
    bad = 0
    for prop in a.props or ["C%02d" % k for k in range(1, 21)]:
        base = digests(prop, a.seed, a.runs, 8, 1, 0)
        line = []
        for lanes, hashseed, shift in ((8, 1, 7), (3, 1, 0), (5, 98765, 3)):
            other = digests(prop, a.seed, a.runs, lanes, hashseed, shift)
            diff = sorted((i for i in base if base[i] != other.get(i)), key=int)
            line.append("%d workers, hash seed %d: %d differ %s" % (lanes, hashseed, len(diff), diff[:5]))
            bad += bool(diff) and hashseed == 1
        print(prop, len(base), "runs;", "; ".join(line), flush=True)
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
