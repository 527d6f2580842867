"""Runs the check of one property: several lanes of seeded simulated runs, minimisation, evidence, verdict."""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

from sim import lane
from sim.core import REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LANES = 8  # fixed: the hash seed of a run depends on its lane, not on the machine


def hash_seed(index):
    return 1 + 7919 * (index % LANES)


def child_env(hashseed):
    env = dict(os.environ)
    env.update(
        PYTHONHASHSEED=str(hashseed), PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1", LC_ALL="C.UTF-8", PYTHONUTF8="1", PYTHONWARNINGS="ignore", JOBLIB_MULTIPROCESSING="0",
    )
    env.pop("PYTHONSTARTUP", None)
    return env


class Runner:
    def __init__(self, prop, tier, seed, runs=None, deadline=None, lanes=LANES, start=0):
        self.prop, self.tier, self.seed, self.start = prop, tier, seed, start
        self.world = lane.get_world(prop)
        self.runs = runs or (self.world.quick_runs if tier == "quick" else self.world.thorough_runs)
        self.deadline = deadline or (480 if tier == "quick" else 6 * 3600)
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        self.scratch = tempfile.mkdtemp(prefix="icsim-%s-" % prop, dir=base)
        self.t0 = time.time()
        self.errors = []

    def log(self, text):
        print(text, flush=True)

    def spawn(self, module, args, hashseed, **kw):
        return subprocess.Popen([sys.executable, "-m", module] + args, env=child_env(hashseed), cwd=VERIF, **kw)

    def run_lanes(self):
        procs = []
        for k in range(LANES):
            out = os.path.join(self.scratch, "lane%d.json" % k)
            err = open(os.path.join(self.scratch, "lane%d.err" % k), "w")
            args = [self.prop, "--tier", self.tier, "--seed", str(self.seed), "--lane", str(k), "--lanes", str(LANES), "--start", str(self.start),
                    "--runs", str(self.runs), "--deadline", str(self.deadline), "--scratch", os.path.join(self.scratch, "s%d" % k), "--out", out]
            procs.append((k, out, err, self.spawn("sim.lane", args, hash_seed(k), stdout=err, stderr=err)))
        lanes, pending = {}, {k for k, *_ in procs}
        grace = None
        while pending:
            time.sleep(0.05)
            for k, out, err, proc in procs:
                if k in pending and proc.poll() is not None:
                    pending.discard(k)
                    err.close()
                    if proc.returncode == 0 and os.path.exists(out):
                        with open(out) as f:
                            lanes[k] = json.load(f)
                        if lanes[k]["violations"] and grace is None:
                            grace = time.time() + 3
                    elif grace is None:
                        with open(os.path.join(self.scratch, "lane%d.err" % k)) as f:
                            self.errors.append("lane %d exited with %s: %s" % (k, proc.returncode, f.read()[-3000:]))
                            grace = time.time() + 3
            if grace is not None and time.time() > grace:
                for k, _, err, proc in procs:
                    if k in pending:
                        proc.kill()
                        proc.wait()
                pending = set()
        return lanes

    def minimise(self, violation):
        src = os.path.join(self.scratch, "violation.json")
        dst = os.path.join(self.scratch, "minimal.json")
        index = violation["index"]
        data = {"property": self.prop, "kind": violation["kind"], "detail": violation["detail"], "seed": self.seed, "index": index, "tier": self.tier,
                "hashseed": hash_seed(index), "plan": violation["plan"]}
        with open(src, "w") as f:
            json.dump(data, f)
        proc = self.spawn("sim.shrink", [src, dst, os.path.join(self.scratch, "shrink")], data["hashseed"])
        try:
            proc.wait(timeout=400)
        except subprocess.TimeoutExpired:
            proc.kill()
            proc.wait()
        if os.path.exists(dst):
            with open(dst) as f:
                return json.load(f)
        data["reproduced"] = violation["kind"] == "hang"
        return data

    def save_replay(self, data):
        folder = os.path.join(VERIF, "replays")
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, "%s-seed%s-run%s.json" % (self.prop, data["seed"], data["index"]))
        with open(path, "w") as f:
            json.dump(data, f, indent=1)
        return path

    def evidence(self, lanes, violations, extra):
        wall = time.time() - self.t0
        faults, probes = {}, {}
        sigs, nontrivial, states = set(), set(), set()
        runs = steps = 0
        sim_time = 0.0
        for a in lanes.values():
            runs += a["runs"]
            steps += a["steps"]
            sim_time += a["sim_time"]
            for name, table in (("faults", faults), ("probes", probes)):
                for k, v in a[name].items():
                    table[k] = table.get(k, 0) + v
            sigs.update(a["sigs"])
            nontrivial.update(a["nontrivial"])
            states.update(a["states"])
        w = self.world
        samples = []
        for i in range(self.start, self.start + 3):
            text = json.dumps(lane.make_plan(w, self.prop, self.seed, i, self.tier))
            samples.append({"run": i, "plan": text if len(text) < 1500 else text[:1500] + "..."})
        coverage = {
            "evaluations": runs, "distinct_nontrivial": len(nontrivial), "rule": w.rule, "samples": samples,
            "runs_per_hour": int(runs / wall * 3600) if wall else 0, "seeds_per_hour": int(runs / wall * 3600) if wall else 0,
            "simulated_events": steps, "simulated_time_s": round(sim_time, 3),
            "distinct_interleavings": len(sigs), "interleaving_measure": "distinct digests of the full event log of a run (operations, deliveries, switches, faults and outcomes)",
            "distinct_states": len(states), "state_measure": "distinct canonical summaries of the session state reached (component sizes and cannot-link degrees, or results), hashed; at most 400 counted per run",
            "faults_fired": dict(sorted(faults.items())), "probes": dict(sorted(probes.items())),
            "probes_never_hit": [p for p in w.probes_wanted if not probes.get(p)],
            "real_components": list(w.real), "stubbed_components": list(w.stub),
            "stopped_early": any(a["early"] for a in lanes.values()), "repository": REPO, "lanes": LANES,
        }
        coverage.update(extra)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration", "coverage": coverage,
                       "assumptions": list(w.assumptions), "wall_s": round(wall, 2), "violations": violations}, f, indent=1)
        return coverage

    def known(self):
        """Replays the findings listed for this property: (notes of those that still fail, other violations met)."""
        notes, other = [], []
        path = os.path.join(VERIF, "known_findings.txt")
        lines = open(path).read().splitlines() if os.path.exists(path) else []
        for line in lines:
            m = re.match(r"known: property=(\S+) kind=(\S+) replay=(\S+) # (.*)$", line.strip())
            if not m or m.group(1) != self.prop:
                continue
            with open(os.path.join(VERIF, m.group(3))) as f:
                data = json.load(f)
            src, dst = os.path.join(self.scratch, "known.json"), os.path.join(self.scratch, "known-out.json")
            with open(src, "w") as f:
                json.dump(data, f)
            self.spawn("sim.replay", [src, dst], data["hashseed"], stdout=subprocess.DEVNULL).wait(timeout=300)
            with open(dst) as f:
                result = json.load(f)
            if result["ok"]:
                continue
            if result["kind"] == m.group(2):
                notes.append(m.group(4))
            elif result["kind"] == "HARNESS":
                self.errors.append("known finding %s: %s" % (m.group(3), result["detail"]))
            else:
                other.append(dict(data, kind=result["kind"], detail=result["detail"], digest=result.get("digest"), reproduced=True))
        return notes, other

    def main(self):
        try:
            return self._main()
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)

    def _main(self):
        self.log("check %s tier=%s VERIF_SEED=%d runs=%d repo=%s" % (self.prop, self.tier, self.seed, self.runs, REPO))
        lanes = self.run_lanes()
        found = sorted((v for a in lanes.values() for v in a["violations"]), key=lambda v: v["index"])
        harness = [v for v in found if v["kind"] == "HARNESS"]
        found = [v for v in found if v["kind"] != "HARNESS"]
        extra_violations, extra = ([], {})
        if not found and not harness and not self.errors:
            extra_violations, extra = self.world.extra_phase(self) or ([], {})
        verdicts = []
        for v in found[:8]:
            data = self.minimise(v)
            if data.get("reproduced"):
                verdicts.append((self.save_replay(data), data))
                break
            # A violation that does not replay means a source of nondeterminism escaped the seams: an error of the check.
            self.errors.append("violation of run %s did not replay: %s %s" % (v["index"], v["kind"], v["detail"]))
        notes, other = self.known()
        for note in notes:
            self.log("KNOWN-FINDING: property=%s %s" % (self.prop, note))
        extra["known_findings"] = notes
        extra_violations = extra_violations + other
        for data in extra_violations:
            verdicts.append((self.save_replay(data), data))
        cov = self.evidence(lanes, len(verdicts), extra)
        self.log("%d runs (%d distinct, %d non-trivial, %d states), %d events, %d faults fired of %d kinds, %.1f s" % (
            cov["evaluations"], cov["distinct_interleavings"], cov["distinct_nontrivial"], cov["distinct_states"], cov["simulated_events"],
            sum(cov["faults_fired"].values()), len(cov["faults_fired"]), time.time() - self.t0))
        if cov["probes_never_hit"]:
            self.log("probes never hit: " + ", ".join(cov["probes_never_hit"]))
        if verdicts:
            for path, data in verdicts:
                self.log("%s\n%s" % (data["kind"], data["detail"]))
                self.log("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        for v in harness[:2]:
            self.log("HARNESS ERROR run %s: %s" % (v["index"], str(v["detail"])[-1500:]))
        for e in self.errors:
            self.log("ERROR " + e)
        return 2 if harness or self.errors else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--deadline", type=float)
    a = ap.parse_args()
    sys.exit(Runner(a.prop, "thorough" if a.tier == "thorough" else "quick", a.seed, a.runs, a.deadline, start=a.start).main())


if __name__ == "__main__":
    main()
