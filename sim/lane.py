"""One lane of a check: runs its share of the seeds, each run in a forked process from the same pristine state."""
import argparse
import gc
import importlib
import json
import os
import select
import shutil
import signal
import sys
import time
import traceback

from sim import seams, sut
from sim.core import REPO_SRC, Ctx, HarnessError, Rng, Violation

HANG_S = 60


def get_world(prop):
    return importlib.import_module("sim.worlds." + prop.lower()).WORLD


def _from_repo(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO_SRC):
            return True
        tb = tb.tb_next
    return False


def execute_here(world, plan, scratch):
    scratch = os.path.abspath(scratch)
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)  # whatever is written under a relative path stays there
    ctx = Ctx(scratch)
    result = {"ok": True, "kind": None, "detail": None}
    try:
        seams.install_clock()
        seams.ambient(plan.get("ambient", 1))
        world.execute(plan, ctx)
    except Violation as v:
        result.update(ok=False, kind=v.kind, detail=v.detail)
    except HarnessError as err:
        result.update(ok=False, kind="HARNESS", detail="".join(traceback.format_exception(err))[-4000:])
    except BaseException as err:
        if _from_repo(err.__traceback__):
            result.update(ok=False, kind="unexpected-error", detail="%s: %s\n%s" % (type(err).__name__, err, "".join(traceback.format_tb(err.__traceback__))[-1500:]))
        else:
            result.update(ok=False, kind="HARNESS", detail="".join(traceback.format_exception(err))[-4000:])
    sys.settrace(None)
    result.update(
        digest=ctx.digest(), faults=dict(ctx.faults), probes=dict(ctx.probes), states=sorted(ctx.states), steps=ctx.steps,
        sim_time=ctx.sim_time, nontrivial=ctx.nontrivial, tail=list(ctx.log_tail)[-60:] if not result["ok"] else [],
    )
    if hasattr(ctx, "answer"):
        result["answer"] = ctx.answer
    return result


_devnull = None


def run_forked(world, make_plan, scratch, hang_s=HANG_S):
    """Generate and execute one plan in a forked process; returns the result dictionary (with the plan if it failed)."""
    global _devnull
    if _devnull is None:
        _devnull = os.open(os.devnull, os.O_WRONLY)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.dup2(_devnull, 1)
            try:
                plan = make_plan()
                result = execute_here(world, plan, scratch)
            except BaseException:
                result = {"ok": False, "kind": "HARNESS", "detail": traceback.format_exc()[-4000:]}
                plan = None
            if not result["ok"] or result.pop("want_plan", False):
                result["plan"] = plan
            data = json.dumps(result).encode()
            while data:
                data = data[os.write(w, data) :]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks, deadline = [], time.monotonic() + hang_s
    hung = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            hung = True
            os.kill(pid, signal.SIGKILL)
            break
        ready, _, _ = select.select([r], [], [], left)
        if ready:
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    if hung:
        return {"ok": False, "kind": "hang", "detail": "no end after %d s" % hang_s}
    try:
        return json.loads(b"".join(chunks))
    except ValueError:
        return {"ok": False, "kind": "process-died", "detail": "status %d" % status}


def run_plan(world, plan, scratch, hang_s=HANG_S):
    result = run_forked(world, lambda: plan, scratch, hang_s)
    return result


def make_plan(world, prop, seed, i, tier):
    rng = Rng(prop, seed, i)
    plan = world.generate(rng, tier, i)
    plan.setdefault("ambient", rng.randrange(2**32))
    plan["property"] = prop
    return plan


def prepare(world):
    sut.warm(world.warm)
    world.prepare()
    gc.collect()
    gc.freeze()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--lane", type=int, default=0)
    ap.add_argument("--lanes", type=int, default=8)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--runs", type=int, default=100)
    ap.add_argument("--deadline", type=float, default=600)
    ap.add_argument("--scratch", required=True)
    ap.add_argument("--out", required=True)
    ap.add_argument("--log", help="write the digest of every run here")
    a = ap.parse_args()
    t0 = time.monotonic()
    world = get_world(a.prop)
    prepare(world)
    agg = {"runs": 0, "faults": {}, "probes": {}, "steps": 0, "sim_time": 0.0, "violations": [], "samples": [], "early": False}
    sigs, nontrivial, states = set(), set(), set()
    log = open(a.log, "w") if a.log else None
    for i in range(a.start + a.lane, a.start + a.runs, a.lanes):
        if time.monotonic() - t0 > a.deadline:
            agg["early"] = True
            break
        scratch = os.path.join(a.scratch, "run%d" % i)
        result = run_forked(world, lambda: make_plan(world, a.prop, a.seed, i, a.tier), scratch)
        if not result["ok"] and result["kind"] in ("hang", "process-died"):
            plan = make_plan(world, a.prop, a.seed, i, a.tier)
            again = run_plan(world, plan, scratch, HANG_S * 1.5)
            again.setdefault("plan", plan)
            result = again
        agg["runs"] += 1
        if log:
            log.write("%d %s %s\n" % (i, result.get("digest"), result.get("kind")))
        if not result["ok"]:
            result["index"] = i
            agg["violations"].append({k: result.get(k) for k in ("kind", "detail", "plan", "index", "tail", "digest")})
            break
        for key in ("faults", "probes"):
            for k, v in result[key].items():
                agg[key][k] = agg[key].get(k, 0) + v
        agg["steps"] += result["steps"]
        agg["sim_time"] += result["sim_time"]
        sigs.add(result["digest"])
        if result["nontrivial"]:
            nontrivial.add(result["digest"])
        if len(states) < 400000:
            states.update(result["states"])
    agg.update(sigs=sorted(sigs), nontrivial=sorted(nontrivial), states=sorted(states), wall=time.monotonic() - t0)
    with open(a.out, "w") as f:
        json.dump(agg, f)


if __name__ == "__main__":
    main()
