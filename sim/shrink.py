"""Minimises a failing plan: drops operations and faults, then simplifies arguments, while the violation class persists."""
import copy
import json
import os
import sys
import time

from sim import lane


def fails(world, plan, kind, scratch):
    result = lane.run_plan(world, plan, scratch, hang_s=30 if kind != "hang" else 60)
    return (not result["ok"]) and result["kind"] == kind, result


def shrink(world, plan, kind, scratch, budget_s=60.0, max_tries=600):
    end = time.monotonic() + budget_s
    best = copy.deepcopy(plan)
    tries = 0
    if kind == "hang":
        return best, tries

    def test(candidate):
        nonlocal tries, best
        if time.monotonic() > end or tries >= max_tries:
            return False
        tries += 1
        ok, _ = fails(world, candidate, kind, scratch)
        if ok:
            best = candidate
        return ok

    changed = True
    while changed and time.monotonic() < end and tries < max_tries:
        changed = False
        for key in world.shrink_lists:
            if not isinstance(best.get(key), list):
                continue
            n = max(1, len(best[key]) // 2)
            while n >= 1:
                pos = 0
                while pos < len(best[key]):
                    candidate = copy.deepcopy(best)
                    del candidate[key][pos : pos + n]
                    if test(candidate):
                        changed = True
                    else:
                        pos += n
                    if time.monotonic() > end or tries >= max_tries:
                        break
                if n == 1:
                    break
                n //= 2
        for candidate in world.simplify(copy.deepcopy(best)):
            if test(candidate):
                changed = True
                break
    return best, tries


def main():
    source, target, scratch = sys.argv[1:4]
    with open(source) as f:
        data = json.load(f)
    world = lane.get_world(data["property"])
    lane.prepare(world)
    for _ in range(5):
        ok, result = fails(world, data["plan"], data["kind"], scratch)
        if ok:
            break
    if not ok:
        data["reproduced"] = False
        data["got"] = {k: result.get(k) for k in ("ok", "kind", "detail")}
    else:
        best, tries = shrink(world, data["plan"], data["kind"], scratch)
        ok, result = fails(world, best, data["kind"], scratch)
        if not ok:
            best = data["plan"]
            ok, result = fails(world, best, data["kind"], scratch)
        data.update(plan=best, tries=tries, reproduced=ok, detail=result.get("detail"), digest=result.get("digest"), tail=result.get("tail"))
    with open(target, "w") as f:
        json.dump(data, f, indent=1)


if __name__ == "__main__":
    main()
