"""Compares the answers of fresh interpreters with different string hashing, for plans of a world that has `answer`."""
import copy
import json
import os
import subprocess
import sys
import threading

from sim import lane
from sim.core import short_hash


class Server:
    def __init__(self, prop, hashseed, scratch):
        from sim.runner import VERIF, child_env

        self.hashseed = hashseed
        os.makedirs(scratch, exist_ok=True)
        self.proc = subprocess.Popen([sys.executable, "-m", "sim.hashserver", prop, scratch], env=child_env(hashseed), cwd=VERIF, stdin=subprocess.PIPE,
                                     stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)

    def send(self, plan):
        self.proc.stdin.write(json.dumps(plan) + "\n")
        self.proc.stdin.flush()

    def recv(self):
        line = self.proc.stdout.readline()
        if not line:
            raise RuntimeError("hash server died")
        return json.loads(line)

    def ask(self, plan):
        self.send(plan)
        return self.recv()

    def close(self):
        try:
            self.proc.stdin.close()
            self.proc.wait(timeout=20)
        except (OSError, subprocess.TimeoutExpired):
            self.proc.kill()


def _differs(a, b):
    if a["kind"] == "HARNESS" or b["kind"] == "HARNESS":
        raise RuntimeError("harness error: %s %s" % (a["detail"], b["detail"]))
    return (a["ok"], a["kind"], a["answer"]) != (b["ok"], b["kind"], b["answer"])


def _detail(plan, a, b, h1, h2):
    return "the same call gives another result in another process: with PYTHONHASHSEED=%s %s, with PYTHONHASHSEED=%s %s" % (
        h1, json.dumps(a["answer"] or a["detail"])[:700], h2, json.dumps(b["answer"] or b["detail"])[:700])


def run(runner, count):
    """Phase of a check: `count` plans, each answered under two hash seeds. Returns (violations, coverage)."""
    world, pairs = runner.world, 4
    found, errors, done = [], [], [0] * pairs
    distinct = set()
    lock = threading.Lock()

    def shard(s):
        servers = [Server(runner.prop, h, os.path.join(runner.scratch, "hs%d" % h)) for h in (1001 + s, 500000 + 7 * s)]
        try:
            for i in range(s, count, pairs):
                if found or errors:
                    break
                plan = lane.make_plan(world, runner.prop, (runner.seed, "hash"), i, runner.tier)
                for srv in servers:
                    srv.send(plan)
                a, b = servers[0].recv(), servers[1].recv()
                done[s] += 1
                with lock:
                    distinct.add(short_hash(a["answer"]))
                if _differs(a, b):
                    plan, a, b = _shrink(world, plan, servers, a, b)
                    with lock:
                        found.append({"property": runner.prop, "phase": "hash", "kind": "hash-dependent", "detail": _detail(plan, a, b, *[x.hashseed for x in servers]),
                                      "seed": runner.seed, "index": "hash%d" % i, "hashseeds": [x.hashseed for x in servers], "plan": plan})
        except Exception as err:
            errors.append("hash phase: %r" % (err,))
        finally:
            for srv in servers:
                srv.close()

    threads = [threading.Thread(target=shard, args=(s,)) for s in range(pairs)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    runner.errors += errors
    return found[:1], {"hash_phase": {"plans": sum(done), "hash_seeds": 2 * pairs, "distinct_answers": len(distinct)}}


def _shrink(world, plan, servers, a, b):
    best, tries = (plan, a, b), 0
    changed = True
    while changed and tries < 150:
        changed = False
        for candidate in world.simplify(copy.deepcopy(best[0])):
            tries += 1
            x, y = (srv.ask(candidate) for srv in servers)
            if _differs(x, y):
                best, changed = (candidate, x, y), True
                break
            if tries >= 150:
                break
    return best


def replay(data, scratch):
    servers = [Server(data["property"], h, os.path.join(scratch, "hs%d" % h)) for h in data["hashseeds"]]
    try:
        a, b = (srv.ask(data["plan"]) for srv in servers)
    finally:
        for srv in servers:
            srv.close()
    return _differs(a, b), _detail(data["plan"], a, b, *data["hashseeds"])
