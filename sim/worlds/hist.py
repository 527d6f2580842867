"""Histories of one or several annotation sessions in a process, with saves, crashes and restarts."""
from sim import gen, sut
from sim.core import Violation, attempt, ensure, must, short_hash
from sim.model import Ref
from sim.worlds.base import World

UNKNOWN = "no such id"


def generate(rng, tier, max_sessions=2, lengths=(4, 45), restarts=True, small=(2, 9), big=(12, 26), p_big=0.05, weights=None):
    sessions, streams = [], []
    for _ in range(1 if rng.chance(0.6) else rng.randint(2, max_sessions) if max_sessions > 1 else 1):
        n = gen.size(rng, small, big, p_big)
        pool = gen.id_pool(rng, n + rng.randint(1, 4))
        first = pool[: 0 if rng.chance(0.03) else rng.randint(max(1, n // 2), n)]
        ref = Ref(first)
        length = rng.randint(*lengths)
        if n > 12:
            length = rng.randint(n, 3 * n)
        ops = gen.history(rng, ref, length, pool, weights=weights, unknown=UNKNOWN)
        if restarts and rng.chance(0.5):
            for _k in range(rng.randint(1, 4)):
                ops.insert(rng.randint(0, len(ops)), [rng.weighted([("save", 3), ("crash", 1), ("restart", 3)])])
        sessions.append({"ids": first})
        streams.append(ops)
    merged = []
    cursors = [0] * len(streams)
    while True:
        live = [s for s in range(len(streams)) if cursors[s] < len(streams[s])]
        if not live:
            break
        s = rng.choice(live)
        for _ in range(rng.randint(1, 4)):
            if cursors[s] < len(streams[s]):
                merged.append([s] + streams[s][cursors[s]])
                cursors[s] += 1
    # Some runs look at the manager after every operation, others seldom (so that operations follow each other without a question in between).
    return {"sessions": sessions, "ops": merged, "seldom": rng.choice([0, 0, 2, 5, 1000])}


class Session:
    def __init__(self, ids, ctx, k):
        self.m = must("creating a manager", sut.new_manager, ids)
        self.ref = Ref(ids)
        self.path = ctx.path("session%d.json" % k)
        self.saved = None


class HistoryWorld(World):
    real = ("BinaryConstraintsManager, its factory and JSON persistence, with networkx (real code, real scratch files)",)
    stub = ("process entropy and global random generators (seeded by the plan)", "process crash (the in-memory manager is dropped, the last save is loaded)")
    probes_wanted = ("refused", "merge", "delete", "rmid", "restart", "crash")
    assumptions = ("data identifiers are strings", "one thread mutates a manager at a time",)

    def execute(self, plan, ctx):
        sessions = [Session(s["ids"], ctx, k) for k, s in enumerate(plan["sessions"])]
        for s in sessions:
            self.check(s, ctx, "after creation", None)
        for step, (k, *op) in enumerate(plan["ops"]):
            s = sessions[k]
            where = "step %d, session %d, %r" % (step, k, op)
            if op[0] == "save":
                must(where, s.m.to_json, s.path)
                s.saved = s.ref.copy()
            elif op[0] in ("restart", "crash"):
                if op[0] == "restart":
                    must(where, s.m.to_json, s.path)
                    s.saved = s.ref.copy()
                elif s.saved is None:
                    continue
                ctx.fault("process-crash" if op[0] == "crash" else "process-restart")
                ctx.probe(op[0])
                s.m = must(where, sut.load, s.path)
                s.ref = s.saved.copy()
            else:
                self.operation(s, op, ctx, where, self.looks(plan, step))
            ctx.event(k, op)
            if self.looks(plan, step):
                self.check(s, ctx, where, op)
            if len(s.ref.ids) <= 14:
                ctx.state(s.ref.shape())
        for s in sessions:
            self.check(s, ctx, "at the end", None, final=True)
        self.finish(sessions, ctx)

    def looks(self, plan, step):
        n = plan.get("seldom", 0)
        return not n or short_hash([n, step]) % n == 0

    def operation(self, s, op, ctx, where, look=True):
        before = s.ref.copy()
        accepted = gen.apply_ref(s.ref, op)
        tag, value = attempt(gen.call_manager, s.m, op)
        if not accepted:
            ctx.probe("refused")
        if op[0] == "del" and len(before.cons) != len(s.ref.cons):
            ctx.probe("delete")
        if op[0] == "rmid" and accepted:
            ctx.probe("rmid")
        if op[0] == "add" and len(before.closure()[1]) > len(s.ref.closure()[1]):
            ctx.probe("merge")
        if len(s.ref.cons) >= 2:
            ctx.nontrivial = True
        if tag == "ok" and not accepted:
            raise Violation("wrongly-accepted", "%s was accepted" % where)
        if tag == "err" and accepted:
            raise Violation("wrongly-refused", "%s raised %s: %s" % (where, type(value).__name__, value))
        self.outcome(s, op, tag, value, ctx, where)

    def outcome(self, s, op, tag, value, ctx, where):
        pass

    def check(self, s, ctx, where, op, final=False):
        pass

    def finish(self, sessions, ctx):
        pass

    def simplify(self, plan):
        # fewer identifiers: drop data that no remaining operation names
        used = {x for _, *op in plan["ops"] for x in op[1:] if isinstance(x, str)}
        for s in plan["sessions"]:
            small = [x for x in s["ids"] if x in used]
            if small != s["ids"]:
                old = s["ids"]
                s["ids"] = small
                yield plan
                s["ids"] = old
        if plan.get("seldom"):
            yield dict(plan, seldom=0)
        for k in range(len(plan["ops"])):
            if len(plan["ops"][k]) == 6:
                cut = dict(plan, ops=[list(o) for o in plan["ops"]])
                cut["ops"][k] = cut["ops"][k][:5]
                yield cut
