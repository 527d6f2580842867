import heapq

from sim import gen, sut
from sim.core import Violation, attempt, ensure, must, short_hash
from sim.model import CL, ML, Ref, check_core, first_difference, views
from sim.worlds.base import World


class C04(World):
    quick_runs = 14000
    thorough_runs = 560000
    shrink_lists = ("events",)
    rule = ("a run simulates 2-3 replicas of a session receiving one consistent annotation set over lossy, reordering, duplicating and partitioned networks with retrying "
            "senders (discrete-event time), and crashing replicas that restart from their last save; non-trivial: two replicas applied at least three annotations in different orders")
    real = ("BinaryConstraintsManager, its factory and JSON persistence (one real instance per replica)",)
    stub = ("network between annotators and replicas (simulated in discrete-event time)", "process crash (in-memory manager dropped, last save loaded)")
    probes_wanted = ("duplicate", "reordered", "crash", "lost", "partition", "flipped")
    assumptions = ("the annotation set is consistent (drawn from a ground truth)", "replicas acknowledge an annotation once it is in their save")

    def generate(self, rng, tier, i):
        n = gen.size(rng, (2, 8), (10, 18), 0.06, 0)
        ids = gen.id_pool(rng, n)
        k = rng.randint(1, max(1, min(n, 5)))
        truth = {x: rng.randrange(k) for x in ids}
        pairs = [(a, b) for a in ids for b in ids if a != b and ids.index(a) < ids.index(b)]
        rng.shuffle(pairs)
        pairs = pairs[: rng.randint(1, max(1, min(len(pairs), rng.choice([4, 10, 30]))))]
        notes = [[a, b, ML if truth[a] == truth[b] else CL] for a, b in pairs]
        events, sim_end = [], 0.0
        net = {"drop": rng.choice([0, 0.1, 0.3, 0.5]), "dup": rng.choice([0, 0.1, 0.4]), "jitter": rng.choice([0.01, 0.5, 5.0]), "crash": rng.choice([0, 0.05, 0.15]),
               "save_every": rng.choice([1, 2, 5])}
        for r in range(rng.randint(2, 3)):
            t_end, ev = self._replica(rng, r, notes, net)
            events += ev
            sim_end = max(sim_end, t_end)
        events.sort(key=lambda e: (e[0], e[1]))
        return {"ids": ids, "notes": notes, "net": net, "events": [[e[1]] + e[2:] for e in events], "replicas": 1 + max(e[1] for e in events) if events else 2,
                "sim_time": round(sim_end, 3), "seldom": rng.choice([0, 0, 2, 5, 1000])}

    def _replica(self, rng, r, notes, net):
        """Simulate sender, network and replica durability; returns the explicit sequence of what reaches the replica."""
        heap, seq, out = [], 0, []
        acked, received, saved = set(), set(), set()
        part_from = rng.random() * 6 if rng.chance(0.4) else None
        part_to = (part_from or 0) + rng.random() * 8
        t = 0.0

        def push(at, *what):
            nonlocal seq
            seq += 1
            heapq.heappush(heap, (at, seq, what))

        for k in range(len(notes)):
            push(rng.random() * 2, "send", k, 0)
        steps = 0
        while heap and len(acked) < len(notes) and steps < 4000:
            steps += 1
            t, _, what = heapq.heappop(heap)
            faults_on = t < 40
            if what[0] == "send":
                _, k, tries = what
                if k in acked:
                    continue
                push(t + 1.0 + min(tries, 4), "send", k, tries + 1)
                cut = faults_on and part_from is not None and part_from <= t < part_to
                if cut or (faults_on and rng.chance(net["drop"])):
                    out.append([t, r, "lost" if not cut else "partitioned", k])
                else:
                    push(t + rng.random() * net["jitter"], "deliver", k)
                    if faults_on and rng.chance(net["dup"]):
                        push(t + rng.random() * net["jitter"] * 3, "deliver", k)
            elif what[0] == "deliver":
                k = what[1]
                out.append([t, r, "deliver", k, int(rng.chance(0.4))])
                received.add(k)
                if faults_on and rng.chance(net["crash"]):
                    out.append([t, r, "crash"])
                    received = set(saved)
                elif len(received - saved) >= net["save_every"] or not faults_on:
                    out.append([t, r, "save"])
                    saved = set(received)
                    for k2 in saved - acked:
                        if faults_on and rng.chance(net["drop"]):
                            out.append([t, r, "lost-ack", k2])
                        else:
                            acked.add(k2)
                else:
                    push(t + 3.0, "flush")
            else:
                out.append([t, r, "save"])
                saved = set(received)
                acked |= saved
        return t, out

    def execute(self, plan, ctx):
        notes = plan["notes"]
        reps = []
        for r in range(plan["replicas"]):
            m = must("creating a manager", sut.new_manager, plan["ids"])
            path = ctx.path("replica%d.json" % r)
            must("first save", m.to_json, path)
            reps.append({"m": m, "ref": Ref(plan["ids"]), "path": path, "got": [], "saved": ([], Ref(plan["ids"]))})
        ctx.sim_time = plan["sim_time"]
        for step, (r, what, *arg) in enumerate(plan["events"]):
            x = reps[r]
            where = "event %d, replica %d, %s %r" % (step, r, what, arg)
            if what in ("lost", "partitioned", "lost-ack"):
                ctx.fault("net:" + what)
                ctx.probe("partition" if what == "partitioned" else "lost")
                continue
            if what == "deliver":
                a, b, t = notes[arg[0]]
                if arg[1]:
                    a, b = b, a
                    ctx.probe("flipped")
                if arg[0] in x["got"]:
                    ctx.fault("net:duplicate")
                    ctx.probe("duplicate")
                if x["got"] and arg[0] < max(x["got"]):
                    ctx.fault("net:reordered")
                    ctx.probe("reordered")
                tag, value = attempt(x["m"].add_constraint, a, b, t)
                if tag == "err":
                    raise Violation("annotation-refused", "%s: %r was refused: %s" % (where, (a, b, t), value))
                x["got"].append(arg[0])
                x["ref"].add(a, b, t)
            elif what == "save":
                must(where, x["m"].to_json, x["path"])
                x["saved"] = (list(x["got"]), x["ref"].copy())
            elif what == "crash":
                ctx.fault("process-crash")
                ctx.probe("crash")
                x["m"] = must(where, sut.load, x["path"])
                x["got"], x["ref"] = list(x["saved"][0]), x["saved"][1].copy()
            ctx.event(r, what, arg)
            if not plan.get("seldom") or short_hash([plan["seldom"], step]) % plan["seldom"] == 0:
                check_core(x["m"], x["ref"], where)
            ctx.state(x["ref"].shape())
        for r, x in enumerate(reps):
            check_core(x["m"], x["ref"], "at the end, replica %d" % r)
        orders = [tuple(dict.fromkeys(x["got"])) for x in reps]
        if len(set(orders)) > 1 and all(len(o) >= 3 for o in orders):
            ctx.nontrivial = True
        first = {}
        for r, x in enumerate(reps):
            key = frozenset(x["got"])
            seen = views(x["m"])
            if key in first:
                r0, other = first[key]
                diff = first_difference(seen, other)
                ensure(diff is None, "replicas-diverged", lambda: "replicas %d and %d received the same annotations but answer differently: %s" % (r0, r, diff))
            else:
                first[key] = (r, seen)

    def simplify(self, plan):
        used = {x for k in {e[2] for e in plan["events"] if e[1] == "deliver"} for x in plan["notes"][k][:2]}
        small = [x for x in plan["ids"] if x in used]
        if small != plan["ids"]:
            yield dict(plan, ids=small)


WORLD = C04()
