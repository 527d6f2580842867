import copy
import json
import os
import random

from sim import algos, gen, seams, sut, text
from sim.core import Violation, attempt, ensure
from sim.model import Ref, first_difference, snapshot, views
from sim.proc import Fresh
from sim.sched import Scheduler
from sim.worlds.base import World


class SessionKilled(BaseException):
    pass


def run_session(sess, shared, folder, guard=None):
    """Executes one session; returns the JSON log of everything it observed. `guard(step)` is called around each step."""
    log, objects = [], {}
    kind = sess["kind"]
    m = vectors = clusters = None
    if kind in ("own", "noise"):
        m = sut.new_manager(sess["sit"]["ids"])
        vectors = algos.vectors_of(sess["sit"])
        clusters = dict(sess["sit"]["clusters"])
    elif kind == "reader":
        m, vectors, clusters = shared
    path = os.path.join(folder, sess["file"])
    os.makedirs(os.path.dirname(path), exist_ok=True)
    for step in sess["steps"]:
        before = guard() if guard else None
        what = step[0]
        if what == "compute":
            cfg = step[1]
            key = repr((step[2], cfg["algo"], sorted(cfg["params"].items()))) if step[2] is not None else None
            tag, obj = attempt(lambda: objects.get(key) or algos.make(cfg))
            if key and tag == "ok":
                objects[key] = obj
            log.append(algos.outcome(obj, cfg, m, vectors, clusters))
        elif what == "save":
            tag, value = attempt(m.to_json, path)
            log.append(["save", tag, value if tag == "ok" else type(value).__name__])
        elif what == "load":
            if os.path.exists(path):
                tag, other = attempt(sut.load, path)
                log.append(["load", views(other) if tag == "ok" else type(other).__name__])
                if kind == "own" and tag == "ok":
                    m = other
        elif what == "text":
            tag, value = attempt(text.call, step[1], dict(sess["texts"]))
            log.append(["text", text.plain(value) if tag == "ok" else type(value).__name__])
        elif what == "answers":
            log.append(["answers", views(m)])
        elif what == "range":
            attempt(m.get_min_and_max_number_of_clusters)
        elif what == "draw":
            random.random()
            random.seed(step[1])
        else:
            tag, value = attempt(gen.call_manager, m, step)
            log.append([what, tag, value if tag == "ok" else type(value).__name__])
        if guard:
            guard(before, step)
    if m is not None and kind != "noise":
        log.append(["answers", views(m)])
    return json.loads(json.dumps(log))


def settle(sess, sit):
    """Replaces spectral clusterings of degenerate states (see algos.spectral_degenerate) in the steps of a session."""
    ref, saved = algos.ref_of(sit), None
    for k, step in enumerate(sess["steps"]):
        if step[0] == "compute":
            sess["steps"][k] = ["compute", algos.settled(step[1], (ref, sit["vectors"])), step[2]]
        elif step[0] == "save":
            saved = ref.copy()
        elif step[0] == "load":
            ref = saved.copy() if saved is not None and sess["kind"] == "own" else ref
        elif step[0] not in ("text", "answers", "range", "draw"):
            gen.apply_ref(ref, step)


class C09(World):
    warm = "text"
    quick_runs = 4000
    thorough_runs = 100000
    shrink_lists = ("switches", "aborts")
    rule = ("a run executes 2-3 sessions in real threads that hand one baton over at planned source lines (chosen by seed on the profile of each session), over their own objects or a shared read-only manager and "
            "vectors, some sessions dying midway; each result is compared with the same session alone in a pristine process; non-trivial: at least one switch happened inside a session's step")
    real = ("managers, clusterings, samplings, persistence, text preparation (real code in real threads)",)
    stub = ("thread scheduling (deterministic baton)", "locks (cooperative)", "process entropy, random generators, clocks", "spaCy language models")
    probes_wanted = ("own", "reader", "text", "noise", "switched", "killed", "shared") + algos.CLUSTERINGS
    assumptions = ("switches happen between source lines of the repository and of Python's random module", "nobody modifies shared objects meanwhile",
                   "spectral clustering: the affinity has no repeated eigenvalues (see the known finding of C08)")

    def _computing(self, rng, seeded):
        cfg = copy.deepcopy(rng.choice(self.common)) if seeded and self.common else algos.config(rng, seeded, 6, 0.35)
        return ["compute", cfg, rng.choice([None, 0])]

    def generate(self, rng, tier, i):
        sessions = []
        shared = None
        # In half of the runs the sessions ask for the same computations (same parameters and seed), each on its own data.
        self.common = [algos.config(rng, True, 6, 0.35) for _ in range(rng.randint(1, 2))] if rng.chance(0.5) else []
        twin = None
        if rng.chance(0.35):
            shared = algos.situation(rng, (3, 7), (0, 12), p_big=0)
        n = 2 if rng.chance(0.7) else 3
        archive = not shared and rng.chance(0.2)  # sessions that do little but save and load
        for k in range(n):
            if archive:
                sit = algos.situation(rng, (2, 4), (0, 3), p_big=0)
                steps = list(sit["ops"])
                sit["ops"] = []
                for e in rng.choice([["save", "load"], ["save", "save", "load"]]) * rng.randint(1, 3) + rng.choice([[], ["answers"]]):
                    steps.append([e])
                sessions.append({"kind": "own", "file": rng.choice(["s%d.json" % k] + ["d%d/s.json" % k] * 4), "sit": sit, "steps": steps})
                continue
            if shared and (k < 2 or rng.chance(0.5)):
                kind = "reader"
            else:
                kind = rng.weighted([("own", 6), ("text", 2), ("noise", 1.5 if k else 0)])
            s = {"kind": kind, "file": rng.choice(["s%d.json" % k, "s%d" % k, "d%d/s.json" % k, "d%d/s.json" % k])}
            if kind in ("own", "noise"):
                w = {"unknown": 0.3, "badtype": 0.2}
                sit = algos.situation(rng, (2, 7), (0, 10), p_big=0, weights=w)
                if twin and rng.chance(0.4):  # same identifiers as the session before, other constraints and vectors
                    names = list(twin["vectors"]["v"])
                    sit = {"ids": list(twin["ids"]), "vectors": gen.vectors_plan(rng, names), "clusters": {x: rng.randrange(3) for x in names},
                           "ops": gen.history(rng, Ref(twin["ids"]), rng.randint(0, 10), list(twin["ids"]), weights=w)}
                twin = sit
                steps = list(sit["ops"])
                sit["ops"] = []
                extra = [self._computing(rng, kind == "own") for _ in range(rng.randint(0, 2))]
                extra += [["save"]] * rng.choice([0, 0, 1]) + [["answers"]] * rng.choice([0, 1])
                if kind == "noise":
                    extra += [["range"], ["draw", rng.choice([0, 1, 42])]]
                if rng.chance(0.3):
                    extra.append(["load"])
                for e in extra:
                    steps.insert(rng.randint(len(steps) // 2, len(steps)), e)
                s.update(sit=sit, steps=steps)
            elif kind == "reader":
                s["steps"] = [self._computing(rng, True) for _ in range(rng.randint(1, 2))] + [[x] for x in ("answers", "save") if rng.chance(0.3)]
            else:
                s["texts"] = text.corpus(rng, gen.id_pool(rng, rng.randint(1, 4)))
                s["steps"] = [["text", text.call_config(rng)] for _ in range(rng.randint(1, 3))]
            if kind != "text":
                settle(s, shared if kind == "reader" else s["sit"])
            sessions.append(s)
        switches = [{"t": rng.randrange(n), "u": rng.u(), "u2": rng.u(), "to": rng.randrange(n - 1)} for _ in range(rng.choice([5, 8, 12, 16] if archive else [1, 2, 3, 5, 8, 16]))]
        same = [rng.u() for _ in range(rng.randint(1, 2))] if rng.chance(0.6 if archive else 0.25) else None
        for x in switches:
            x["to"] += x["to"] >= x["t"]
            if same:  # the sessions stop at the same places of the code
                x["u"] = rng.choice(same)
        aborts = [{"t": rng.randrange(n), "u": rng.u(), "u2": rng.u()}] if rng.chance(0.12) else []
        return {"sessions": sessions, "shared": shared, "switches": switches, "aborts": aborts, "first": rng.randrange(n)}

    def execute(self, plan, ctx):
        sessions = plan["sessions"]

        def make_shared():
            if not plan["shared"]:
                return None
            return algos.build(plan["shared"])[0], algos.vectors_of(plan["shared"]), dict(plan["shared"]["clusters"])

        def guard(before=None, step=None):
            if step is None:
                return seams.rng_state()
            if step[0] not in ("range", "draw") and seams.rng_state() != before:
                raise Violation("generator-disturbed", "the step %r changed the state of the process-wide random generators" % (step,))

        def alone(arg):
            k, folder = arg
            os.makedirs(folder, exist_ok=True)
            seams.ambient(plan["ambient"] + 1)
            shared = make_shared()
            prof = seams.Profile(extra=(random.__file__,))
            with prof:
                log = run_session(sessions[k], shared, folder)
            seams.ambient(plan["ambient"] + 2)
            if sessions[k]["kind"] != "noise":
                again = run_session(sessions[k], make_shared(), os.path.join(folder), guard)
            points = [seams.pick_line(prof.lines, s["u"], s["u2"]) if s["t"] == k else None for s in plan["switches"]]
            kills = [seams.pick_line(prof.lines, s["u"], s["u2"]) if s["t"] == k else None for s in plan["aborts"]]
            return {"log": log, "points": points, "kills": kills, "lines": len(prof.lines)}

        solo = [Fresh(alone) for _ in sessions]
        solo = [f.call([k, os.path.join(ctx.scratch, "solo%d" % k)]) for k, f in enumerate(solo)]
        switches, aborts = {}, {}
        for j, s in enumerate(plan["switches"]):
            point = solo[s["t"]]["points"][j] if s["t"] < len(solo) else None
            if point is not None and s["to"] < len(solo):
                switches[s["t"], point] = s["to"]
        for j, s in enumerate(plan["aborts"]):
            point = solo[s["t"]]["kills"][j]
            if point is not None:
                aborts[s["t"], point] = SessionKilled
        folder = os.path.join(ctx.scratch, "together")
        os.makedirs(folder)
        shared = make_shared()
        if shared:
            ctx.probe("shared")
            ids = sorted(shared[0].get_list_of_managed_data_IDs())
            before = (snapshot(shared[0], ids), gen.vectors_fingerprint(shared[1]), dict(shared[2]))
        sched = Scheduler([lambda s=s: run_session(s, shared, folder) for s in sessions], switches, aborts=aborts)
        results = sched.run(plan["first"])
        for t in sched.trace:
            ctx.event("switch", *t)
            if t[2] == "killed":
                ctx.fault("session-killed")
                ctx.probe("killed")
            else:
                ctx.fault("preemption")
                ctx.probe("switched")
                ctx.nontrivial = True
        for s in sessions:
            ctx.probe(s["kind"])
            for step in s["steps"]:
                if step[0] == "compute" and step[1]["what"] == "cluster":
                    ctx.probe(step[1]["algo"])
        ctx.state([[s["kind"] for s in sessions], [t[:1] + t[2:] for t in sched.trace], [r["lines"] for r in solo]])
        killed = {t[0] for t in sched.trace if t[2] == "killed"}
        for k, (tag, value) in enumerate(results):
            ctx.event(k, tag, value if tag == "ok" else type(value).__name__)
            if k in killed or sessions[k]["kind"] == "noise":
                continue
            if tag == "err":
                raise Violation("session-error", "session %d raised %s: %s when run with others" % (k, type(value).__name__, value))
            want = solo[k]["log"]
            if value != want:
                at = next((j for j, (x, y) in enumerate(zip(value, want)) if x != y), min(len(value), len(want)))
                raise Violation("sessions-interfere", "session %d observes %s instead of %s when run alone (observation %d; switches %r)" % (
                    k, str(value[at : at + 1])[:600], str(want[at : at + 1])[:600], at, sched.trace[:20]))
        if shared:
            after = (snapshot(shared[0], ids), gen.vectors_fingerprint(shared[1]), dict(shared[2]))
            ensure(before == after, "shared-changed", "the shared manager or vectors were changed by readers")

    def simplify(self, plan):
        for k, s in enumerate(plan["sessions"]):
            for j in range(len(s["steps"])):
                if len(s["steps"]) > 1:
                    yield dict(plan, sessions=plan["sessions"][:k] + [dict(s, steps=s["steps"][:j] + s["steps"][j + 1 :])] + plan["sessions"][k + 1 :])
        if plan["shared"]:
            for sit in algos.shrink_situation(plan["shared"]):
                yield dict(plan, shared=sit)


WORLD = C09()
