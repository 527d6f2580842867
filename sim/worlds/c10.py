import copy
import json

from sim import algos, gen, seams, sut
from sim.core import InjectedFault, Violation, attempt, ensure, must
from sim.model import Ref, check_core, snapshot
from sim.proc import Fresh
from sim.worlds.base import World

EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "InjectedFault": InjectedFault, "OSError": OSError, "ValueError": ValueError}
EDITS = {"unknown": 0, "badtype": 0, "self": 0, "dupid": 0, "contradict": 0.3, "newid": 0, "rmid": 0}
QUESTIONS = ["components", "complete", "range", "conflict", "inferred", "added", "list"]


class Faults:
    """Raises at the k-th access; counts accesses."""

    def __init__(self):
        self.n, self.at, self.exc, self.fired = 0, None, None, False

    def arm(self, at, exc):
        self.n, self.at, self.exc, self.fired = 0, at, exc, False

    def tick(self):
        k = self.n
        self.n += 1
        if self.at is not None and k == self.at:
            self.fired = True
            raise self.exc("injected failure of an input")


class FaultyVectors(dict):
    faults = None

    def __getitem__(self, key):
        self.faults.tick()
        return dict.__getitem__(self, key)

    def get(self, key, default=None):
        self.faults.tick()
        return dict.get(self, key, default)

    def items(self):
        for k in dict.keys(self):
            yield k, self[k]

    def values(self):
        for k in dict.keys(self):
            yield self[k]


def faulty_manager(m, faults):
    base = sut._mod("constraints.abstract").AbstractConstraintsManager

    def delegate(name):
        def method(self, *a, **kw):
            faults.tick()
            return getattr(m, name)(*a, **kw)

        return method

    body = {name: delegate(name) for name in base.__abstractmethods__}
    body["__getattr__"] = lambda self, name: getattr(m, name)
    return type("RemoteManager", (base,), body)()


def question(m, q, ids):
    kind, a, b, t = q
    a, b = ids[a % len(ids)], ids[b % len(ids)]
    if kind == "components":
        return m.get_connected_components()
    if kind == "complete":
        return m.check_completude_of_constraints()
    if kind == "range":
        return m.get_min_and_max_number_of_clusters()
    if kind == "conflict":
        return m.get_list_of_involved_data_IDs_in_a_constraint_conflict(a, b, t)
    if kind == "inferred":
        return m.get_inferred_constraint(a, b)
    if kind == "added":
        return m.get_added_constraint(a, b)
    return m.get_list_of_managed_data_IDs()


REFUSALS = ("few-clusters", "no-vectors", "no-manager", "missing-vector")


def spoil(s, cfg, m, vectors):
    """The arguments of a call that has to be refused (or fails for lack of a vector)."""
    kind = s.get("refuse")
    if kind == "few-clusters":
        cfg = dict(cfg, nb=1 if cfg["nb"] is not None and cfg["what"] == "cluster" else cfg["nb"] if cfg["what"] == "cluster" else -1)
    elif kind == "no-vectors":
        vectors = None
    elif kind == "no-manager":
        m = "no manager"
    elif kind == "missing-vector":
        vectors = dict(vectors)
        vectors.pop(sorted(vectors)[len(vectors) // 2])
    return cfg, m, vectors


def cut(obj, cfg, nb, by):
    return algos.plain(obj.compute_predicted_clusters(nb_clusters=nb, by=by))


class C10(World):
    warm = "clustering"
    quick_runs = 3200
    thorough_runs = 72000
    shrink_lists = ("steps",)
    rule = ("a run is a series of clustering, sampling and manager calls by new and reused objects on two sessions that go on between calls (annotations, new vectors, new clusters); seeded aborts hit an executed source line, a call to the constraints manager or an access to "
            "the vectors, or arguments are invalid; results are cut again and scribbled upon; after every call manager, vectors and arguments are compared with before, earlier results with their copies, and completed calls with a new object in a pristine process; "
            "non-trivial: an abort fired and a later call by the same object completed")
    real = ("every clustering algorithm, sampling and BinaryConstraintsManager (real code)",)
    stub = ("constraints manager behind a failing connection and failing vector store (real ones wrapped)", "interruptions and allocation failures (raised at chosen source lines)", "process entropy and random generators")
    probes_wanted = ("abort@line", "abort@manager", "abort@vectors", "retry-after-abort", "reuse", "question", "sample", "edit", "refused", "cut", "scribble") + algos.CLUSTERINGS
    assumptions = ("aborts happen between source lines of the repository or inside calls to the manager or accesses to vectors",
                   "spectral clustering: the affinity has no repeated eigenvalues (see the known finding of C08)")

    def generate(self, rng, tier, i):
        sits = [algos.situation(rng, (2, 7), (0, 12), p_big=0.02) for _ in range(2)]
        shared = rng.chance(0.25)
        if shared:  # two sessions over the same data, vectors and clusters, with their own constraints
            sits[1] = dict(sits[0], ops=gen.history(rng, Ref(sits[0]["ids"]), rng.randint(0, 8), list(sits[0]["ids"]), weights=EDITS))
        refs, vectors = [algos.ref_of(s) for s in sits], [s["vectors"] for s in sits]
        cfgs = [algos.config(rng, True, 6, 0.3) for _ in range(rng.randint(1, 2))]
        steps = []
        states = {0: [], 1: []}
        for _ in range(rng.randint(2, 6)):
            s = {"obj": rng.randrange(len(cfgs)), "sit": rng.randrange(2) if rng.chance(0.4) else 0, "abort": None, "nb": None}
            if rng.chance(0.2):
                s["nb"] = rng.choice([2, 3, 4])
            if rng.chance(0.18):
                s["question"] = [rng.choice(QUESTIONS), rng.randrange(20), rng.randrange(20), rng.choice(["MUST_LINK", "CANNOT_LINK"])]
            if steps and rng.chance(0.35):  # the session goes on between two calls
                k = s["sit"]
                kind = rng.weighted([("ops", 6), ("vectors", 1 if not shared else 0), ("clusters", 1 if not shared else 0)])
                if kind == "ops":
                    pool = sorted(sits[k]["vectors"]["v"])
                    s["edit"] = {"ops": gen.history(rng, refs[k], rng.randint(1, 4), pool, weights=dict(EDITS, newid=0.3, rmid=0.3 if len(refs[k].ids) > 3 else 0))}
                elif kind == "vectors":
                    keys = list(vectors[k]["v"])
                    s["edit"] = {"vectors": gen.vectors_plan(rng, keys, None, len(vectors[k]["v"][keys[0]]))}
                    vectors[k] = s["edit"]["vectors"]
                else:
                    s["edit"] = {"clusters": {x: rng.randrange(3) for x in sits[k]["clusters"]}}
            if rng.chance(0.5):
                kind = rng.weighted([("line", 5), ("manager", 2), ("vectors", 1.5)])
                s["abort"] = {"kind": kind, "u": rng.u(), "u2": rng.u(), "exc": rng.choice(["KeyboardInterrupt", "MemoryError"] if kind == "line" else sorted(EXC))}
            elif rng.chance(0.15) and not s.get("question"):
                s["refuse"] = rng.choice(REFUSALS)
            if rng.chance(0.3):
                s["cut"] = [rng.choice([2, 3, 4, 6, s["nb"] or cfgs[s["obj"]]["nb"] or 2]), rng.choice(["size", "iteration"])]
            s["scribble"] = rng.choice(["values", "clear"]) if rng.chance(0.3) else None
            steps.append(s)
            if not s.get("question"):
                states[s["obj"]].append((refs[s["sit"]].copy(), vectors[s["sit"]]))
        cfgs = [algos.settled(cfg, *states[k]) for k, cfg in enumerate(cfgs)]
        return {"sits": sits, "cfgs": cfgs, "steps": steps, "shared": shared, "ambient2": rng.randrange(2**32)}

    @staticmethod
    def _edit(edit, m, vectors, clusters, ref=None):
        for op in edit.get("ops", ()):
            attempt(gen.call_manager, m, op)
            if ref is not None:
                gen.apply_ref(ref, op)
        if "vectors" in edit:
            for v in vectors:
                v.update(gen.make_vectors(edit["vectors"]))
        clusters.update(edit.get("clusters", {}))

    def _cfg(self, plan, s):
        cfg = plan["cfgs"][s["obj"]]
        if s["nb"] is not None and cfg["nb"] is not None:
            cfg = dict(cfg, nb=s["nb"])
        return cfg

    def execute(self, plan, ctx):
        def alone(k):
            """The step by a new object in a pristine process: its result, and where its abort would fall."""
            s = plan["steps"][k]
            seams.ambient(plan["ambient2"])
            sit, cfg = plan["sits"][s["sit"]], self._cfg(plan, s)
            m, _ = algos.build(sit)
            clusters = dict(sit["clusters"])
            vectors_now = algos.vectors_of(sit)
            for other in plan["steps"][: k + 1]:
                if other["sit"] == s["sit"] and other.get("edit"):
                    self._edit(other["edit"], m, [vectors_now], clusters)
            ids = list(m.get_list_of_managed_data_IDs())
            if not ids:
                return {"want": None, "at": None}

            def go(m, vectors):
                if s.get("question"):
                    tag, value = attempt(question, m, s["question"], ids)
                    return [tag, value if tag == "ok" else type(value).__name__]
                obj = algos.make(cfg)
                c2, m, vectors = spoil(s, cfg, m, vectors)
                got = algos.outcome(obj, c2, m, vectors, clusters)
                if s.get("cut") and cfg["algo"] == "hierarchical" and got[0] == "ok":
                    out["cut"] = cut(obj, cfg, *s["cut"])
                return got

            out = {"at": None}
            out["want"] = go(m, dict(vectors_now))
            a = s["abort"]
            if a:
                if a["kind"] == "line":
                    with seams.Profile() as prof:
                        go(m, dict(vectors_now))
                    out["at"] = prof.pick(a["u"], a["u2"])
                else:
                    faults = Faults()
                    vectors = FaultyVectors(vectors_now)
                    vectors.faults = faults if a["kind"] == "vectors" else Faults()
                    go(faulty_manager(m, faults) if a["kind"] == "manager" else m, vectors)
                    out["at"] = int(a["u"] * faults.n) if faults.n else None
            return out

        solo = [Fresh(alone) for _ in plan["steps"]]
        solo = [f.call(k) for k, f in enumerate(solo)]
        sessions = []
        for sit in plan["sits"]:
            m, ref = algos.build(sit)
            vectors = algos.vectors_of(sit, FaultyVectors)
            vectors.faults = Faults()
            if plan["shared"] and sessions:
                sessions.append(dict(sessions[0], m=m, ref=ref, ids=sorted(ref.ids), list=list(ref.ids)))
                continue
            sessions.append({"m": m, "ref": ref, "v": vectors, "plain": algos.vectors_of(sit), "c": dict(sit["clusters"]), "ids": sorted(ref.ids), "list": list(ref.ids)})
        objects = {k: algos.make(cfg) for k, cfg in enumerate(plan["cfgs"])}
        used, aborted, earlier = set(), set(), []

        def state():
            return [(snapshot(x["m"], x["ids"]), gen.vectors_fingerprint(x["v"]), gen.vectors_fingerprint(x["plain"]), list(x["c"].items())) for x in sessions]

        before = state()
        for k, s in enumerate(plan["steps"]):
            x, cfg, a = sessions[s["sit"]], self._cfg(plan, s), s["abort"]
            obj = objects[s["obj"]]
            if s.get("edit"):
                self._edit(s["edit"], x["m"], [x["v"], x["plain"]], x["c"], x["ref"])
                x["ids"], x["list"] = sorted(x["ref"].ids), list(x["ref"].ids)
                before = state()
                ctx.probe("edit")
            if not x["ids"]:
                continue
            where = "call %d: %s %r nb=%r%s" % (k, s.get("question") or cfg["algo"], cfg["params"], cfg["nb"], " aborted by %r" % a if a else "")
            m, v, at = x["m"], x["plain"], solo[k]["at"]
            fired, err, value, tag = None, None, None, None
            faults = Faults()
            if a and at is not None and a["kind"] == "manager":
                faults.arm(at, EXC[a["exc"]])
                m = faulty_manager(m, faults)
            elif a and at is not None and a["kind"] == "vectors":
                v = x["v"]
                v.faults = faults
                faults.arm(at, EXC[a["exc"]])
            c2, m, v = spoil(s, cfg, m, v)
            line = seams.Abort(at if a and a["kind"] == "line" and at is not None else -1, EXC[a["exc"]] if a else KeyboardInterrupt)
            try:
                if line.k >= 0:
                    with line:
                        value = question(m, s["question"], x["list"]) if s.get("question") else algos.call(obj, c2, m, v, x["c"])
                else:
                    value = question(m, s["question"], x["list"]) if s.get("question") else algos.call(obj, c2, m, v, x["c"])
            except Violation:
                raise
            except BaseException as e2:
                err = e2
            x["v"].faults = Faults()
            fired = "line" if line.fired else a["kind"] if faults.fired else None
            if not isinstance(err, (Exception, type(None))) and not fired:
                raise err
            if fired:
                ctx.fault("abort@%s:%s" % (fired, a["exc"]))
                ctx.probe("abort@" + fired)
            ctx.event(where, type(err).__name__ if err else "done", fired)
            ctx.probe("question" if s.get("question") else cfg["algo"] if cfg["what"] == "cluster" else "sample")
            after = state()
            for j, (one, two) in enumerate(zip(before, after)):
                if one != two:
                    what = ("constraints manager", "vectors", "vectors", "clusters given as argument")[next(q for q in range(4) if one[q] != two[q])]
                    raise Violation("arguments-changed", "%s changed the %s of session %d%s" % (where, what, j, ": %r instead of %r" % (two[0], one[0]) if one[0] != two[0] else ""))
            for j, (obj_result, kept) in enumerate(earlier):
                ensure(obj_result == kept, "earlier-result-altered", lambda: "%s altered a result returned before (%r instead of %r)" % (where, obj_result, kept))
            if s.get("question"):
                if not fired and s["question"][0] != "range":
                    got = json.loads(json.dumps(["ok", value] if err is None else ["err", type(err).__name__]))
                    ensure(got == solo[k]["want"], "question-differs", lambda: "%s answers %r instead of %r in a pristine process" % (where, got, solo[k]["want"]))
                continue
            if s.get("refuse"):
                ctx.fault("refused:" + s["refuse"])
                if err is not None:
                    ctx.probe("refused")
                    aborted.add(s["obj"])
            if fired and err is not None:
                aborted.add(s["obj"])
                used.add(s["obj"])
                continue
            if s["obj"] in aborted and err is None:
                ctx.probe("retry-after-abort")
                ctx.nontrivial = True
            if s["obj"] in used:
                ctx.probe("reuse")
            used.add(s["obj"])
            got = json.loads(json.dumps(["ok", algos.plain(value)] if err is None else ["err", type(err).__name__]))
            ctx.state([cfg["algo"], got])
            ensure(got == solo[k]["want"], "reused-differs", lambda: "%s gives %r; a new object gives %r" % (where, got, solo[k]["want"]))
            if err is None:
                if s.get("scribble"):  # the caller does what it likes with the result
                    ctx.probe("scribble")
                    if isinstance(value, dict):
                        for key in value:
                            value[key] = 99
                    if s["scribble"] != "values":
                        value.clear()
                else:
                    earlier.append((value, copy.deepcopy(value)))
                if s.get("cut") and cfg["algo"] == "hierarchical":
                    kept = copy.deepcopy(value)
                    again = json.loads(json.dumps(must(where + ", cut", cut, obj, cfg, *s["cut"])))
                    ctx.probe("cut")
                    ensure(again == solo[k]["cut"], "cut-differs", lambda: "%s, cut into %r, gives %r; a new object gives %r" % (where, s["cut"], again, solo[k]["cut"]))
                    ensure(value == kept, "earlier-result-altered", lambda: "%s: a later cut altered the result (%r instead of %r)" % (where, value, kept))
        for x in sessions:
            check_core(x["m"], x["ref"], "at the end")

    def simplify(self, plan):
        for k, s in enumerate(plan["steps"]):
            if s["abort"]:
                yield dict(plan, steps=plan["steps"][:k] + [dict(s, abort=None)] + plan["steps"][k + 1 :])
        for j in range(2):
            for sit in algos.shrink_situation(plan["sits"][j]):
                yield dict(plan, sits=[sit if q == j else plan["sits"][q] for q in range(2)])


WORLD = C10()
