import json
import os

from sim import algos, gen, seams, sut
from sim.core import Violation, attempt, ensure, must
from sim.model import Ref, check_core, first_difference, views
from sim.proc import Fresh
from sim.worlds.base import World

LOCALES = ["utf-8", "utf-8", "ascii", "latin-1", "cp1252", "gbk", "cp932", "koi8-r"]
GOLDEN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "golden")


def answers(m, plan):
    """Everything the property says about a manager, as JSON data. Ends by mutating it."""
    out = {"order": list(m.get_list_of_managed_data_IDs())}
    out.update(json.loads(json.dumps(views(m))))
    ids = out["order"]
    if ids:
        out["max clusters"] = m.get_min_and_max_number_of_clusters()[1]
    out["conflicts"] = [sorted(m.get_list_of_involved_data_IDs_in_a_constraint_conflict(a, b, t) or []) for a in ids[:4] for b in ids[:4] for t in ("MUST_LINK", "CANNOT_LINK")]
    sit = plan["sit"]
    if len(ids) >= 2 and plan["algos"]:
        vectors = algos.vectors_of(sit)
        for k, cfg in enumerate(plan["algos"]):
            out["computation %d: %s %s" % (k, cfg["algo"], json.dumps(cfg["params"]))] = algos.outcome(algos.make(cfg), cfg, m, vectors, sit["clusters"])
    for k, op in enumerate(plan["later"]):
        tag, value = attempt(gen.call_manager, m, op)
        out["reaction %d to %r" % (k, op)] = [tag, value if tag == "ok" else type(value).__name__]
        if k % 3 == 2 or k == len(plan["later"]) - 1:
            out["answers after reaction %d" % k] = json.loads(json.dumps(views(m)))
    return out


class C05(World):
    warm = "clustering"
    quick_runs = 5000
    thorough_runs = 200000
    shrink_lists = ("algos", "later")
    rule = ("a run is a history (with data added and removed, refusals, deletions, earlier save/load cycles), a save, and the load of the file by a process forked before the history; original and "
            "restored manager then answer every question, run seeded computations and react to a continuation; non-trivial: at least two constraints saved")
    real = ("BinaryConstraintsManager, JSON persistence, k-means, hierarchical clustering, sampling (real code, real files)",)
    stub = ("the locale's text encoding at save and load", "process entropy and global random generators", "restart (a process forked before the session began loads the file)")
    probes_wanted = ("locale", "cycle", "data-removed", "computed", "golden", "relative")
    assumptions = ("data identifiers are strings",)

    def prepare(self):
        self.golden = []
        for name in sorted(os.listdir(GOLDEN)):
            if name.endswith(".expected.json"):
                with open(os.path.join(GOLDEN, name)) as f:
                    self.golden.append((name.replace(".expected.json", ".saved.json"), json.load(f)))

    def generate(self, rng, tier, i):
        if i % 40 == 0:
            return {"golden": rng.randrange(10**6), "sit": None, "algos": [], "later": []}
        sit = algos.situation(rng, (1, 8), (0, 30), weights={"rmid": 1.2, "newid": 1.2, "contradict": 1, "unknown": 0.3, "self": 0.5, "badtype": 0.2})
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            sit["ops"].insert(rng.randint(0, len(sit["ops"])), ["cycle"])
        ref = Ref(sit["ids"])
        for op in sit["ops"]:
            gen.apply_ref(ref, op)
        later = gen.history(rng, ref, rng.randint(0, 9), sorted(set(sit["ids"]) | set(list(sit["vectors"]["v"])[:3])))
        configs = []
        if rng.chance(0.6):
            for _ in range(rng.randint(1, 2)):
                cfg = algos.config(rng, True, len(ref.ids), 0.5, ("kmeans", "hierarchical"))
                if cfg["algo"] == "hierarchical":
                    cfg["params"]["linkage"] = rng.choice(["single", "complete"])
                configs.append(cfg)
        return {"sit": sit, "later": later, "algos": configs, "resave": rng.chance(0.3), "name": rng.choice(["s.json", "a b.json", "é.json", "noext", ".hidden"]), "ambient2": rng.randrange(2**32),
                "relative": rng.choice(["./", "bare", "sub/"]) if rng.chance(0.3) else None,
                "locales": [rng.choice(LOCALES), rng.choice(LOCALES)] if rng.chance(0.25) else ["utf-8", "utf-8"]}

    def execute(self, plan, ctx):
        if plan.get("golden") is not None:
            return self._golden(plan, ctx)
        path = ctx.path(plan["name"])
        if plan.get("relative"):  # the session is saved and loaded under a path relative to the current folder
            os.chdir(os.path.dirname(path))
            path = {"bare": ""}.get(plan["relative"], plan["relative"]) + os.path.basename(path)
            os.makedirs("sub", exist_ok=True)
            ctx.probe("relative")

        def restored(arg):
            seams.ambient(plan["ambient2"])
            with seams.Locale(plan["locales"][1]):
                m = must("loading the saved session", sut.load, path)
            return answers(m, plan)

        if plan["locales"] != ["utf-8", "utf-8"]:
            ctx.probe("locale")
            ctx.fault("restart:other-locale")
        other = Fresh(restored)
        sit = plan["sit"]
        m, ref = must("creating a manager", sut.new_manager, sit["ids"]), Ref(sit["ids"])
        for op in sit["ops"]:
            if op[0] == "cycle":
                must("earlier save", m.to_json, path)
                m = must("earlier load", sut.load, path)
                ctx.probe("cycle")
                ctx.fault("process-restart")
                continue
            if op[0] == "rmid" and op[1] in ref.ids:
                ctx.probe("data-removed")
            gen.apply_ref(ref, op)
            attempt(gen.call_manager, m, op)
        with seams.Locale(plan["locales"][0]):
            value = must("saving", m.to_json, path)
            ensure(value is True, "wrong-return", "saving returned %r" % (value,))
            if plan["resave"]:
                must("saving again", m.to_json, path)
        ctx.event("saved", sit["ops"])
        ctx.state(ref.shape())
        ctx.fault("process-restart")
        with seams.Locale(plan["locales"][1]):
            here = must("loading the saved session", sut.load, path)
        got_new = other.call(1)
        got_here = answers(here, plan)
        want = answers(m, plan)
        if plan["algos"]:
            ctx.probe("computed")
        for who, got in (("a new process", got_new), ("the same process", got_here)):
            diff = first_difference(got, json.loads(json.dumps(want)))
            ensure(diff is None, "restored-differs", lambda: "the session restored in %s differs: %s" % (who, diff))
        ctx.event("later", plan["later"], [c["algo"] for c in plan["algos"]])
        ctx.nontrivial = len(ref.cons) >= 2

    def _golden(self, plan, ctx):
        if not self.golden:
            return
        name, want = self.golden[plan["golden"] % len(self.golden)]
        m = must("loading %s, saved by the previous release" % name, sut.load, os.path.join(GOLDEN, name))
        ref = Ref(want["ids"])
        for a, b, t in want["constraints"]:
            ref.add(a, b, t)
        check_core(m, ref, "session of %s, saved by the previous release" % name)
        ensure(list(m.get_list_of_managed_data_IDs()) == want["ids"], "restored-differs", lambda: "%s: data in another order: %r" % (name, m.get_list_of_managed_data_IDs()))
        ctx.probe("golden")
        ctx.event("golden", name)

    def simplify(self, plan):
        if plan["sit"]:
            for sit in algos.shrink_situation(plan["sit"]):
                yield dict(plan, sit=sit)
        if plan.get("resave"):
            yield dict(plan, resave=False)
        if plan.get("locales", [])[:1] not in ([], ["utf-8"]):
            yield dict(plan, locales=["utf-8", plan["locales"][1]])


WORLD = C05()
