import json

from sim import algos, hashphase, seams, sut
from sim.core import attempt, ensure
from sim.proc import Fresh
from sim.worlds.base import World


class C08(World):
    warm = "clustering"
    quick_runs = 4000
    thorough_runs = 100000
    hash_quick, hash_thorough = 700, 20000
    shrink_lists = ("before", "reps")
    rule = ("a run executes one seeded clustering or sampling in a pristine process and again, several times, in a process with other states of the random generators, earlier computations by the same and "
            "other objects, jumping clocks, verbose output, rebuilt managers; a second phase compares interpreters with different string hashing; non-trivial: an earlier computation of the same kind, or a reused object")
    real = ("every clustering algorithm and sampling strategy, BinaryConstraintsManager, numpy, scipy, scikit-learn, networkx (real code)",)
    stub = ("process entropy, global random generators, clocks (simulated)", "new process (forked from the pristine state, or a new interpreter with its own hash seed)")
    probes_wanted = algos.CLUSTERINGS + ("sample", "reused", "verbose", "rebuilt", "seed0", "unseeded-before", "result-ok", "earlier-moment")
    assumptions = ("same versions of numpy, scipy and scikit-learn, one BLAS thread", "the session is built by the same history in both executions",
                   "spectral clustering: the affinity has no repeated eigenvalues (the other case is a known finding)")

    def generate(self, rng, tier, i):
        if rng.chance(0.08):
            # one undifferentiated cloud, where the answer of every randomised step depends on its draws
            sit = algos.situation(rng, (14, 30), (0, 4), style="cloud", dims=3)
            base = algos.clustering_config(rng, ("spectral", "spectral", "kmeans", "mpckmeans"), True, 30)
            base["nb"] = rng.randint(4, 8)
            if rng.chance(0.4):
                base["params"]["random_seed"] = 0
            if base["algo"] == "mpckmeans":
                base["params"]["max_iteration"] = 1
            cfg = algos.settled(base, (algos.ref_of(sit), sit["vectors"]))
        else:
            sit = algos.situation(rng, (2, 9), (0, 14))
            cfg = algos.settled(algos.config(rng, True, len(sit["ids"]), 0.3), (algos.ref_of(sit), sit["vectors"]))
        before = []
        for _ in range(rng.randint(0, 3)):
            kind = rng.weighted([("same-object", 3), ("compute", 3), ("reseed", 1), ("range", 1)])
            b = {"kind": kind}
            if kind in ("same-object", "compute"):
                b["sit"] = algos.situation(rng, (2, 7), (0, 8)) if rng.chance(0.7) else None
                c2 = algos.config(rng, None, 7, 0.3, (cfg["algo"],) if cfg["what"] == "cluster" and rng.chance(0.6) else algos.CLUSTERINGS)
                if kind == "same-object":
                    c2 = dict(cfg, nb=c2["nb"] if c2["what"] == cfg["what"] and (c2["nb"] is None) == (cfg["nb"] is None) else cfg["nb"])
                b["cfg"] = c2
                if b["sit"] is None and sit["ops"] and rng.chance(0.7):
                    b["prefix"] = rng.randrange(len(sit["ops"]))  # an earlier moment of the same session, with the same vectors
            elif kind == "reseed":
                b["seed"] = rng.choice([0, 1, 42, cfg["params"]["random_seed"]])
            before.append(b)
        reps = []
        for _ in range(rng.randint(1, 3)):
            reps.append({"new": rng.chance(0.5), "verbose": rng.chance(0.25), "ambient": rng.randrange(2**32), "rebuild": rng.chance(0.4),
                         "clock": [rng.choice([0.1, -50.0, 1e6, 0.0, -1e7]) for _ in range(2)]})
        return {"sit": sit, "cfg": cfg, "before": before, "reps": reps, "ambient2": rng.randrange(2**32)}

    def answer(self, plan, ctx=None):
        m, _ = algos.build(plan["sit"])
        return algos.outcome(algos.make(plan["cfg"]), plan["cfg"], m, algos.vectors_of(plan["sit"]), dict(plan["sit"]["clusters"]))

    def execute(self, plan, ctx):
        import random

        cfg, sit = plan["cfg"], plan["sit"]

        def alone(_):
            seams.ambient(plan["ambient2"])
            return self.answer(plan)

        other = Fresh(alone)
        m, ref = algos.build(sit)
        vectors = algos.vectors_of(sit)
        obj = algos.make(cfg)
        ctx.probe(cfg["algo"] if cfg["what"] == "cluster" else "sample")
        if cfg["params"]["random_seed"] == 0:
            ctx.probe("seed0")
        for b in plan["before"]:
            if b["kind"] == "reseed":
                random.seed(b["seed"])
                import numpy as np

                np.random.seed(b["seed"])
                ctx.fault("entropy:reseeded")
                continue
            if b["kind"] == "range":
                attempt(m.get_min_and_max_number_of_clusters)
                continue
            s2 = b["sit"] or sit
            m2, v2 = (algos.build(s2)[0], algos.vectors_of(s2)) if b["sit"] else (m, vectors)
            if b.get("prefix") is not None:
                m2 = algos.build(dict(sit, ops=sit["ops"][: b["prefix"]]))[0]
                ctx.probe("earlier-moment")
            tag = algos.outcome(obj if b["kind"] == "same-object" else algos.make(b["cfg"]), b["cfg"], m2, v2, dict(s2["clusters"]))
            ctx.event("before", b["cfg"], tag)
            if b["kind"] == "same-object":
                ctx.probe("reused")
            if "random_seed" not in b["cfg"]["params"]:
                ctx.probe("unseeded-before")
            ctx.nontrivial = True
        want = other.call(1)
        ctx.event(cfg, want)
        ctx.state([cfg["algo"], want])
        if want[0] == "ok":
            ctx.probe("result-ok")
        for k, rep in enumerate(plan["reps"]):
            seams.ambient(rep["ambient"])
            ctx.fault("entropy:reseeded")
            seams.set_clock(1.6e9, rep["clock"])
            ctx.fault("clock:jumps")
            if rep["rebuild"]:
                m, _ = algos.build(sit)
                vectors = algos.vectors_of(sit)
                ctx.probe("rebuilt")
            if rep["verbose"]:
                ctx.probe("verbose")
            if not rep["new"] and k:
                ctx.probe("reused")
                ctx.nontrivial = True
            got = algos.outcome(algos.make(cfg) if rep["new"] else obj, cfg, m, vectors, dict(sit["clusters"]), rep["verbose"])
            got = json.loads(json.dumps(got))
            ensure(got == want, "not-repeatable", lambda: "%s %r nb=%r with %s, execution %d %r gave %r instead of %r in a new process" % (
                cfg["algo"], cfg["params"], cfg["nb"], sorted(ref.ids), k, {x: y for x, y in rep.items() if x != "clock"}, got, want))

    def extra_phase(self, runner):
        return hashphase.run(runner, self.hash_quick if runner.tier == "quick" else self.hash_thorough)

    def simplify(self, plan):
        for sit in algos.shrink_situation(plan["sit"]):
            yield dict(plan, sit=sit)


WORLD = C08()
