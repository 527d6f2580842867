from sim import algos, gen, reference
from sim.core import attempt, ensure
from sim.model import CL, ML
from sim.worlds.compute import ComputeWorld, check_labels, generic_vectors, partition


class C19(ComputeWorld):
    quick_runs = 9000
    thorough_runs = 200000
    rule = ("a run is a session in which annotations, data changes, restarts and clusterings alternate; every seeded spectral result, strict affinity propagation result and density-based result is compared with an "
            "executable reference computed from the closure of the constraints; non-trivial: a result was compared in a state with constraints of both types")
    algorithms = ("spectral", "spectral", "affinity_propagation", "affinity_propagation", "dbscan")
    probes_wanted = ("spectral", "affinity_propagation", "dbscan", "both-kinds", "not-converged", "several-clusters", "noise", "must-linked-exemplars", "superset", "reused", "with-must-link", "with-cannot-link")
    n_range = (3, 9)

    def situation(self, rng):
        n = gen.size(rng, self.n_range, (10, 16), 0.1, 0.0)
        pool = gen.id_pool(rng, n + rng.randint(0, 2))
        keys = list(pool) + ["other %d" % k for k in range(rng.choice([0, 0, 1, 3]))]
        if rng.chance(0.6):
            rng.shuffle(keys)
        return pool, n, generic_vectors(rng, keys)

    def config(self, rng, n):
        cfg = super().config(rng, n)
        p = cfg["params"]
        if cfg["algo"] == "spectral":
            p.setdefault("random_seed", algos.seed(rng))
            cfg["nb"] = rng.choice([2, 2, 2, 3, 3, 4, max(2, n - 1)])
        elif cfg["algo"] == "affinity_propagation":
            p["absolute_must_links"] = True
            p["max_iteration"] = rng.choice([5, 20, 60, 150])
        else:
            p["eps"] = rng.choice([0.3, 0.6, 0.9]) * rng.choice([1, 3, 10, 30, 100])
        return cfg

    def judge(self, plan, ctx, m, ref, vectors, obj, cfg, where):
        algo, v, p = cfg["algo"], plan["vectors"]["v"], cfg["params"]
        if len(ref.ids) > 20:
            return
        tag, value = attempt(algos.call, obj, cfg, m, vectors, None, plan["verbose"])
        try:
            if algo == "spectral":
                if algos.spectral_degenerate(ref, plan["vectors"]):
                    raise reference.Unclear
                wanted = reference.spectral(ref, v, cfg["nb"], p["random_seed"])
            elif algo == "affinity_propagation":
                wanted = reference.affinity(ref, v, p["max_iteration"], p["convergence_iteration"])
            else:
                wanted = reference.dense_groups(ref, v, p["eps"], p["min_samples"])
        except reference.Unclear:
            ctx.probe("unclear")
            return
        ensure(tag == "ok", "unexpected-error", lambda: "%s raised %s: %s" % (where, type(value).__name__, value))
        count, noise = check_labels(where, value, ref.ids, negatives=algo == "dbscan")
        got = reference.canonical(partition(value))
        ctx.event(algo, got)
        self.note(ctx, ref, vectors, cfg, count, noise, wanted)
        here = {x: v[x] for x in ref.ids}
        if algo != "dbscan":
            ensure(got == wanted, "not-the-algorithm", lambda: "%s with vectors %r gives %s, but the algorithm gives %s" % (where, here, self.show(got), self.show(wanted)))
            return
        group, covered = wanted
        for members in got:
            ensure(len({group[x] for x in members}) == 1, "not-connected", lambda: "%s with vectors %r joins %r, which no chain of must-links and dense steps connects" % (where, here, members))
        for x in ref.ids:
            if value[x] >= 0 and x not in covered:
                ensure(any(y != x and ref.inferred(x, y) == ML for y in ref.ids), "noise-in-cluster", lambda: "%s with vectors %r puts %r in a cluster although no core datum is within eps and it has no must-link" % (where, here, x))

    @staticmethod
    def show(groups):
        return " | ".join(" ".join(map(repr, g)) for g in groups)

    def note(self, ctx, ref, vectors, cfg, count, noise, wanted):
        ctx.probe(cfg["algo"])
        kinds = set(ref.cons.values())
        if kinds == {ML, CL}:
            ctx.probe("both-kinds")
            ctx.nontrivial = True
        if ML in kinds:
            ctx.probe("with-must-link")
        if CL in kinds:
            ctx.probe("with-cannot-link")
        if noise:
            ctx.probe("noise")
        if count > 1:
            ctx.probe("several-clusters")
        if cfg["algo"] == "affinity_propagation":
            ctx.probe("not-converged" if count == 1 else "must-linked-exemplars" if ML in kinds else "exemplars")
        if set(vectors) != set(ref.ids):
            ctx.probe("superset")
        ctx.state([cfg["algo"], count, noise, ref.shape()])


WORLD = C19()
