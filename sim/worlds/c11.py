from sim import algos
from sim.core import ensure, must
from sim.model import CL, ML
from sim.worlds.compute import ComputeWorld, check_constraints


class C11(ComputeWorld):
    quick_runs = 8000
    thorough_runs = 320000
    rule = ("a run is a session in which annotations, data changes, restarts and clusterings alternate; every result of k-means, hierarchical (and its later cuts), strict affinity propagation and "
            "density-based clustering is compared with the closure of the constraints; non-trivial: a clustering ran with both a must-link and a cannot-link between managed data")
    probes_wanted = ("kmeans", "hierarchical", "affinity_propagation", "dbscan", "cut", "unseeded", "reused", "both-kinds", "tight")
    algorithms = ("kmeans", "kmeans", "hierarchical", "hierarchical", "affinity_propagation", "dbscan")

    def config(self, rng, n):
        cfg = super().config(rng, n)
        if cfg["algo"] == "affinity_propagation":
            cfg["params"]["absolute_must_links"] = True
            if rng.chance(0.5):
                cfg["params"].pop("absolute_must_links")  # strict is the default
        if cfg["algo"] == "hierarchical":
            cfg["cuts"] = [[rng.choice([2, 2, 3, 4, n, n + 2]), rng.choice(["size", "iteration", None])] for _ in range(rng.randint(0, 3))]
        return cfg

    def judge(self, plan, ctx, m, ref, vectors, obj, cfg, where):
        algo = cfg["algo"]
        result = must(where, algos.call, obj, cfg, m, vectors, None, plan["verbose"])
        ctx.probe(algo)
        if "random_seed" not in cfg["params"]:
            ctx.probe("unseeded")
        kinds = set(ref.cons.values())
        if kinds == {ML, CL}:
            ctx.probe("both-kinds")
            ctx.nontrivial = True
        if cfg["nb"] and not ref.colourable(cfg["nb"]):
            ctx.probe("tight")
        ctx.event(algo, algos.plain(result))
        ctx.state([ref.shape(), len(set(result.values()))])
        check_constraints(where, result, ref, ml=algo != "dbscan", cl=algo != "affinity_propagation")
        for nb, by in cfg.get("cuts", ()):
            nb = max(2, nb)
            cut = must(where + " cut", obj.compute_predicted_clusters, nb_clusters=nb, **({"by": by} if by else {}))
            ctx.probe("cut")
            ctx.event("cut", nb, by, algos.plain(cut))
            ensure(sorted(cut) == sorted(ref.ids), "wrong-data", lambda: "%s, cut into %d by %s: labels %r" % (where, nb, by, sorted(cut)))
            check_constraints("%s, cut into %d by %s," % (where, nb, by), cut, ref)


WORLD = C11()
