from sim import algos, gen
from sim.core import attempt, ensure, must
from sim.model import CL
from sim.worlds.compute import ComputeWorld, check_labels, distinct_centres


class C12(ComputeWorld):
    quick_runs = 8000
    thorough_runs = 320000
    rule = ("a run is a session in which annotations, data changes, restarts and clusterings alternate, with vectors prepared once for a changing set of data; every result is checked for the exact set of "
            "managed data, canonical numbers and the number of clusters; non-trivial: a clustering ran with vectors in another order than, or covering more than, the managed data")
    probes_wanted = algos.CLUSTERINGS + ("superset", "other-order", "noise", "no-constraint", "more-asked-than-data", "cut", "same-with-exact-vectors")

    def judge(self, plan, ctx, m, ref, vectors, obj, cfg, where):
        algo, nb = cfg["algo"], cfg["nb"]
        tag, value = attempt(algos.call, obj, cfg, m, vectors, None, plan["verbose"])
        if tag == "err" and algo == "mpckmeans" and distinct_centres(ref, plan["vectors"]) < min(nb, len(ref.ids)):
            ctx.probe("degenerate")
            return
        if tag == "err":
            must(where, lambda: (_ for _ in ()).throw(value))
        ctx.probe(algo)
        if set(vectors) != set(ref.ids):
            ctx.probe("superset")
            ctx.nontrivial = True
        if [x for x in vectors if x in ref.ids] != ref.ids:
            ctx.probe("other-order")
            ctx.nontrivial = True
        ctx.event(algo, algos.plain(value))
        count, noise = check_labels(where, value, ref.ids, negatives=algo == "dbscan")
        if noise:
            ctx.probe("noise")
        self.compare(plan, ctx, m, ref, cfg, value, list(vectors), where)
        ctx.state([algo, count, noise, len(ref.ids), ref.shape()])
        if algo in ("kmeans", "hierarchical", "spectral") and CL not in ref.cons.values():
            ensure(count <= nb, "too-many-clusters", lambda: "%s returned %d clusters without any cannot-link: %r" % (where, count, value))
        if nb and nb > len(ref.ids):
            ctx.probe("more-asked-than-data")
        if not ref.cons:
            ctx.probe("no-constraint")
            if algo == "hierarchical":
                ensure(count == min(nb, len(ref.ids)), "wrong-number", lambda: "%s returned %d clusters without any constraint" % (where, count))
        if algo == "hierarchical":
            for k in (2, 3, len(ref.ids) + 1):
                cut = must(where + " cut into %d" % k, obj.compute_predicted_clusters, nb_clusters=k)
                ctx.probe("cut")
                c2, _ = check_labels(where + ", cut into %d" % k, cut, ref.ids)
                if CL not in ref.cons.values():
                    ensure(c2 <= k, "too-many-clusters", lambda: "%s, cut into %d, gave %d clusters without any cannot-link" % (where, k, c2))

    def compare(self, plan, ctx, m, ref, cfg, value, keys, where):
        """A seeded result is the one obtained with the vectors of the managed data only, in the order of the manager."""
        if keys == ref.ids or "random_seed" not in cfg["params"] or cfg["algo"] == "spectral" and algos.spectral_degenerate(ref, plan["vectors"]):
            return
        ctx.probe("same-with-exact-vectors")
        exact = {x: v for x, v in gen.make_vectors(plan["vectors"], list(ref.ids)).items()}
        other = must(where + " with the vectors of exactly the managed data", algos.call, algos.make(cfg), cfg, m, exact)
        ensure(algos.plain(other) == algos.plain(value), "depends-on-other-vectors", lambda: "%s gives %r with vectors of %r, but %r with the vectors of exactly the managed data" % (
            where, sorted(value.items()), keys, sorted(other.items())))


WORLD = C12()
