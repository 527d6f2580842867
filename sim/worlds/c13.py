from sim import algos
from sim.core import ensure, must
from sim.model import pair
from sim.worlds.compute import ComputeWorld


class C13(ComputeWorld):
    quick_runs = 10000
    thorough_runs = 400000
    p_sample = 1.0
    rule = ("a run is a session in which annotations, data changes, restarts and samplings alternate; every returned list is compared with the exact set of eligible pairs (integer distances); "
            "non-trivial: some pairs were eligible and some were not")
    probes_wanted = ("random", "closest", "farthest", "same", "different", "fewer-eligible", "ties-at-limit", "none-eligible", "added-allowed", "unseeded", "reused")

    def generate(self, rng, tier, i):
        plan = super().generate(rng, tier, i)
        k = rng.randint(1, 4)
        low = rng.choice([0, 0, -3])
        plan["clusters"] = {x: low + rng.randrange(k) for x in plan["vectors"]["v"]}
        return plan

    def judge(self, plan, ctx, m, ref, vectors, obj, cfg, where):
        clusters, distance, no_added, no_inferred = algos.restrictions(cfg)
        label, v, nb = plan["clusters"], plan["vectors"]["v"], cfg["nb"]
        where = "%s clusters=%r" % (where, label)
        got = must(where, algos.call, obj, cfg, m, vectors, dict(label))
        ensure(isinstance(got, list), "wrong-result", lambda: "%s returned a %s" % (where, type(got).__name__))
        got = [tuple(p) for p in got]
        eligible, total = set(), 0
        for a in ref.ids:
            for b in ref.ids:
                if a >= b:
                    continue
                total += 1
                if clusters == "same_cluster" and label[a] != label[b] or clusters == "different_clusters" and label[a] == label[b]:
                    continue
                if no_added and pair(a, b) in ref.cons or no_inferred and ref.inferred(a, b) is not None:
                    continue
                eligible.add((a, b))
        ctx.event(cfg["algo"], cfg["params"], nb, got)
        ctx.state([clusters, distance, no_added, no_inferred, len(got), len(eligible), ref.shape()])
        ctx.probe({"closest_neighbors": "closest", "farthest_neighbors": "farthest", None: "random"}[distance])
        if clusters:
            ctx.probe("same" if clusters == "same_cluster" else "different")
        if not no_added or not no_inferred:
            ctx.probe("added-allowed")
        if "random_seed" not in cfg["params"]:
            ctx.probe("unseeded")
        if 0 < len(eligible) < total:
            ctx.nontrivial = True
        if nb and len(eligible) < nb:
            ctx.probe("none-eligible" if not eligible else "fewer-eligible")
        for p in got:
            ensure(len(p) == 2 and p[0] in ref.ids and p[1] in ref.ids, "not-managed", lambda: "%s returned %r, which is not a pair of managed data" % (where, p))
            ensure(p[0] < p[1], "wrong-order", lambda: "%s returned %r: identifiers equal or not in order" % (where, p))
            ensure(p in eligible, "not-eligible", lambda: "%s returned %r, which is not eligible (inferred %r, added %r)" % (where, p, ref.inferred(*p), ref.cons.get(p)))
        ensure(len(set(got)) == len(got), "repeated-pair", lambda: "%s returned a pair twice: %r" % (where, got))
        ensure(len(got) == min(nb, len(eligible)), "wrong-number", lambda: "%s returned %d pairs although %d were asked and %d are eligible" % (where, len(got), nb, len(eligible)))
        if distance is not None:
            def squared(p):
                return sum((x - y) ** 2 for x, y in zip(v[p[0]], v[p[1]]))

            want = sorted((squared(p) for p in eligible), reverse=distance == "farthest_neighbors")
            if 0 < nb < len(want) and want[nb - 1] == want[nb]:
                ctx.probe("ties-at-limit")
            have = [squared(p) for p in got]
            ensure(have == want[:nb], "wrong-distances", lambda: "%s returned pairs at squared distances %r instead of %r" % (where, have, want[:nb]))


WORLD = C13()
