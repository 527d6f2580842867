from math import comb

from sim import algos, gen, reference
from sim.core import Violation, ensure, must
from sim.model import CL, ML
from sim.worlds.compute import ComputeWorld, check_labels, generic_vectors, partition


class C17(ComputeWorld):
    quick_runs = 10000
    thorough_runs = 300000
    rule = ("a run is a session in which annotations, data changes, restarts and clusterings alternate; every result of hierarchical clustering, every later cut of it and every k-means result is compared with "
            "an executable reference that starts from the closure of the constraints and explores every tie and every initial choice; non-trivial: a result was compared in a state with constraints of both types")
    algorithms = ("kmeans", "kmeans", "hierarchical", "hierarchical", "hierarchical")
    probes_wanted = ("hierarchical", "kmeans", "ward", "average", "complete", "single", "cut-size", "cut-iteration", "tie", "both-kinds", "more-groups-than-asked", "stopped", "separated", "reused",
                     "several-outcomes", "superset", "tree", "trajectory", "late-cut")
    n_range = (2, 7)

    def situation(self, rng):
        n = gen.size(rng, self.n_range, (9, 14), 0.12, 0.0)
        pool = gen.id_pool(rng, n + rng.randint(0, 2))
        keys = list(pool) + ["other %d" % k for k in range(rng.choice([0, 0, 1, 3]))]
        if rng.chance(0.6):
            rng.shuffle(keys)
        if rng.chance(0.35):
            return pool, n, gen.vectors_plan(rng, keys, rng.choice(["grid", "grid", "line", "spread", "blobs"]))
        return pool, n, generic_vectors(rng, keys)

    def config(self, rng, n):
        cfg = super().config(rng, n)
        cfg["nb"] = rng.choice([2, 2, 3, 3, 4, 5, max(2, n), n + 2])
        if cfg["algo"] == "kmeans" and rng.chance(0.5):
            cfg["params"]["tolerance"] = rng.choice([0.0, 0.01, 0.1, 0.3, 1.0, 3.0, 10.0, 100.0])
        if cfg["algo"] == "hierarchical":
            cfg["cuts"] = [[max(2, rng.randint(2, n + 1)), rng.choice(["size", "iteration", None])] for _ in range(rng.randint(0, 3))]
        cfg["late"] = [[rng.randint(2, n + 1), rng.choice(["size", "iteration"])] for _ in range(rng.choice([0, 1, 2]))]
        return cfg

    def judge(self, plan, ctx, m, ref, vectors, obj, cfg, where):
        algo, v = cfg["algo"], plan["vectors"]["v"]
        if not hasattr(ctx, "trees"):
            ctx.trees = []
        for kept in ctx.trees:  # hierarchies computed before the session went on
            for nb, by in cfg["late"]:
                kept[3] = self.cut(ctx, kept[0], kept[1], v, kept[3], nb, by, kept[2] + ", cut later (before %s)" % where.split(":")[0])
                ctx.probe("late-cut")
        ctx.trees = [kept for kept in ctx.trees if kept[0] is not obj]
        while algo == "kmeans" and cfg["nb"] > 2 and comb(len(ref.ids), min(cfg["nb"], len(ref.ids))) > 130:
            cfg = dict(cfg, nb=cfg["nb"] - 1)
        if algo == "kmeans" and comb(len(ref.ids), min(cfg["nb"], len(ref.ids))) > 300:
            ctx.probe("too-many-initial-choices")
            return
        result = must(where, algos.call, obj, cfg, m, vectors, None, plan["verbose"])
        check_labels(where, result, ref.ids)
        got = reference.canonical(partition(result))
        ctx.event(algo, got)
        try:
            if algo == "kmeans":
                explained = self.explain(ref, v, cfg)
                wanted = set(explained.values())
                if None in wanted and got not in wanted:
                    raise reference.Unclear
                wanted.discard(None)
            else:
                wanted, roots = self.hierarchy(plan, ctx, ref, v, cfg)
        except reference.Unclear:
            ctx.probe("unclear")
            return
        self.note(ctx, ref, vectors, cfg, wanted, got)
        ensure(got in wanted, "not-the-algorithm", lambda: "%s with vectors %r gives %s, but the algorithm gives %s" % (
            where, {x: v[x] for x in ref.ids}, self.show(got), " or ".join(self.show(w) for w in sorted(wanted)[:6])))
        if algo == "kmeans":
            self.trajectory(ctx, m, ref, v, vectors, cfg, {c for c, w in explained.items() if w in (got, None)}, where)
        if algo == "hierarchical":
            roots = self.tree(ctx, obj, roots, where)
            for nb, by in cfg.get("cuts", ()):
                roots = self.cut(ctx, obj, list(ref.ids), v, roots, nb, by, where)
            ctx.trees.append([obj, list(ref.ids), where, roots])

    def cut(self, ctx, obj, ids, v, roots, nb, by, where):
        """Cuts the hierarchy and returns the admissible trees that explain the result too."""
        cut = must(where + " cut", obj.compute_predicted_clusters, nb_clusters=nb, **({"by": by} if by else {}))
        check_labels("%s, cut into %d by %s" % (where, nb, by), cut, ids)
        got = reference.canonical(partition(cut))
        ctx.event("cut", nb, by, got)
        try:
            sets = [(root, reference.cuts(root, nb, by)) for root in roots]
        except reference.Unclear:
            return roots
        ctx.probe("cut-%s" % (by or "size"))
        left = [root for root, s in sets if got in s]
        ensure(left, "not-the-algorithm", lambda: "%s with vectors %r, cut into %d by %s, gives %s, but the algorithm gives %s" % (
            where, {x: v[x] for x in ids}, nb, by or "size", self.show(got), " or ".join(self.show(w) for w in sorted(set().union(*(s for _, s in sets)))[:6])))
        return left

    def hierarchy(self, plan, ctx, ref, v, cfg):
        linkage = cfg["params"]["linkage"]
        exact = plan["vectors"]["style"] != "generic" and linkage in ("single", "complete")
        roots = reference.trees(linkage, ref, v, exact)
        ctx.probe(linkage)
        if len(roots) > 1:
            ctx.probe("tie")
        wanted = set()
        for root in roots:
            wanted |= reference.cuts(root, min(cfg["nb"], len(ref.ids)), "size")
            if len(root.children) > 2:
                ctx.probe("separated")
        return wanted, roots

    @staticmethod
    def explain(ref, v, cfg):
        p = cfg["params"]
        return reference.kmeans(ref, v, cfg["nb"], p.get("max_iteration", 150), p.get("tolerance", 1e-4))

    def trajectory(self, ctx, m, ref, v, vectors, cfg, choices, where):
        """With the same seed, one choice of initial data explains the results for every iteration limit."""
        if "random_seed" not in cfg["params"]:
            return
        for limit in (1, 2, 4):
            other = dict(cfg, params=dict(cfg["params"], max_iteration=limit))
            got = reference.canonical(partition(must(where + " limited to %d iterations" % limit, algos.call, algos.make(other), other, m, vectors)))
            ctx.event("limited", limit, got)
            ctx.probe("trajectory")
            choices = {c for c, w in self.explain(ref, v, other).items() if w in (got, None) and c in choices}
            ensure(choices, "not-the-algorithm", lambda: "%s with vectors %r: limited to %d iterations it gives %s, which no initial data that explain its other results give" % (
                where, {x: v[x] for x in ref.ids}, limit, self.show(got)))

    def tree(self, ctx, obj, roots, where):
        """The dictionary of the hierarchy is one of the admissible trees."""
        given = must(where + ": dictionary of the hierarchy", lambda: obj.clustering_root.to_dict())
        try:
            key, _ = self.tree_key(given)
        except (KeyError, TypeError, AttributeError) as err:
            raise Violation("wrong-tree", "%s: the dictionary of the hierarchy is %r (%s: %s)" % (where, given, type(err).__name__, err))
        ctx.probe("tree")
        same = [root for root in roots if root.key() == key]
        ensure(same, "wrong-tree", lambda: "%s: the tree of merges (members, iteration, children) is %r, but the algorithm gives %s" % (where, key, " or ".join(repr(r.key()) for r in roots[:3])))
        return same

    def tree_key(self, node):
        below = [self.tree_key(c) for c in node["children"]]
        depth = 1 + max(d for _, d in below) if below else 0
        if node["cluster_inverse_depth"] != depth:
            raise KeyError("inverse depth %r instead of %d" % (node["cluster_inverse_depth"], depth))
        return (tuple(sorted(node["members"])), node["clustering_iteration"], tuple(sorted(k for k, _ in below))), depth

    @staticmethod
    def show(groups):
        return " | ".join(" ".join(map(repr, g)) for g in groups)

    def note(self, ctx, ref, vectors, cfg, wanted, got):
        ctx.probe(cfg["algo"])
        if set(ref.cons.values()) == {ML, CL}:
            ctx.probe("both-kinds")
            ctx.nontrivial = True
        if len(got) > cfg["nb"]:
            ctx.probe("more-groups-than-asked")
        if cfg["algo"] == "hierarchical" and len(got) < min(cfg["nb"], len(ref.ids)):
            ctx.probe("stopped")
        if len(wanted) > 1:
            ctx.probe("several-outcomes")
        if set(vectors) != set(ref.ids):
            ctx.probe("superset")
        ctx.state([cfg["algo"], len(got), len(wanted), ref.shape()])


WORLD = C17()
