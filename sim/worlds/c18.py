from collections import Counter
from itertools import combinations
from math import log
import random

from sim import algos, reference, seams
from sim.core import ensure, must
from sim.model import pair
from sim.proc import Fresh
from sim.worlds.base import World

BOUND = 30.0  # natural logarithm: a fair draw fails one comparison with probability below e**-30


def surprise(count, total, p):
    """Chernoff bound, as -log of the probability that a fair draw deviates at least this much."""
    q = count / total
    out = 0.0
    if q > 0:
        out += q * log(q / p)
    if q < 1:
        out += (1 - q) * log((1 - q) / (1 - p)) if p < 1 else float("inf")
    return total * out


def eligible_pairs(ref, label, cfg):
    clusters, _, no_added, no_inferred = algos.restrictions(cfg)
    out = []
    for a, b in combinations(sorted(ref.ids), 2):
        if clusters == "same_cluster" and label[a] != label[b] or clusters == "different_clusters" and label[a] == label[b]:
            continue
        if no_added and pair(a, b) in ref.cons or no_inferred and ref.inferred(a, b) is not None:
            continue
        out.append((a, b))
    return out


class C18(World):
    warm = "clustering"
    quick_runs = 900
    thorough_runs = 30000
    rule = ("a run reaches a session state, then repeats one random sampling or k-means initialisation some 300 times under one mode of fault (generators and clock reset before each call, process forked for each call, "
            "object reused, other seed each time) and compares the frequency of every eligible pair (and pair of pairs) or outcome with its fair value by a Chernoff bound of e**-30; non-trivial: at least three outcomes were possible")
    probes_wanted = ("sample", "kmeans", "new", "reused", "reset", "forked", "forked-after-use", "seeds", "restricted", "joint", "excluded")
    real = ("BinaryConstraintsManager, sampling strategies and k-means (real code)",)
    stub = ("process entropy (each simulated process and call draws from the plan's stream)", "clock", "process-wide random generators (reset by the plan)")
    assumptions = ("the operating system's entropy is fair",)

    def generate(self, rng, tier, i):
        what = rng.weighted([("sample", 3), ("kmeans", 2)])
        sit = algos.situation(rng, (3, 7) if what == "sample" else (3, 6), (0, 8), p_big=0.05 if what == "sample" else 0.0, big=(9, 12), style="cloud" if what == "kmeans" else None, dims=3 if what == "kmeans" else None)
        if rng.chance(0.5):
            sit["clusters"] = {x: rng.randrange(2) for x in sit["clusters"]}
        mode = rng.weighted([("new", 2), ("reused", 3), ("reset", 3), ("forked", 1), ("forked-after-use", 1), ("seeds", 2)])
        params = {}
        if what == "sample":
            cfg = {"what": "sample", "algo": rng.choice(["random", "random_in_same_cluster", None]), "params": params, "nb": 1}
            if cfg["algo"] is None:
                params["clusters_restriction"] = rng.choice([None, "same_cluster", "different_clusters"])
            if rng.chance(0.2):
                params["without_added_constraints"] = False
            if rng.chance(0.2):
                params["without_inferred_constraints"] = False
        else:
            cfg = {"what": "cluster", "algo": "kmeans", "params": {"max_iteration": rng.choice([1, 1, 2])}, "nb": rng.choice([2, 2, 3])}
        return {"sit": sit, "cfg": cfg, "mode": mode, "share": rng.choice([0.12, 0.2, 0.3, 0.5]), "first_seed": rng.choice([0, 1, rng.randrange(2**32)]), "stride": rng.choice([1, 1, 7919]), "reset": rng.randrange(2**32)}

    def execute(self, plan, ctx):
        sit, mode = plan["sit"], plan["mode"]
        m, ref = algos.build(sit)
        if len(ref.ids) < 2:
            return
        vectors, label, cfg = algos.vectors_of(sit), sit["clusters"], dict(plan["cfg"])
        ctx.probe(cfg["what"] if cfg["what"] == "sample" else "kmeans")
        ctx.probe(mode)
        if cfg["what"] == "sample":
            fair, joint = self.fair_sample(plan, ctx, ref, label, cfg)
        else:
            fair, joint = self.fair_kmeans(ctx, ref, sit["vectors"]["v"], cfg), None
        if not fair:
            return
        total = min(900, int(1 + 34 / min(fair.values()))) if min(fair.values()) < 1 else 3
        where = "%s %r nb=%r (%s, %d calls) on %r" % (cfg["algo"], cfg["params"], cfg["nb"], mode, total, sorted(ref.ids))
        if len(fair) > 2:
            ctx.nontrivial = True
        counts, pairs = Counter(), Counter()
        for outcome in self.draws(plan, ctx, m, vectors, label, cfg, total, where):
            ctx.event(outcome)
            if cfg["what"] == "sample":
                counts.update(outcome)
                pairs.update(combinations(sorted(outcome), 2))
            else:
                counts[outcome] += 1
        ctx.state([cfg["algo"], mode, len(fair), total])
        for thing in sorted(set(counts) - set(fair)):
            ensure(False, "not-possible", lambda: "%s gave %r, which is not a possible outcome" % (where, thing))
        for thing, p in sorted(fair.items()):
            ensure(surprise(counts[thing], total, p) < BOUND, "unfair", lambda: "%s: %r came %d times although %.1f times is fair (all: %r)" % (
                where, thing, counts[thing], p * total, sorted(counts.items())[:12]))
        if joint:
            ctx.probe("joint")
            for two in combinations(sorted(fair), 2):
                ensure(surprise(pairs[two], total, joint) < BOUND + 6, "unfair", lambda: "%s: %r came together %d times although %.1f times is fair" % (where, two, pairs[two], joint * total))

    def fair_sample(self, plan, ctx, ref, label, cfg):
        eligible = eligible_pairs(ref, label, cfg)
        if not eligible:
            return None, None
        if len(eligible) < len(ref.ids) * (len(ref.ids) - 1) // 2:
            ctx.probe("excluded")
        if algos.restrictions(cfg)[0]:
            ctx.probe("restricted")
        k = min(len(eligible), max(1, round(plan["share"] * len(eligible)), -(-len(eligible) // 9)))
        cfg["nb"] = k
        p = k / len(eligible)
        return {x: p for x in eligible}, (k * (k - 1) / (len(eligible) * (len(eligible) - 1)) if 2 <= k < len(eligible) else None)

    def fair_kmeans(self, ctx, ref, v, cfg):
        outcomes = reference.kmeans(ref, v, cfg["nb"], cfg["params"]["max_iteration"], 1e-4)
        if None in outcomes.values():
            ctx.probe("unclear")
            return None
        counts = Counter(outcomes.values())
        return {w: c / len(outcomes) for w, c in counts.items()}

    def draws(self, plan, ctx, m, vectors, label, cfg, total, where):
        mode = plan["mode"]
        obj = must(where, algos.make, cfg)
        for k in range(total):
            if mode == "seeds":
                cfg = dict(cfg, params=dict(cfg["params"], random_seed=(plan["first_seed"] + k * plan["stride"]) % 2**32))
            if mode in ("seeds", "new"):
                obj = must(where, algos.make, cfg)
            if mode == "reset":
                self.reset(plan["reset"])
                ctx.fault("generators-and-clock-reset")
                if k % 2:
                    obj = must(where, algos.make, cfg)
            if mode.startswith("forked"):
                if k == 0 and mode == "forked-after-use":
                    self.one(obj, cfg, m, vectors, label, where)
                other = Fresh(lambda entropy: (seams.new_entropy(entropy), self.plain(self.one(obj, cfg, m, vectors, label, where)))[1])
                ctx.fault("process-forked")
                outcome = self.unplain(cfg, other.call(plan["reset"] + k))
            else:
                outcome = self.one(obj, cfg, m, vectors, label, where)
            yield outcome

    @staticmethod
    def plain(outcome):
        return [list(x) for x in outcome]

    @staticmethod
    def unplain(cfg, outcome):
        return [tuple(x) for x in outcome] if cfg["what"] == "sample" else tuple(tuple(x) for x in outcome)

    @staticmethod
    def reset(seed):
        import numpy as np

        random.seed(seed)
        np.random.seed(seed % 2**32)
        seams._Clock.now = 1_600_000_000.0 + seed % 1000

    @staticmethod
    def one(obj, cfg, m, vectors, label, where):
        value = must(where, algos.call, obj, cfg, m, vectors, dict(label))
        if cfg["what"] == "sample":
            return [tuple(p) for p in value]
        groups = {}
        for x, c in value.items():
            groups.setdefault(c, []).append(x)
        return reference.canonical(groups.values())

    def simplify(self, plan):
        for sit in algos.shrink_situation(plan["sit"]):
            yield dict(plan, sit=sit)


WORLD = C18()
