"""Sessions that cluster and sample along a history of annotations, restarts and data changes."""
from fractions import Fraction

from sim import algos, gen, seams, sut
from sim.core import Violation, attempt, ensure, must
from sim.model import CL, ML, Ref
from sim.worlds.base import World


def generic_vectors(rng, keys):
    """Vectors in general position (some in groups), so that distances hardly ever tie."""
    dims = rng.choice([1, 2, 2, 3, 4])
    scale = rng.choice([1, 1, 10, 100])
    centres = [[rng.uniform(-1, 1) * 3 for _ in range(dims)] for _ in range(rng.randint(2, 4))] if rng.chance(0.5) else [[0.0] * dims]
    v = {}
    for x in keys:
        c = rng.choice(centres)
        v[x] = [round((a + rng.uniform(-1, 1)) * scale, 4) for a in c]
    return {"style": "generic", "v": v}


def partition(clusters):
    groups = {}
    for x, c in clusters.items():
        groups.setdefault(c, []).append(x)
    return sorted(sorted(g) for g in groups.values())


def check_labels(where, result, ids, negatives=False):
    """One label per managed datum, numbered by first appearance in the order of identifiers."""
    ensure(isinstance(result, dict), "wrong-result", lambda: "%s returned a %s" % (where, type(result).__name__))
    ensure(sorted(result) == sorted(ids), "wrong-data", lambda: "%s labels %r although the managed data are %r" % (where, sorted(result), sorted(ids)))
    seen, negative = [], set()
    for x in sorted(ids):
        c = result[x]
        ensure(isinstance(c, int) or hasattr(c, "__index__"), "wrong-label", lambda: "%s: label of %r is %r" % (where, x, c))
        if negatives and c < 0:
            ensure(c not in negative, "wrong-noise", lambda: "%s: the noise label %r is given twice" % (where, c))
            negative.add(c)
        elif c not in seen:
            ensure(c == len(seen), "not-canonical", lambda: "%s: labels are not numbered by first appearance: %r" % (where, dict(sorted(result.items()))))
            seen.append(c)
    return len(seen), len(negative)


def check_constraints(where, result, ref, ml=True, cl=True):
    comp, _, _ = ref.closure()
    for a in ref.ids:
        for b in ref.ids:
            if a >= b or a not in result or b not in result:
                continue
            same = result[a] == result[b]
            t = ref.inferred(a, b)
            if ml and t == ML and not same:
                raise Violation("must-link-broken", "%s separates %r and %r (must-link): %r" % (where, a, b, result))
            if cl and t == CL and same:
                raise Violation("cannot-link-broken", "%s joins %r and %r (cannot-link): %r" % (where, a, b, result))


def distinct_centres(ref, vectors_plan):
    """Number of distinct centroids of the must-link components, computed exactly."""
    out = set()
    for comp in ref.closure()[1]:
        rows = [vectors_plan["v"][x] for x in comp]
        out.add(tuple(Fraction(sum(col), len(rows)) for col in zip(*rows)))
    return len(out)


class ComputeWorld(World):
    warm = "clustering"
    shrink_lists = ("steps",)
    algorithms = algos.CLUSTERINGS
    p_sample = 0.0
    seeded = None
    real = ("BinaryConstraintsManager, every clustering algorithm and sampling strategy with numpy, scipy, scikit-learn and networkx (real code)",)
    stub = ("process entropy and global random generators (seeded by the plan)", "restart (save, then load of the file)")
    assumptions = ("vectors are finite and all managed data have one",)
    n_range = (2, 8)

    def situation(self, rng):
        n = gen.size(rng, self.n_range, (12, 20), 0.03, 0.0)
        pool = gen.id_pool(rng, n + rng.randint(0, 2))
        keys = list(pool) + ["other %d" % k for k in range(rng.choice([0, 0, 1, 3]))]
        if rng.chance(0.6):
            rng.shuffle(keys)
        return pool, n, gen.vectors_plan(rng, keys)

    def generate(self, rng, tier, i):
        pool, n, vectors = self.situation(rng)
        ref = Ref(pool[:n])
        truth = {x: rng.randrange(3) for x in pool} if rng.chance(0.3) else None
        w = {"unknown": 0, "badtype": 0, "self": 0, "dupid": 0, "contradict": 0.3, "newid": 0.6, "rmid": 0.6}
        flavour = rng.random()
        if flavour < 0.12:
            w.update(add=0, merge=0, repeat=0)  # no constraint at all
        steps = []
        for _ in range(rng.randint(1, 4)):
            for op in gen.history(rng, ref, rng.choice([0, 2, 5, 10, 20] if n <= 12 else [0, 5, n // 2, n, 2 * n]), pool, weights=w, truth=truth):
                if op[0] == "rmid" and len(ref.ids) < 3:
                    continue
                steps.append(op)
            if rng.chance(0.15):
                steps.append(["cycle"])
            earlier = [s for s in steps if s[0] == "run"]
            if earlier and rng.chance(0.3):
                again = rng.choice(earlier)  # the same object once more
                again[2] = again[2] or 0
                steps.append(["run", again[1], again[2], rng.randrange(2**32)])
            else:
                steps.append(["run", self.config(rng, n), rng.choice([None, None, 0, 1]), rng.randrange(2**32)])
        return {"ids": pool[:n], "vectors": vectors, "steps": steps, "verbose": rng.chance(0.05)}

    def config(self, rng, n):
        return algos.config(rng, self.seeded, n, self.p_sample, self.algorithms)

    def execute(self, plan, ctx):
        m, ref = must("creating a manager", sut.new_manager, plan["ids"]), Ref(plan["ids"])
        vectors = gen.make_vectors(plan["vectors"])
        objects = {}
        for k, step in enumerate(plan["steps"]):
            if step[0] == "cycle":
                path = ctx.path()
                must("saving", m.to_json, path)
                m = must("loading", sut.load, path)
                ctx.fault("process-restart")
                objects = {}
            elif step[0] == "run":
                _, cfg, reuse, ambient = step
                if len(ref.ids) < 2:
                    continue
                seams.ambient(ambient)
                ctx.fault("entropy:reseeded")
                key = None
                if reuse is not None:
                    key = repr((reuse, cfg["algo"], sorted(cfg["params"].items())))
                obj = objects.get(key) if key else None
                if obj is None:
                    obj = must("creating %s" % cfg["algo"], algos.make, cfg)
                    if key:
                        objects[key] = obj
                else:
                    ctx.probe("reused")
                where = "step %d: %s %r nb=%r on %r" % (k, cfg["algo"], cfg["params"], cfg["nb"], sorted(ref.ids))
                self.judge(plan, ctx, m, ref, vectors, obj, cfg, where)
            else:
                if step[0] == "rmid" and len(ref.ids) <= 2:
                    continue
                gen.apply_ref(ref, step)
                attempt(gen.call_manager, m, step)

    def judge(self, plan, ctx, m, ref, vectors, obj, cfg, where):
        raise NotImplementedError

    def simplify(self, plan):
        used = {x for s in plan["steps"] if s[0] not in ("run", "cycle") for x in s[1:3]}
        for x in plan["ids"]:
            if x not in used and len(plan["ids"]) > 2:
                yield dict(plan, ids=[y for y in plan["ids"] if y != x])
        for k, s in enumerate(plan["steps"]):
            if s[0] == "run" and s[2] is not None:
                yield dict(plan, steps=plan["steps"][:k] + [["run", s[1], None, s[3]]] + plan["steps"][k + 1 :])
        v = plan["vectors"]["v"]
        for x in v:
            if x not in plan["ids"] and x not in used:
                yield dict(plan, vectors=dict(plan["vectors"], v={y: v[y] for y in v if y != x}))
