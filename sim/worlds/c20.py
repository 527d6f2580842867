import base64
import copy
import json
import pickle

from sim import algos, gen, seams
from sim.core import attempt, ensure, must
from sim.model import check_core, views
from sim.proc import Fresh
from sim.worlds.base import World

HOWS = ("deepcopy", "pickle2", "pickle3", "pickle4", "pickle5")
EDITS = {"unknown": 0.2, "badtype": 0.2, "self": 0.2, "dupid": 0.2, "contradict": 1, "newid": 0.6, "rmid": 0.6}


class Refused(Exception):
    """The copy cannot be made; nothing is claimed then."""


def freeze(value, protocol):
    try:
        return pickle.dumps(value, protocol)
    except Exception:
        raise Refused


def duplicate(value, how):
    if how == "deepcopy":
        try:
            return copy.deepcopy(value)
        except Exception:
            raise Refused
    return pickle.loads(freeze(value, int(how[-1])))


def run(obj, cfg, m, vectors, clusters, cut=None):
    out = {"got": algos.outcome(obj, cfg, m, vectors, clusters), "cut": None}
    if cut:
        out["cut"] = cut_of(obj, cut)
    return json.loads(json.dumps(out))


def answers(m):
    return json.loads(json.dumps([m.get_list_of_managed_data_IDs(), views(m)]))


def cut_of(obj, cut):
    tag, value = attempt(obj.compute_predicted_clusters, nb_clusters=cut[0], by=cut[1])
    return json.loads(json.dumps([tag, algos.plain(value) if tag == "ok" else type(value).__name__]))


class Branch:
    """One line of the session: its operations so far, and what each of its objects computed last, at which point."""

    def __init__(self, ops=(), last=None):
        self.ops, self.last = list(ops), dict(last or {})

    def copy(self):
        return Branch(self.ops, self.last)


def walk(plan):
    """For each step what has to be computed anew: (operations before, configuration, cut) or None. Follows the branches without running anything."""
    branches, kept, needs = [Branch()], {}, []
    for s in plan["steps"]:
        b = s["b"] % len(branches)
        x, need = branches[b], None
        if "op" in s:
            x.ops.append(s["op"])
        elif "copy" in s:
            if len(branches) < 4:
                branches.append(x.copy())
        elif "keep" in s:
            kept[b] = x.copy()
        elif "crash" in s:
            if b in kept:
                branches[b] = kept[b].copy()
        elif "away" in s:
            need = (list(x.ops), s["away"], None, x.last.get(s["away"]))
        elif "run" in s:
            x.last[s["run"]] = list(x.ops)
            need = (list(x.ops), s["run"], None, None)
        elif "cut" in s and s["slot"] in x.last:
            need = (x.last[s["slot"]], s["slot"], s["cut"], None)
        needs.append(need)
    return needs


class C20(World):
    warm = "clustering"
    quick_runs = 3500
    thorough_runs = 90000
    shrink_lists = ("steps",)
    rule = ("a run is a session whose manager, clustering and sampling objects are copied (deep copies, pickles of every protocol) at seeded points; the branches go on with their own operations, calls and cuts, some crash and "
            "restart from their last pickle, some are restored in another process; each branch is compared with the model of its own history and with new objects over the replayed history in a pristine process; "
            "non-trivial: two branches with different histories, of which one computed something with a copied object that had been used")
    real = ("BinaryConstraintsManager, every clustering algorithm and sampling strategy, Python's copy and pickle (real code)",)
    stub = ("process restart and other process (forked from the pristine state, reached only by the pickle)", "process entropy and random generators")
    probes_wanted = HOWS + ("op", "run", "cut", "away", "crash", "diverged", "copied-used", "sample") + algos.CLUSTERINGS
    assumptions = ("a copy that cannot be made at all is no violation", "spectral clustering: the affinity has no repeated eigenvalues (see the known finding of C08)")

    def generate(self, rng, tier, i):
        sit = algos.situation(rng, (2, 8), (0, 8), p_big=0.03)
        pool = sorted(sit["vectors"]["v"])
        cfgs = [algos.config(rng, True, 6, 0.25) for _ in range(rng.randint(1, 3))]
        if rng.chance(0.4):
            cfgs[0] = algos.clustering_config(rng, ("hierarchical",), True, 6)
        refs, kept, steps, states = [algos.ref_of(sit)], {}, [], []
        weights = {"op": rng.choice([3, 6, 10]), "copy": 2, "run": 3, "cut": 1.5, "keep": 0.7, "crash": 0.7, "away": 1}
        script = ["run", "copy"] if rng.chance(0.6) else []  # copies of used objects
        for j in range(rng.randint(3, 16)):
            b = rng.randrange(len(refs))
            kind = script[j] if j < len(script) else rng.weighted(list(weights.items()))
            s = {"b": b}
            if kind == "op":
                ops = gen.history(rng, refs[b], 1, pool, weights=dict(EDITS, rmid=EDITS["rmid"] if len(refs[b].ids) > 3 else 0))
                if not ops:
                    continue
                s["op"] = ops[0]
            elif kind == "copy":
                if len(refs) == 4:
                    continue
                s.update(copy=rng.choice(HOWS), together=rng.chance(0.5))
                refs.append(refs[b].copy())
            elif kind == "keep":
                s["keep"] = rng.choice(HOWS[1:])
                kept[b] = refs[b].copy()
            elif kind == "crash":
                s["crash"] = True
                if b in kept:
                    refs[b] = kept[b].copy()
            else:
                slot = rng.randrange(len(cfgs))
                if kind == "cut":
                    slot = 0
                    s.update(cut=[rng.choice([2, 2, 3, 4, 6]), rng.choice(["size", "iteration"])], slot=0)
                elif kind == "away":
                    s.update(away=slot, how=rng.choice(HOWS[1:]), cut2=[rng.choice([2, 3, 4]), rng.choice(["size", "iteration"])])
                else:
                    s["run"] = slot
                states.append((refs[b].copy(), sit["vectors"]))
            steps.append(s)
        cfgs = [algos.settled(cfg, *states) for cfg in cfgs]
        return {"sit": sit, "cfgs": cfgs, "steps": steps, "ambient2": rng.randrange(2**32)}

    def execute(self, plan, ctx):
        sit, cfgs = plan["sit"], plan["cfgs"]
        needs = walk(plan)
        vectors, clusters = algos.vectors_of(sit), dict(sit["clusters"])

        def rebuilt(ops):
            return algos.build(dict(sit, ops=sit["ops"] + ops))[0]

        def alone(k):
            """What the step gives with new objects over the same history, in a pristine process."""
            ops, slot, cut, last = needs[k]
            seams.ambient(plan["ambient2"])
            m = rebuilt(ops)
            if not m.get_list_of_managed_data_IDs():
                return None
            out = run(algos.make(cfgs[slot]), cfgs[slot], m, vectors, clusters, cut)
            out["state"] = answers(m)
            if last is not None and cfgs[slot]["algo"] == "hierarchical":
                out["cut"] = run(algos.make(cfgs[slot]), cfgs[slot], rebuilt(last), vectors, clusters, plan["steps"][k]["cut2"])["cut"]
            return out

        def away(arg):
            """The step in another process, which gets the pickle only."""
            k, data = arg
            slot = needs[k][1]
            seams.ambient(plan["ambient2"] ^ 1)
            m, obj = pickle.loads(base64.b64decode(data))
            out = {"state": answers(m), "cut": None}
            if needs[k][3] is not None and cfgs[slot]["algo"] == "hierarchical":
                out["cut"] = cut_of(obj, plan["steps"][k]["cut2"])
            out["got"] = run(obj, cfgs[slot], m, vectors, clusters)["got"]
            return out

        helpers = [(Fresh(alone) if need else None, Fresh(away) if need and "away" in plan["steps"][k] else None) for k, need in enumerate(needs)]
        m, ref = algos.build(sit)
        branches, kept, used, copied = [{"m": m, "ref": ref, "o": {k: algos.make(c) for k, c in enumerate(cfgs)}}], {}, [set()], [set()]
        for k, s in enumerate(plan["steps"]):
            b = s["b"] % len(branches)
            x = branches[b]
            where = "step %d, branch %d" % (k, b)
            try:
                if "op" in s:
                    ctx.probe("op")
                    tag, _ = attempt(gen.call_manager, x["m"], s["op"])
                    fine = gen.apply_ref(x["ref"], s["op"])
                    ctx.event(b, s["op"], tag)
                    ensure((tag == "ok") == bool(fine), "wrong-reaction", lambda: "%s: %r was %s" % (where, s["op"], "accepted" if tag == "ok" else "refused"))
                elif "copy" in s:
                    if len(branches) < 4:
                        if s["together"]:
                            m2, o2 = duplicate((x["m"], x["o"]), s["copy"])
                        else:
                            m2, o2 = duplicate(x["m"], s["copy"]), {j: duplicate(o, s["copy"]) for j, o in x["o"].items()}
                        ctx.probe(s["copy"])
                        ctx.event("copy", b, s["copy"])
                        ensure(answers(x["m"]) == answers(m2), "copy-differs", lambda: "%s: the copy (%s) answers %r, the original %r" % (where, s["copy"], answers(m2), answers(x["m"])))
                        branches.append({"m": m2, "ref": x["ref"].copy(), "o": o2})
                        used.append(set(used[b]))
                        copied.append(set(used[b]))
                elif "keep" in s:
                    kept[b] = (freeze((x["m"], x["o"]), int(s["keep"][-1])), x["ref"].copy(), set(used[b]))
                    ctx.event("keep", b)
                elif "crash" in s:
                    if b in kept:
                        ctx.probe("crash")
                        ctx.fault("process-crash-restart")
                        ctx.event("crash", b)
                        m2, o2 = pickle.loads(kept[b][0])
                        branches[b] = {"m": m2, "ref": kept[b][1].copy(), "o": o2}
                        used[b], copied[b] = set(kept[b][2]), set(kept[b][2])
                elif needs[k]:
                    self.compute(plan, ctx, k, s, x, helpers[k], needs[k], where, vectors, clusters)
                    slot = needs[k][1]
                    if slot in copied[b] and "away" not in s:
                        ctx.probe("copied-used")
                        if len({json.dumps(y["ref"].shape()) + str(sorted(y["ref"].cons.items())) for y in branches}) > 1:
                            ctx.nontrivial = True
                    if "run" in s:
                        used[b].add(slot)
            except Refused:
                ctx.probe("refused-copy")
                return
            if len(branches) > 1 and any(y["ref"].cons != branches[0]["ref"].cons for y in branches[1:]):
                ctx.probe("diverged")
            for j, y in enumerate(branches):
                check_core(y["m"], y["ref"], "after step %d (of branch %d), branch %d" % (k, b, j))
            ctx.state([sorted(y["ref"].cons.values()) for y in branches])

    def compute(self, plan, ctx, k, s, x, helpers, need, where, vectors, clusters):
        if not x["ref"].ids:
            return
        slot = need[1]
        cfg = plan["cfgs"][slot]
        if "cut" in s and cfg["algo"] != "hierarchical":
            return
        want = helpers[0].call(k)
        if want is None:
            return
        seams.ambient(plan["ambient2"] ^ 2)
        where = "%s: %s %r nb=%r" % (where, cfg["algo"], cfg["params"], cfg["nb"])
        ctx.probe(cfg["algo"] if cfg["what"] == "cluster" else "sample")
        if "away" in s:
            ctx.probe("away")
            ctx.fault("restored-in-another-process")
            data = base64.b64encode(freeze((x["m"], x["o"][slot]), int(s["how"][-1]))).decode()
            got = helpers[1].call([k, data])
            ctx.event("away", got)
            for key in ("state", "cut", "got"):
                ensure(got[key] == want[key] or (key == "cut" and got[key] is None), "restored-differs", lambda: "%s, pickled and restored in another process, gives %r (%s); new objects over the same history give %r" % (where, got[key], key, want[key]))
            return
        if "cut" in s:
            ctx.probe("cut")
            if want["cut"][0] != "ok" or want["got"][0] != "ok":
                return
            got = cut_of(x["o"][slot], s["cut"])
            ctx.event("cut", got)
            ensure(got == want["cut"], "copy-differs", lambda: "%s, cut into %r, gives %r; new objects over the same history give %r" % (where, s["cut"], got, want["cut"]))
            return
        ctx.probe("run")
        got = run(x["o"][slot], cfg, x["m"], vectors, clusters)["got"]
        ctx.event("run", got)
        ensure(got == want["got"], "copy-differs", lambda: "%s gives %r; new objects over the same history give %r" % (where, got, want["got"]))

    def simplify(self, plan):
        for sit in algos.shrink_situation(plan["sit"]):
            yield dict(plan, sit=sit)


WORLD = C20()
