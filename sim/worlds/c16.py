import os

from sim import algos, gen, seams, sut
from sim.core import Violation, attempt, ensure, must
from sim.disk import SimDisk
from sim.model import CL, ML, Ref, pair
from sim.work import Work
from sim.worlds.base import World


def budget(n, cfg=None):
    """Steps that a call may take: at least five times what the worst case of the pinned release takes, mostly fifty times."""
    iterations = (cfg or {}).get("params", {}).get("max_iteration", 1)
    return 200000 + 100 * n**3 * (1 + iterations)


class C16(World):
    warm = "clustering"
    quick_runs = 2000
    thorough_runs = 80000
    shrink_lists = ("steps",)
    rule = ("a run is a long session (up to 800 operations, with refusals, repetitions, deletions, saves and restarts) whose calls are all given a budget of library steps; at measuring points the work "
            "of each kind of manager call is compared with that of a new manager in the same state; non-trivial: at least 100 operations, or a clustering or sampling with a degenerate request")
    real = ("BinaryConstraintsManager, its persistence, every clustering algorithm and sampling strategy (real code, counted by sys.monitoring)",)
    stub = ("the failures of the disk and the interruptions of a save", "process entropy and global random generators (seeded by the plan)", "restart (save, then load of the file)")
    probes_wanted = algos.CLUSTERINGS + ("sample", "cut", "exhausted", "long", "measured", "failed-save", "interrupted-save", "restart", "equal-vectors", "never-stable", "more-than-data")
    assumptions = ("work is counted in lines, jumps and branches of the repository's Python code; loops inside numpy, scipy and scikit-learn only by the time limit of a run",)

    def generate(self, rng, tier, i):
        n = rng.weighted([(rng.randint(2, 6), 4), (rng.randint(7, 14), 4), (rng.randint(20, 35), 0.3)])
        pool = gen.id_pool(rng, n + 2)
        ref = Ref(pool[:n])
        keys = list(pool)
        rng.shuffle(keys)
        vectors = gen.vectors_plan(rng, keys, "equal" if rng.chance(0.1) else None)
        truth = {x: rng.randrange(3) for x in pool} if rng.chance(0.5) else None
        total = rng.choice([10, 40, 150, 400, 800]) if n <= 14 else 60
        weights = {"newid": 0.5, "rmid": 0.5 if rng.chance(0.5) else 0.0, "unknown": 0.2, "badtype": 0.2, "self": 0.2}
        steps, left = [], total
        while left > 0:
            part = min(left, rng.choice([5, 20, 100, 400]))
            left -= part
            steps += gen.history(rng, ref, part, pool, weights=weights, truth=truth)
            if rng.chance(0.3):
                steps += [["save"]] * rng.choice([1, 2, 8])
            if rng.chance(0.1):
                steps.append(["cycle"])
            if rng.chance(0.15):
                steps += [["failed-save", rng.randint(1, 2), rng.u(), rng.choice(["enospc", "eio", "interrupt", "memory"])]] * rng.choice([1, 4, 6])
            for _ in range(rng.choice([0, 0, 1, 2])):
                steps.append(["run", self.config(rng, n), rng.randrange(2**32)])
        if truth is not None and rng.chance(0.6):
            for a in ref.ids:  # nothing is left to ask
                for b in ref.ids:
                    if a < b and ref.inferred(a, b) is None:
                        op = ["add", a, b, ML if truth[a] == truth[b] else CL]
                        if not ref.add_refused(*op[1:]):
                            gen.apply_ref(ref, op)
                            steps.append(op)
        steps.append(["measure", rng.u(), rng.u()])
        for _ in range(rng.randint(1, 3)):
            steps.append(["run", self.config(rng, n), rng.randrange(2**32)])
        return {"ids": pool[:n], "pool": pool, "vectors": vectors, "steps": steps, "clusters": {x: rng.randrange(rng.choice([1, 2, 4])) for x in keys}}

    def config(self, rng, n):
        cfg = algos.config(rng, None, n, 0.35)
        p = cfg["params"]
        if cfg["what"] == "sample":
            cfg["nb"] = rng.choice([1, 2, n, n * n, 100, 10**6])
        elif cfg["nb"] is not None and rng.chance(0.4):
            cfg["nb"] = rng.choice([n, n + 1, 3 * n, 1000])
        if "max_iteration" in p:
            p["max_iteration"] = rng.choice([1, 2, 5, 20])
        if cfg["algo"] == "kmeans":
            p["max_iteration"] = rng.choice([1, 2, 5, 20])
            if rng.chance(0.6):
                p["tolerance"] = 0.0
        if cfg["algo"] == "hierarchical":
            cfg["cuts"] = [[rng.choice([2, n, n + 2, 1000]), rng.choice(["size", "iteration"])] for _ in range(2)]
        return cfg

    def execute(self, plan, ctx):
        folder = os.path.join(ctx.scratch, "files")
        os.makedirs(folder)
        path = os.path.join(folder, "session.json")
        m, ref = must("creating a manager", sut.new_manager, plan["ids"]), Ref(plan["ids"])
        vectors = gen.make_vectors(plan["vectors"])
        done = saves = 0
        for k, step in enumerate(plan["steps"]):
            n = len(ref.ids)
            if step[0] == "save":
                self.limited("step %d: saving" % k, n, m.to_json, path)
                saves += 1
            elif step[0] == "failed-save":
                disk = SimDisk(folder, ctx)
                with disk:
                    disk.arm({"at": step[1], "kind": step[3], "when": "part", "part": step[2]})
                    with Work(budget(n), "step %d: saving with a failing disk or an interruption" % k):
                        try:
                            attempt(m.to_json, path)
                        except (KeyboardInterrupt, MemoryError):
                            ctx.probe("interrupted-save")
                    fired = disk.fired
                saves += 1
                if fired and fired[1] == "write":
                    ctx.probe("failed-save")
            elif step[0] == "cycle":
                self.limited("step %d: saving" % k, n, m.to_json, path)
                saves += 1
                m = self.limited("step %d: loading" % k, n, sut.load, path)
                ctx.fault("process-restart")
                ctx.probe("restart")
            elif step[0] == "measure":
                self.measure(ctx, m, ref, plan, step, done, folder)
            elif step[0] == "run":
                self.run(plan, ctx, m, ref, vectors, step, k)
            else:
                gen.apply_ref(ref, step)
                done += 1
                what = "step %d: %r with %d data after %d operations" % (k, step, n, done)
                with Work(budget(n + 1), what):
                    attempt(gen.call_manager, m, step)
        if done >= 100:
            ctx.probe("long")
            ctx.nontrivial = True
        if saves > 3:
            files = os.listdir(folder)
            ensure(len(files) <= 3, "files-left", lambda: "after %d saves to one path (some of which failed or were interrupted), %d files are left there: %r" % (saves, len(files), sorted(files)[:6]))
        ctx.state([ref.shape(), done])

    def limited(self, what, n, fn, *args, cfg=None, **kw):
        with Work(budget(n, cfg), what):
            return must(what, fn, *args, **kw)

    def run(self, plan, ctx, m, ref, vectors, step, k):
        _, cfg, ambient = step
        n = len(ref.ids)
        if n < 2:
            return
        seams.ambient(ambient)
        ctx.fault("entropy:reseeded")
        what = "step %d: %s %r nb=%r on %d data" % (k, cfg["algo"], cfg["params"], cfg["nb"], n)
        obj = algos.make(cfg)
        with Work(budget(n, cfg), what) as w:
            tag, value = attempt(algos.call, obj, cfg, m, vectors, dict(plan["clusters"]))
        ctx.event(cfg, tag)
        ctx.probe(cfg["algo"] if cfg["what"] == "cluster" else "sample")
        if plan["vectors"]["style"] == "equal":
            ctx.probe("equal-vectors")
        if cfg["params"].get("tolerance") == 0.0:
            ctx.probe("never-stable")
        if cfg["what"] == "sample" and tag == "ok" and len(value) < cfg["nb"]:
            ctx.probe("exhausted")
            ctx.nontrivial = True
        if cfg["what"] == "cluster" and (cfg["nb"] or 0) > n:
            ctx.probe("more-than-data")
            ctx.nontrivial = True
        if tag == "ok":
            for nb, by in cfg.get("cuts", ()):
                self.limited(what + ", cut into %d by %s" % (nb, by), n, obj.compute_predicted_clusters, nb_clusters=max(2, nb), by=by)
                ctx.probe("cut")

    def measure(self, ctx, m, ref, plan, step, done, folder):
        """The work of every kind of call on the session and on a new one in the same state."""
        ids = list(ref.ids)
        if len(ids) < 2:
            return
        new = must("creating a manager", sut.new_manager, ids)
        for (a, b), t in ref.cons.items():
            must("adding a constraint", new.add_constraint, a, b, t)
        a, b = ids[int(step[1] * len(ids))], ids[int(step[2] * len(ids))]
        fresh = next(x for x in plan["pool"] + ["a new one"] if x not in ids)
        calls = [("listing the data", lambda m: m.get_list_of_managed_data_IDs()), ("asking for an inferred constraint", lambda m: m.get_inferred_constraint(a, b)),
                 ("asking for an added constraint", lambda m: m.get_added_constraint(a, b)), ("asking for the components", lambda m: m.get_connected_components()),
                 ("asking for completeness", lambda m: m.check_completude_of_constraints()), ("asking for the range of clusters", lambda m: m.get_min_and_max_number_of_clusters()),
                 ("asking for a conflict", lambda m: m.get_list_of_involved_data_IDs_in_a_constraint_conflict(a, b, ML)),
                 ("adding data", lambda m: m.add_data_ID(fresh)), ("removing data", lambda m: m.delete_data_ID(fresh))]
        if ref.cons:
            (x, y), t = sorted(ref.cons.items())[int(step[1] * len(ref.cons))]
            calls += [("repeating a constraint", lambda m: m.add_constraint(x, y, t)), ("deleting a constraint", lambda m: m.delete_constraint(x, y)),
                      ("adding it again", lambda m: m.add_constraint(x, y, t))]
        paths = [os.path.join(ctx.scratch, "live.json"), os.path.join(ctx.scratch, "new.json")]
        calls += [("saving", lambda m_, p=paths: m_.to_json(p[0 if m_ is m else 1])), ("loading", lambda m_, p=paths: sut.load(p[0 if m_ is m else 1]))]
        for what, call in calls:
            work = []
            for manager in (m, new):
                with Work(budget(len(ids)), what) as w:
                    must(what, call, manager)
                work.append(w.n)
            ctx.event(what, work)
            ensure(work[0] <= 3 * work[1] + 300, "work-grows", lambda: "%s takes %d steps after %d operations, and %d in a new session with the same %d data and %d constraints" % (
                what, work[0], done, work[1], len(ids), len(ref.cons)))
        size = [os.path.getsize(p) for p in paths]
        ensure(size[0] <= 1.1 * size[1] + 200, "file-grows", lambda: "the saved file has %d bytes after %d operations, and %d for a new session with the same data and constraints" % (size[0], done, size[1]))
        ctx.probe("measured")

    def simplify(self, plan):
        for k, s in enumerate(plan["steps"]):
            if s[0] == "run" and s[1].get("cuts"):
                yield dict(plan, steps=plan["steps"][:k] + [["run", dict(s[1], cuts=s[1]["cuts"][1:]), s[2]]] + plan["steps"][k + 1 :])


WORLD = C16()
