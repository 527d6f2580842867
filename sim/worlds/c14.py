import heapq
import os

from sim import algos, gen, seams, sut
from sim.core import Rng, SimCrash, Violation, attempt, ensure, must
from sim.disk import SimDisk
from sim.model import CL, ML, Ref, check_core, pair
from sim.worlds.base import World
from sim.worlds.compute import check_labels, partition


class C14(World):
    warm = "clustering"
    quick_runs = 1800
    thorough_runs = 36000
    shrink_lists = ("late_ids",)
    rule = ("a run is a whole annotation session in discrete-event time: a server that clusters, samples, sends questions to annotators and applies their answers, over a network that loses, delays, duplicates and "
            "reorders, with server crashes (also inside a save), mistaken answers repaired through conflict reports, and data arriving late; non-trivial: a fault fired and the session completed")
    real = ("manager, persistence, clustering and sampling of the whole annotation loop (real code)",)
    stub = ("network, annotators and time (discrete events)", "process crash (also at a numbered I/O step of a save)", "process entropy and random generators")
    probes_wanted = ("complete", "crash", "crash-in-save", "lost", "duplicate", "mistake", "conflict-repaired", "audit", "late-data", "restricted-empty", "one-cluster", "all-separate", "partition", "kept-object")
    assumptions = ("annotators answer according to one fixed partition, up to planned mistakes that a review of the conflict report recognises",)

    def generate(self, rng, tier, i):
        n = min(16, gen.size(rng, (2, 7), (9, 12), 0.05, 0))
        pool = gen.id_pool(rng, n)
        k = rng.choice([1, 2, 2, 3, 3, 4, n])
        truth = {x: rng.randrange(k) for x in pool} if k != n else {x: j for j, x in enumerate(pool)}
        late = rng.sample(pool, rng.choice([0, 0, 0, 1, 2]) if n > 3 else 0)
        loss = rng.choice([0, 0.1, 0.3, 0.6])
        return {
            "ids": [x for x in pool if x not in late], "late_ids": late, "truth": truth, "vectors": gen.vectors_plan(rng, pool), "net_seed": rng.randrange(2**32),
            "net": {"loss": loss, "dup": rng.choice([0, 0.2, 0.5]), "delay": rng.choice([0.1, 2.0, 20.0]), "crash": rng.choice([0, 0.05, 0.2]), "crash_in_save": rng.choice([0, 0, 0.15]),
                    "cut": [round(rng.random() * 30, 2), round(rng.random() * 25, 2)] if rng.chance(0.4) else None},
            "mistakes": rng.choice([0, 0, 0.1, 0.3]), "fault_end": rng.choice([20, 60, 150]), "annotators": rng.randint(1, 3), "batch": rng.choice([1, 1, 2, 3, 5]),
            "save_every": rng.choice([1, 1, 3, 8]), "strategies": [rng.choice(algos.STRATEGIES) for _ in range(3)], "seeded": rng.chance(0.5), "keep": rng.chance(0.5),
            "algo": rng.choice(["kmeans", "hierarchical", "hierarchical"]), "linkage": rng.choice(algos.LINKAGES), "final_nb": [2, rng.randint(2, n + 3)],
        }

    def execute(self, plan, ctx):
        root = os.path.join(ctx.scratch, "disk")
        os.makedirs(root)
        disk = SimDisk(root, ctx)
        with disk:
            Loop(plan, ctx, disk, os.path.join(root, "session.json")).run()

    def simplify(self, plan):
        for key in ("loss", "dup", "crash", "crash_in_save", "cut"):
            if plan["net"][key]:
                yield dict(plan, net=dict(plan["net"], **{key: 0}))
        for key, value in (("mistakes", 0), ("annotators", 1), ("batch", 1), ("save_every", 1), ("algo", "kmeans")):
            if plan[key] != value:
                yield dict(plan, **{key: value})
        if len(plan["ids"]) > 2:
            for x in plan["ids"]:
                yield dict(plan, ids=[y for y in plan["ids"] if y != x])


class Loop:
    def __init__(self, plan, ctx, disk, path):
        self.plan, self.ctx, self.disk, self.path = plan, ctx, disk, path
        self.rng = Rng("c14", plan["net_seed"])
        self.truth = plan["truth"]
        self.t, self.heap, self.seq = 0.0, [], 0
        self.m = must("creating a manager", sut.new_manager, plan["ids"])
        self.ref = Ref(plan["ids"])
        disk.arm(None)
        must("first save", self.m.to_json, path)
        self.saved = [self.ref.copy()]
        self.unsaved = 0
        self.vectors = gen.make_vectors(plan["vectors"])
        self.late = list(plan["late_ids"])
        self.iteration = 0
        self.kept = {}
        self.asked = set()
        self.calm_answers = 0
        self.seen_faults = False

    def push(self, delay, *what):
        self.seq += 1
        heapq.heappush(self.heap, (self.t + delay, self.seq, what))

    def noisy(self):
        return self.t < self.plan["fault_end"]

    def right(self, a, b):
        return ML if self.truth[a] == self.truth[b] else CL

    def mistaken(self, ref=None):
        return [p for p, t in (ref or self.ref).cons.items() if t != self.right(*p)]

    def send(self, *what):
        """Over the network: may be lost, delayed, duplicated."""
        net = self.plan["net"]
        if self.noisy():
            cut = net["cut"]
            if cut and cut[0] <= self.t < cut[0] + cut[1]:
                self.fault("net:partitioned", "partition")
                return
            if self.rng.chance(net["loss"]):
                self.fault("net:lost", "lost")
                return
            self.push(0.05 + self.rng.random() * net["delay"], *what)
            if self.rng.chance(net["dup"]):
                self.fault("net:duplicate", "duplicate")
                self.push(0.05 + self.rng.random() * net["delay"] * 2, *what)
        else:
            self.push(0.05 + self.rng.random() * 0.2, *what)

    def fault(self, kind, probe):
        self.ctx.fault(kind)
        self.ctx.probe(probe)
        self.seen_faults = True

    # -- the server --
    def sampler(self, strategy):
        kw = {"random_seed": self.rng.randrange(2**31)} if self.plan["seeded"] else {}
        if self.plan.get("keep") and strategy in self.kept:  # the server keeps its objects until it crashes
            self.ctx.probe("kept-object")
            return self.kept[strategy]
        obj = self.kept[strategy] = must("creating a sampling", sut.sampling, strategy, **kw)
        return obj

    def propose(self):
        """Pairs for the next questions, with the clustering when the strategy needs one."""
        complete = must("completeness", self.m.check_completude_of_constraints)
        ensure(complete == self.ref.complete(), "wrong-completeness", lambda: "completeness is reported as %r with constraints %r on %r" % (complete, self.ref.cons, self.ref.ids))
        seams.ambient(self.rng.randrange(2**32))
        where = "sampling at iteration %d with constraints %r" % (self.iteration, self.ref.cons)
        if complete:
            pairs = must(where, self.sampler("random").sample, constraints_manager=self.m, nb_to_select=3)
            ensure(pairs == [], "proposed-after-completion", lambda: "%s proposes %r although constraints are complete" % (where, pairs))
            return []
        strategy = self.plan["strategies"][self.iteration % len(self.plan["strategies"])]
        self.iteration += 1
        pairs = []
        if strategy != "random":
            clusters = self.cluster(self.plan["algo"], max(2, min(len(self.ref.ids), 2 + self.iteration % 3)))
            pairs = must(where, self.sampler(strategy).sample, constraints_manager=self.m, nb_to_select=self.plan["batch"], clustering_result=clusters, vectors=self.vectors)
            if not pairs:
                self.ctx.probe("restricted-empty")
                wanted = [(a, b) for a in self.ref.ids for b in self.ref.ids if a < b and self.ref.inferred(a, b) is None
                          and (clusters[a] == clusters[b]) == (strategy != "closest_in_different_clusters")]
                ensure(not wanted, "stuck", lambda: "%s: %s proposes nothing for clusters %r although %r are open" % (where, strategy, clusters, wanted))
        if not pairs:
            pairs = must(where, self.sampler("random").sample, constraints_manager=self.m, nb_to_select=self.plan["batch"])
        ensure(pairs, "stuck", lambda: "%s proposes nothing although constraints are incomplete" % where)
        for a, b in pairs:
            ensure(a in self.ref.ids and b in self.ref.ids and a != b and self.ref.inferred(a, b) is None, "useless-pair", lambda: "%s proposes (%r, %r), already known as %r" % (
                where, a, b, self.ref.inferred(a, b)))
        return pairs

    def cluster(self, algo, nb):
        params = {"linkage": self.plan["linkage"]} if algo == "hierarchical" else {}
        if self.plan["seeded"]:
            params["random_seed"] = self.rng.randrange(2**31)
        if not self.plan.get("keep") or algo not in self.kept:
            self.kept[algo] = must("creating %s" % algo, sut.clustering, algo, **params)
        obj = self.kept[algo]
        return must("%s into %d with constraints %r" % (algo, nb, self.ref.cons), obj.cluster, constraints_manager=self.m, vectors=self.vectors, nb_clusters=nb)

    def save(self):
        net = self.plan["net"]
        if self.noisy() and self.rng.chance(net["crash_in_save"]):
            self.disk.settle()
            self.disk.arm({"kind": "crash", "at": self.rng.randrange(8), "when": self.rng.choice(["before", "after", "part"]), "part": self.rng.u()})
            try:
                self.m.to_json(self.path)
                self.disk.arm(None)
            except SimCrash:
                self.fault("process-crash", "crash-in-save")
                self.disk.restart()
                self.restart([*self.saved, self.ref.copy()])
                return
        else:
            self.disk.arm(None)
            must("saving", self.m.to_json, self.path)
        self.saved, self.unsaved = [self.ref.copy()], 0

    def restart(self, candidates):
        self.m = must("loading after a crash", sut.load, self.path)
        self.kept = {}
        for ref in candidates:
            try:
                check_core(self.m, ref, "after a crash")
            except Violation:
                continue
            self.ref, self.saved, self.unsaved, self.asked = ref.copy(), [ref.copy()], 0, set()
            return
        raise Violation("session-lost", "after a crash the restored session is none of the saved ones: data %r" % (self.m.get_list_of_managed_data_IDs(),))

    def apply(self, a, b, t):
        """An answer arrives at the server."""
        if a not in self.ref.ids or b not in self.ref.ids:
            return
        truthful = t == self.right(a, b)
        tag, err = attempt(self.m.add_constraint, a, b, t)
        if tag == "ok":
            ensure(not self.ref.add_refused(a, b, t), "wrongly-accepted", lambda: "the answer %r was accepted with constraints %r" % ((a, b, t), self.ref.cons))
            self.ref.add(a, b, t)
        else:
            ensure(isinstance(err, ValueError), "wrong-error", lambda: "the answer %r raised %s" % ((a, b, t), type(err).__name__))
            if truthful:
                mistaken = self.mistaken()
                ensure(mistaken, "truthful-refused", lambda: "the truthful answer %r was refused although no stored constraint is mistaken: %r" % ((a, b, t), self.ref.cons))
                report = must("conflict report", self.m.get_list_of_involved_data_IDs_in_a_constraint_conflict, a, b, t)
                culprits = [p for p in mistaken if report is not None and p[0] in report and p[1] in report]
                ensure(culprits, "useless-conflict-report", lambda: "the refused truthful answer %r has the conflict report %r, which contains both data of none of the mistaken constraints %r" % ((a, b, t), report, mistaken))
                for p in culprits:
                    must("deleting a mistaken constraint", self.m.delete_constraint, *p)
                    self.ref.delete(*p)
                tag, err = attempt(self.m.add_constraint, a, b, t)
                ensure(tag == "ok", "still-refused", lambda: "the truthful answer %r is still refused after deleting the mistaken constraints %r of its conflict report %r (left: %r)" % ((a, b, t), culprits, report, self.ref.cons))
                self.ref.add(a, b, t)
                self.ctx.probe("conflict-repaired")
        check_core(self.m, self.ref, "after the answer %r" % ((a, b, t),))
        self.unsaved += 1
        if self.unsaved >= self.plan["save_every"]:
            self.save()

    def run(self):
        ctx, plan = self.ctx, self.plan
        self.push(0.0, "tick")
        for k, x in enumerate(self.late):
            self.push(2.0 + 5.0 * k, "data", x)
        n = len(plan["ids"]) + len(self.late)
        bound = n * (n - 1) // 2
        calm_since, events = None, 0
        while self.heap:
            events += 1
            if events > 6000:
                raise Violation("no-progress", "the session did not complete in 6000 events (simulated time %.1f)" % self.t)
            self.t, _, what = heapq.heappop(self.heap)
            if not self.noisy() and calm_since is None:
                calm_since = self.t
                self.heap = [e for e in self.heap if e[2][0] in ("tick", "data")]
                heapq.heapify(self.heap)
                self.asked = set()
                if what[0] in ("question", "answer"):
                    continue
            net = plan["net"]
            if self.noisy() and what[0] in ("answer", "tick") and self.rng.chance(net["crash"]):
                self.fault("process-crash", "crash")
                ctx.event("crash", round(self.t, 3))
                self.disk.arm(None)
                self.restart(self.saved)
                if what[0] == "tick":
                    self.push(1.0, "tick")
                continue
            if what[0] == "data":
                x = what[1]
                if x not in self.ref.ids:
                    must("adding data", self.m.add_data_ID, x)
                    self.ref.add_id(x)
                    ctx.probe("late-data")
                    self.save()
                    if x not in self.ref.ids:  # lost in a crash: it arrives again
                        self.push(1.0, "data", x)
            elif what[0] == "tick":
                for x in self.late:
                    if x not in self.ref.ids and self.t > 12 and not any(e[2] == ("data", x) for e in self.heap):
                        self.push(0.1, "data", x)
                if not self.asked or self.noisy():
                    self.asked = set()
                    pairs = self.propose()
                    if not pairs and all(x in self.ref.ids for x in self.late):
                        mistaken = self.mistaken()
                        if mistaken:
                            ctx.probe("audit")
                            for p in mistaken:
                                must("deleting a mistaken constraint", self.m.delete_constraint, *p)
                                self.ref.delete(*p)
                            self.save()
                            self.push(0.5, "tick")
                            continue
                        return self.finish(events)
                    for p in pairs:
                        self.asked.add(pair(*p))
                        self.send("question", self.rng.randrange(plan["annotators"]), *p)
                self.push(1.5, "tick")
            elif what[0] == "question":
                _, who, a, b = what
                t = self.right(a, b)
                if self.noisy() and self.rng.chance(plan["mistakes"]):
                    t = CL if t == ML else ML
                    ctx.probe("mistake")
                    ctx.fault("annotator:mistake")
                self.send("answer", a, b, t)
            else:
                _, a, b, t = what
                self.asked.discard(pair(a, b))
                if calm_since is not None:
                    self.calm_answers += 1
                    ensure(self.calm_answers <= bound, "no-progress", lambda: "%d answers since faults stopped and the session of %d data is not complete" % (self.calm_answers, n))
                self.apply(a, b, t)
            ctx.event(round(self.t, 3), *what)
            ctx.state(self.ref.shape())

    def finish(self, events):
        ctx, plan = self.ctx, self.plan
        ctx.sim_time = self.t
        ctx.probe("complete")
        ctx.nontrivial = self.seen_faults
        want = partition({x: self.truth[x] for x in self.ref.ids})
        if len(want) == 1:
            ctx.probe("one-cluster")
        if len(want) == len(self.ref.ids):
            ctx.probe("all-separate")
        ctx.event("complete", round(self.t, 3), want)
        for nb in plan["final_nb"]:
            for algo in ("kmeans", "hierarchical"):
                seams.ambient(self.rng.randrange(2**32))
                got = self.cluster(algo, nb)
                check_labels("final %s" % algo, got, self.ref.ids)
                ensure(partition(got) == want, "clusters-not-recovered", lambda: "with complete constraints %r, %s into %d gives %r instead of %r" % (self.ref.cons, algo, nb, partition(got), want))
        for strategy in algos.STRATEGIES:
            pairs = must("final sampling", self.sampler(strategy).sample, constraints_manager=self.m, nb_to_select=5, clustering_result=got, vectors=self.vectors)
            ensure(pairs == [], "proposed-after-completion", lambda: "%s proposes %r although constraints are complete" % (strategy, pairs))


WORLD = C14()
