import os

from sim import gen, seams, sut
from sim.core import SimCrash, Violation, attempt, ensure, must
from sim.disk import SimDisk
from sim.model import Ref, check_core
from sim.worlds.base import World

ERRORS = ["enospc", "eio", "edquot", "eacces", "emfile", "erofs"]


class C06(World):
    quick_runs = 18000
    thorough_runs = 720000
    shrink_lists = ("episodes", "pre")
    rule = ("a run is a session saved several times to 1-2 paths on a simulated disk; in each save a seeded fault hits one numbered I/O step or one executed line "
            "(error, full disk, short write, interruption, lack of memory, process crash before/after/amid the call, power loss with un-synchronised data and names lost, a concurrent reader or writer); "
            "non-trivial: a fault fired during a save over an existing save")
    real = ("BinaryConstraintsManager.to_json and load_constraints_manager_from_json, Python's text and buffer layers, the kernel's names and files in a scratch directory",)
    stub = ("file descriptors' write/fsync/rename/... (interposed, fault-injecting)", "durability across power loss (modelled: journalled names in order, data durable after fsync)")
    probes_wanted = ("crash", "power", "error", "interrupt", "reader", "writer", "ok-under-fault", "old-kept", "new-in-place")
    assumptions = ("renaming a file within a directory is atomic", "data is durable after a successful fsync; names become durable in order",)

    def generate(self, rng, tier, i):
        n = gen.size(rng, (1, 7), (15, 35), 0.08, 0.02)
        ids = gen.id_pool(rng, n)
        ref = Ref(ids)
        pre = gen.history(rng, ref, rng.choice([0, 3, 8, 60 if n > 12 else 8]), ids)
        episodes = []
        slots = rng.randint(1, 2)
        for e in range(rng.randint(1, 5)):
            ops = gen.history(rng, ref, rng.randint(0, 3), ids + ["extra"])
            fault = None
            if e > 0 and rng.chance(0.92) or rng.chance(0.35):
                fault = self._fault(rng)
            episodes.append({"ops": ops, "slot": rng.randrange(slots), "fault": fault, "retry": rng.chance(0.5)})
        return {"ids": ids, "pre": pre, "episodes": episodes, "buf": rng.choice([1, 16, 100, 512, 8192, 8192]), "chunk": rng.choice([1, 64, 8192, 8192])}

    def _fault(self, rng):
        kind = rng.weighted([("error", 5), ("short", 1), ("interrupt", 1.5), ("memory", 0.7), ("crash", 4), ("power", 4), ("line", 2), ("reader", 1.5), ("writer", 1.5)])
        f = {"u": rng.u(), "tail": rng.chance(0.5), "part": rng.u()}
        if kind == "error":
            f.update(kind=rng.choice(ERRORS), sticky=rng.chance(0.5))
        elif kind in ("crash", "power", "interrupt", "memory"):
            f.update(kind=kind, when=rng.choice(["before", "after", "part"]))
            if kind == "power":
                f.update(cut=rng.weighted([(rng.u(), 1), (0.9999, 1), (0.0, 0.3)]), data=rng.choice(["durable", "prefix", "zeros", "keep"]), late=rng.chance(0.3))
        elif kind == "line":
            f.update(kind="line", u2=rng.u(), exc=rng.choice(["KeyboardInterrupt", "MemoryError"]))
        else:
            f.update(kind=kind)
        return f

    # -- judging --
    def _match(self, path, refs, where):
        """The reference session that loading `path` gives, or a violation."""
        tag, m = attempt(sut.load, path)
        if tag == "err":
            size = os.path.getsize(path) if os.path.exists(path) else None
            raise Violation("save-lost", "%s: loading the saved session raised %s: %s (file size %r)" % (where, type(m).__name__, str(m)[:200], size))
        for ref in refs:
            try:
                check_core(m, ref, where)
                if m.get_list_of_managed_data_IDs() == ref.ids:
                    return ref, m
            except Violation:
                pass
        raise Violation("save-mixed", "%s: the saved session is neither the previous nor the new one: data %r" % (where, m.get_list_of_managed_data_IDs()))

    def _audit(self, slots, where, except_slot=None):
        for k, s in slots.items():
            if k != except_slot and s["refs"]:
                self._match(s["path"], s["refs"], where + ", other saved session")

    def execute(self, plan, ctx):
        root = os.path.join(ctx.scratch, "disk")
        dry = os.path.join(ctx.scratch, "disk", "dry")
        os.makedirs(dry)
        m = must("creating a manager", sut.new_manager, plan["ids"])
        ref = Ref(plan["ids"])
        for op in plan["pre"]:
            gen.apply_ref(ref, op)
            attempt(gen.call_manager, m, op)
        slots = {}
        disk = SimDisk(root, ctx, plan["buf"], plan["chunk"])
        with disk:
            for e, ep in enumerate(plan["episodes"]):
                where = "save %d" % e
                for op in ep["ops"]:
                    gen.apply_ref(ref, op)
                    attempt(gen.call_manager, m, op)
                check_core(m, ref, where)
                slot = slots.setdefault(ep["slot"], {"path": os.path.join(root, "slot%d.json" % ep["slot"]), "refs": []})
                m, ref = self._save(plan, ctx, disk, m, ref, slot, ep, where, dry)
                ctx.state([ref.shape(), len(slots)])
                disk.arm(None)
                self._audit(slots, where, ep["slot"])

    def _save(self, plan, ctx, disk, m, ref, slot, ep, where, dry):
        path, old = slot["path"], list(slot["refs"])
        new = ref.copy()
        f = ep["fault"]
        if f is None:
            disk.arm(None)
            value = must(where, m.to_json, path)
            ensure(value is True, "wrong-return", "%s returned %r" % (where, value))
            self._match(path, [new], where)
            slot["refs"] = [new]
            ctx.event(where, "saved")
            return m, ref
        # A dry run over a copy of the same situation tells how many steps and lines this save has.
        target = os.path.join(dry, "x.json")
        disk.arm(None)
        if old:
            disk.put(target, disk._content(path))
        elif os.path.exists(target):
            os.unlink(target)
        disk.arm(None)
        lines = None
        if f["kind"] == "line":
            with seams.Profile() as prof:
                must(where + " (dry run)", m.to_json, target)
            lines = prof
        else:
            must(where + " (dry run)", m.to_json, target)
        steps = disk.step_no
        u = f["u"]
        # Half of the faults aim at the last few steps (synchronise, close, rename), which writes would otherwise outnumber.
        at = max(0, steps - 1 - int(u * 5)) if f.get("tail") else min(int(u * steps), steps - 1)
        disk.settle()
        outcome, err, expect_other = None, None, []
        if f["kind"] == "line":
            k = lines.pick(f["u"], f["u2"])
            exc = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[f["exc"]]
            disk.arm(None)
            abort = seams.Abort(k, exc)
            try:
                with abort:
                    outcome = m.to_json(path)
            except (KeyboardInterrupt, MemoryError) as e2:
                err = e2
            if abort.fired:
                ctx.fault("interrupt@line" if exc is KeyboardInterrupt else "memory@line")
        else:
            fault, callback = dict(f, at=at), None
            if f["kind"] == "reader":
                fault.update(kind="call", name="reader")

                def callback():
                    ctx.probe("reader")
                    if not os.path.exists(path):
                        ensure(not old, "save-lost", "%s: a concurrent reader finds no file" % where)
                        return
                    self._match(path, old + [new], where + ", concurrent reader at I/O step %d" % at)

            elif f["kind"] == "writer":
                fault.update(kind="call", name="writer")
                other = Ref(list(new.ids) + ["from another process"])
                expect_other = [other]

                def callback():
                    ctx.probe("writer")
                    m2 = must("creating a manager", sut.new_manager, other.ids)
                    value = must(where + ", concurrent save", m2.to_json, path)
                    ensure(value is True, "wrong-return", "concurrent save returned %r" % value)

            disk.arm(fault, callback)
            try:
                outcome = m.to_json(path)
            except SimCrash:
                if not disk.dead:
                    raise
                err = "crash"
            except (KeyboardInterrupt, MemoryError, Exception) as e2:
                if isinstance(e2, Violation):
                    raise
                err = e2
            if disk.dead:
                err = "crash"
        fired = disk.fired if f["kind"] != "line" else ("line", "", 0)
        ctx.event(where, f["kind"], at, "crash" if err == "crash" else type(err).__name__ if err is not None else outcome, disk.step_no)
        if fired and old:
            ctx.nontrivial = True
        # -- the process died, or the machine lost power --
        if err == "crash" or (f["kind"] == "power" and f.get("late")):
            if f["kind"] == "power":
                disk.power_loss(f["cut"], f["data"], f["part"])
                ctx.probe("power")
                allowed = old + [new]
            else:
                disk.restart()
                ctx.probe("crash")
                allowed = old + [new] if err == "crash" else [new]
            w2 = "%s, after %s" % (where, "power loss" if f["kind"] == "power" else "crash at I/O step %d" % at)
            if not os.path.exists(path):
                ensure(not old, "save-lost", "%s: the saved session is gone" % w2)
                m = must("creating a manager", sut.new_manager, plan["ids"])
                slot["refs"] = []
                return m, Ref(plan["ids"])
            got, m = self._match(path, allowed, w2)
            ctx.probe("new-in-place" if got is new else "old-kept")
            disk.settle()
            slot["refs"] = [got]
            return m, got.copy()
        # -- the process goes on --
        disk.arm(None)
        check_core(m, ref, where + ", in-memory session after the fault")
        if err is None:
            if fired and f["kind"] not in ("reader", "writer"):
                ctx.probe("ok-under-fault")
            ensure(outcome is True, "wrong-return", "%s returned %r under fault %r" % (where, outcome, fired))
            got, _ = self._match(path, [new] + (expect_other if fired else []), where + ", reported as done")
            slot["refs"] = [got]
        else:
            ctx.probe("interrupt" if isinstance(err, (KeyboardInterrupt, MemoryError)) else "error")
            if not fired:
                raise Violation("unexpected-error", "%s raised %s: %s without any fault" % (where, type(err).__name__, err))
            if f["kind"] in ("short", "reader", "writer"):
                raise Violation("unexpected-error", "%s raised %s: %s although no call failed (%s)" % (where, type(err).__name__, err, f["kind"]))
            if os.path.exists(path):
                got, _ = self._match(path, old + [new], "%s, after %s" % (where, fired))
                slot["refs"] = [got]
                ctx.probe("new-in-place" if got is new else "old-kept")
            else:
                ensure(not old, "save-lost", "%s: the saved session is gone after %s" % (where, fired))
            if ep.get("retry"):
                value = must(where + ", repeated without fault", m.to_json, path)
                ensure(value is True, "wrong-return", "%s repeated returned %r" % (where, value))
                self._match(path, [new], where + ", repeated")
                slot["refs"] = [new]
        return m, ref

    def simplify(self, plan):
        if plan["buf"] != 8192 or plan["chunk"] != 8192:
            yield dict(plan, buf=8192, chunk=8192)
        for k, ep in enumerate(plan["episodes"]):
            if ep["ops"]:
                eps = [dict(x) for x in plan["episodes"]]
                eps[k]["ops"] = []
                yield dict(plan, episodes=eps)
        if len(plan["ids"]) > 1:
            yield dict(plan, ids=plan["ids"][: len(plan["ids"]) // 2])
            yield dict(plan, ids=plan["ids"][1:])


WORLD = C06()
