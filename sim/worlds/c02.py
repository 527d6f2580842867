from sim import gen
from sim.core import Violation, attempt, ensure, must
from sim.model import CL, ML, check_core, first_difference, snapshot
from sim.worlds import hist


class C02(hist.HistoryWorld):
    quick_runs = 20000
    thorough_runs = 800000
    rule = ("a run is a seeded history rich in invalid operations; each operation is predicted accepted or refused by the model, and around each refused "
            "operation, repeated constraint and query a full snapshot of answers is compared; at the end every pair is tried with both types on a scratch copy of the verdicts; "
            "non-trivial: at least two constraints held at once")

    def generate(self, rng, tier, i):
        w = {"contradict": 6, "repeat": 4, "unknown": 3, "badtype": 2, "dupid": 2, "self": 2}
        return hist.generate(rng, tier, weights=w, lengths=(4, 40), big=(12, 20), p_big=0.03)

    def operation(self, s, op, ctx, where, look=True):
        if not look:
            return super().operation(s, op, ctx, where)
        ids = list(s.ref.ids)
        old = s.ref.copy()
        before = snapshot(s.m, ids)
        super().operation(s, op, ctx, where)
        self._compare(s, op, old, before, ids, where)

    def _compare(self, s, op, old, before, ids, where):
        noop = old.same(s.ref)
        if noop and op[0] in ("add", "newid", "rmid", "ask", "conflict") or (noop and op[0] == "del" and op[1] != op[2] and (op[1] not in ids or op[2] not in ids)):
            after = snapshot(s.m, ids)
            if op[0] == "add" and op[1] == op[2]:
                before.pop("added"), after.pop("added")
            diff = first_difference(after, before)
            ensure(diff is None, "refusal-changed-state", lambda: "%s changed the manager: %s" % (where, diff))

    def outcome(self, s, op, tag, value, ctx, where):
        if tag == "err":
            ensure(isinstance(value, ValueError), "wrong-error", lambda: "%s raised %s instead of ValueError: %s" % (where, type(value).__name__, value))
        elif op[0] in ("add", "del", "newid", "rmid"):
            ensure(value is True, "wrong-return", lambda: "%s returned %r instead of True" % (where, value))

    def check(self, s, ctx, where, op, final=False):
        if not final:
            return
        ref, m = s.ref, s.m
        # Every invalid operation that this state admits, then every valid one that changes nothing.
        ids = ref.ids[:7]
        probes = []
        for a in ids:
            for b in ids:
                known = ref.inferred(a, b)
                if known is not None:
                    probes.append(["add", a, b, CL if known == ML else ML])
                    if a == b or ref.cons.get((a, b) if a <= b else (b, a)):
                        probes.append(["add", a, b, known])
        unknown = hist.UNKNOWN
        for a in ids[:2]:
            probes += [["newid", a], ["add", a, unknown, ML], ["add", unknown, a, CL], ["del", unknown, a], ["del", a, unknown], ["ask", a, unknown],
                       ["ask", unknown, a], ["conflict", a, unknown, ML], ["conflict", unknown, a, CL], ["conflict", a, a, "NO"], ["add", a, a, "NO"]]
        probes.append(["rmid", unknown])
        before = snapshot(m, ref.ids)
        for p in probes:
            old = ref.copy()
            accepted = gen.apply_ref(ref, p)
            tag, value = attempt(gen.call_manager, m, p)
            w2 = "%s then %r" % (where, p)
            if (tag == "ok") != accepted:
                raise Violation("wrongly-accepted" if tag == "ok" else "wrongly-refused", "%s gave %r" % (w2, value))
            self.outcome(s, p, tag, value, ctx, w2)
            assert old.same(ref)
        after = snapshot(m, ref.ids)
        if any(p[0] == "add" and p[1] == p[2] for p in probes):
            before.pop("added"), after.pop("added")
        diff = first_difference(after, before)
        ensure(diff is None, "refusal-changed-state", lambda: "%s: invalid or repeated operations changed the manager: %s" % (where, diff))
        check_core(m, ref, where)


WORLD = C02()
