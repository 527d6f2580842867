from sim import crowd
from sim.model import check_core
from sim.worlds import hist


class C01(hist.HistoryWorld):
    quick_runs = 20000
    thorough_runs = 800000
    probes_wanted = hist.HistoryWorld.probes_wanted + ("crowd",)
    rule = ("a run is a seeded history of constraint and data operations (valid, repeated, refused) over 1-2 sessions with saves, crashes and restarts; "
            "every query answer is compared with a from-scratch closure after each operation; non-trivial: at least two constraints held at once; about one run in 1500 is a session of over 1000 data in long chains, compared at its end")

    def generate(self, rng, tier, i):
        if rng.chance(0.0006):
            return {"crowd": crowd.plan(rng), "ops": []}
        return hist.generate(rng, tier)

    def execute(self, plan, ctx):
        if not plan.get("crowd"):
            return super().execute(plan, ctx)
        m, ref, pairs = crowd.run(plan["crowd"], ctx)
        crowd.check_closure(m, ref, pairs, "session %r" % plan["crowd"])

    def simplify(self, plan):
        return () if plan.get("crowd") else super().simplify(plan)

    def check(self, s, ctx, where, op, final=False):
        n = len(s.ref.ids)
        if n > 14 and not final and op is not None and op[0] == "add" and ctx.steps % 4:
            return
        check_core(s.m, s.ref, where)


WORLD = C01()
