from sim import crowd, seams, sut
from sim.core import Violation, ensure, must, short_hash
from sim.model import CL, ML, first_difference, snapshot
from sim.worlds import hist


class C03(hist.HistoryWorld):
    quick_runs = 8000
    thorough_runs = 320000
    probes_wanted = hist.HistoryWorld.probes_wanted + ("min>2", "complete", "conflict", "all-one-component", "crowd")
    rule = ("a run is a seeded history of valid and invalid operations; after each change the components, completeness, cluster range (under several states of the "
            "process random generators) and conflict reports are compared with the model, and the questions themselves must change no answer; non-trivial: at least two constraints held at once; about one run in 500 is a session of over 1000 data in long chains, compared at its end")

    def generate(self, rng, tier, i):
        if rng.chance(0.002):
            return {"crowd": crowd.plan(rng), "ops": [], "draws": [rng.randrange(2**32)]}
        weights = rng.choice([{}, {}, {"merge": 8, "delete": 1}, {"add": 25, "rmid": 0.3, "delete": 1, "contradict": 0.5}])
        plan = hist.generate(rng, tier, max_sessions=2, lengths=(4, 50), small=(2, 8), big=(10, 13), p_big=0.12, weights=weights)
        plan["draws"] = [rng.randrange(2**32) for _ in range(3)]
        return plan

    def execute(self, plan, ctx):
        self.draws = plan["draws"]
        if plan.get("crowd"):
            m, ref, pairs = crowd.run(plan["crowd"], ctx)
            return crowd.check_questions(m, ref, pairs, "session %r" % plan["crowd"], self.draws[0])
        super().execute(plan, ctx)

    def simplify(self, plan):
        return () if plan.get("crowd") else super().simplify(plan)

    def ask_first(self, s, ctx, where):
        """One question, chosen by the plan, right after the operations: nothing else was asked since."""
        m, ref = s.m, s.ref
        kind = short_hash([self.draws, ctx.steps]) % 7
        w2 = where + ", first question"
        if kind == 0:
            got = must(w2, m.check_completude_of_constraints)
            ensure(got == ref.complete(), "wrong-completeness", lambda: "%s: completeness is %r instead of %r" % (w2, got, ref.complete()))
        elif kind == 1:
            got = must(w2, m.get_connected_components)
            ensure(sorted(sorted(c) for c in got) == ref.components(), "wrong-components", lambda: "%s: components are %r instead of %r" % (w2, got, ref.components()))
        elif kind == 2 and ref.ids:
            low, high = must(w2, m.get_min_and_max_number_of_clusters)
            ensure(high == len(ref.components()), "wrong-maximum", lambda: "%s: maximum number of clusters is %r instead of %r" % (w2, high, len(ref.components())))
            ensure(2 <= low <= max(2, 1 + ref.degeneracy()) and ref.colourable(low), "wrong-minimum", lambda: "%s: minimum number of clusters is %r" % (w2, low))
        elif kind == 3 and len(ref.ids) > 1:
            comp, parts, _ = ref.closure()
            for a, b in zip(ref.ids, ref.ids[1:]):
                for t in (ML, CL):
                    got = must(w2, m.get_list_of_involved_data_IDs_in_a_constraint_conflict, a, b, t)
                    want = None if ref.inferred(a, b) in (None, t) else sorted(set(parts[comp[a]]) | set(parts[comp[b]]))
                    ensure((None if got is None else sorted(got)) == want, "wrong-conflict", lambda: "%s: conflict report of (%r, %r, %s) is %r instead of %r" % (w2, a, b, t, got, want))
        elif kind == 4:
            must(w2, m.to_json, s.path + ".first")
            other = must(w2, sut.load, s.path + ".first")
            got = must(w2, other.check_completude_of_constraints)
            ensure(got == ref.complete(), "wrong-completeness", lambda: "%s: completeness after a restart is %r instead of %r" % (w2, got, ref.complete()))
        elif kind == 5:
            for a in ref.ids[-3:]:
                for b in ref.ids[:3]:
                    got = must(w2, m.get_inferred_constraint, a, b)
                    ensure(got == ref.inferred(a, b), "wrong-inferred", lambda: "%s: inferred constraint of (%r, %r) is %r instead of %r" % (w2, a, b, got, ref.inferred(a, b)))

    def check(self, s, ctx, where, op, final=False):
        m, ref = s.m, s.ref
        self.ask_first(s, ctx, where)
        before = snapshot(m, ref.ids)
        comps = must(where, m.get_connected_components)
        self.scribble(s, where, before)
        ensure(sorted(sorted(c) for c in comps) == ref.components(), "wrong-components",
               lambda: "%s: components are %r instead of %r" % (where, comps, ref.components()))
        complete = must(where, m.check_completude_of_constraints)
        ensure(complete == ref.complete(), "wrong-completeness", lambda: "%s: completeness is %r instead of %r" % (where, complete, ref.complete()))
        if complete:
            ctx.probe("complete")
        if ref.ids:
            want_max = len(ref.components())
            upper = max(2, 1 + ref.degeneracy())
            if want_max == 1:
                ctx.probe("all-one-component")
            for draw in self.draws if (final or len(ref.ids) > 5) else self.draws[:1]:
                seams.ambient(draw)
                ctx.fault("rng-state")
                low, high = must(where, m.get_min_and_max_number_of_clusters)
                ensure(high == want_max, "wrong-maximum", lambda: "%s: maximum number of clusters is %r instead of %r" % (where, high, want_max))
                ensure(2 <= low <= upper, "wrong-minimum", lambda: "%s: minimum number of clusters is %r, not between 2 and %r" % (where, low, upper))
                ensure(ref.colourable(low), "wrong-minimum", lambda: "%s: %r clusters cannot separate all cannot-linked components" % (where, low))
                if low > 2:
                    ctx.probe("min>2")
        ids = ref.ids[:6] if not final else ref.ids
        comp, parts, _ = ref.closure()
        for a in ids:
            for b in ids:
                known = ref.inferred(a, b)
                for t in (ML, CL):
                    got = must(where, m.get_list_of_involved_data_IDs_in_a_constraint_conflict, a, b, t)
                    if known is None or known == t:
                        ensure(got is None, "wrong-conflict", lambda: "%s: conflict report of (%r, %r, %s) is %r instead of none" % (where, a, b, t, got))
                    else:
                        ctx.probe("conflict")
                        want = sorted(set(parts[comp[a]]) | set(parts[comp[b]]))
                        ensure(got is not None and sorted(got) == want, "wrong-conflict",
                               lambda: "%s: conflict report of (%r, %r, %s) is %r instead of %r" % (where, a, b, t, got, want))
        if final:
            must(where, m.to_json, s.path)
            for threshold in (0.0, 0.5, 1.0):  # every constraint has the value 1.0, so that no threshold matters
                w2 = "%s, threshold %r" % (where, threshold)
                got = must(w2, m.get_connected_components, threshold=threshold), must(w2, m.check_completude_of_constraints, threshold=threshold)
                ensure(got == (before["components"], before["complete"]), "threshold-matters", lambda: "%s: components and completeness are %r instead of %r" % (w2, got, (before["components"], before["complete"])))
                if ids:
                    got = [must(w2, m.get_inferred_constraint, ids[0], b, threshold=threshold) for b in ids]
                    ensure(got == before["inferred"][: len(ids)], "threshold-matters", lambda: "%s: inferred constraints of %r are %r instead of %r" % (w2, ids[0], got, before["inferred"][: len(ids)]))
                    ensure(must(w2, m.get_min_and_max_number_of_clusters, threshold=threshold)[1] == len(parts), "threshold-matters", lambda: "%s: another maximum number of clusters" % w2)
        diff = first_difference(snapshot(m, ref.ids), before)
        ensure(diff is None, "question-changed-state", lambda: "%s: questions changed an answer: %s" % (where, diff))

    def scribble(self, s, where, before):
        """The returned lists belong to the caller."""
        m, ids = s.m, s.ref.ids
        lists = [must(where, m.get_list_of_managed_data_IDs), must(where, m.get_connected_components)]
        for a, b in list(zip(ids, ids[1:]))[:4]:
            for t in (ML, CL):
                lists.append(must(where, m.get_list_of_involved_data_IDs_in_a_constraint_conflict, a, b, t))
        for x in lists:
            if x:
                for y in x:
                    if isinstance(y, list):
                        y.append("scribble")
                        y.reverse()
                x.append(x[0])
                x.reverse()
        diff = first_difference(snapshot(m, ids), before)
        ensure(diff is None, "question-changed-state", lambda: "%s: changing the lists returned by the manager changed an answer: %s" % (where, diff))


WORLD = C03()
