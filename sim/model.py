"""Reference model of a constraints session: a set of data, a set of constraints, and their closure by search."""
from sim.core import Violation, ensure, must

ML, CL = "MUST_LINK", "CANNOT_LINK"


def pair(a, b):
    return (a, b) if a <= b else (b, a)


class Ref:
    def __init__(self, ids=()):
        self.ids = list(dict.fromkeys(ids))
        self.cons = {}
        self._closure = None

    def copy(self):
        other = Ref(self.ids)
        other.cons = dict(self.cons)
        return other

    def same(self, other):
        return self.ids == other.ids and self.cons == other.cons

    # -- operations (validity, effect) --
    def add_refused(self, a, b, t):
        if a not in self.ids or b not in self.ids or t not in (ML, CL):
            return True
        inferred = self.inferred(a, b)
        return inferred is not None and inferred != t

    def add(self, a, b, t):
        if a != b and pair(a, b) not in self.cons:
            self.cons[pair(a, b)] = t
            self._closure = None

    def delete(self, a, b):
        if a != b and self.cons.pop(pair(a, b), None) is not None:
            self._closure = None

    def add_id(self, x):
        self.ids.append(x)
        self._closure = None

    def delete_id(self, x):
        self.ids.remove(x)
        self.cons = {k: v for k, v in self.cons.items() if x not in k}
        self._closure = None

    # -- closure, from scratch, by graph search --
    def closure(self):
        if self._closure is None:
            adj = {x: [] for x in self.ids}
            for (a, b), t in self.cons.items():
                if t == ML:
                    adj[a].append(b)
                    adj[b].append(a)
            comp = {}
            comps = []
            for x in self.ids:
                if x in comp:
                    continue
                comp[x] = len(comps)
                members, todo = [x], [x]
                while todo:
                    for z in adj[todo.pop()]:
                        if z not in comp:
                            comp[z] = len(comps)
                            members.append(z)
                            todo.append(z)
                comps.append(members)
            cl = set()
            for (a, b), t in self.cons.items():
                if t == CL:
                    cl.add((comp[a], comp[b]))
                    cl.add((comp[b], comp[a]))
            self._closure = (comp, comps, cl)
        return self._closure

    def inferred(self, a, b):
        comp, _, cl = self.closure()
        if comp[a] == comp[b]:
            return ML
        return CL if (comp[a], comp[b]) in cl else None

    def consistent(self):
        comp, _, cl = self.closure()
        return not any(i == j for i, j in cl)

    def components(self):
        return sorted(sorted(c) for c in self.closure()[1])

    def complete(self):
        _, comps, cl = self.closure()
        return len(cl) == len(comps) * (len(comps) - 1)

    def shape(self):
        """A renaming-insensitive summary, for counting distinct states."""
        _, comps, cl = self.closure()
        deg = [0] * len(comps)
        for i, _j in cl:
            deg[i] += 1
        return sorted((len(c), deg[i]) for i, c in enumerate(comps)), len(self.cons)

    # -- cluster range --
    def colourable(self, k):
        _, comps, cl = self.closure()
        nb = {i: [j for (x, j) in cl if x == i] for i in range(len(comps))}
        order = sorted(nb, key=lambda i: -len(nb[i]))
        colour, budget = {}, [20000]

        def go(pos, used):
            budget[0] -= 1
            if pos == len(order) or budget[0] < 0:  # (given up: counted as colourable)
                return True
            i = order[pos]
            taken = {colour[j] for j in nb[i] if j in colour}
            for c in range(min(used + 1, k)):
                if c not in taken:
                    colour[i] = c
                    if go(pos + 1, max(used, c + 1)):
                        return True
                    del colour[i]
            return False

        return go(0, 0)

    def degeneracy(self):
        _, comps, cl = self.closure()
        nb = {i: {j for (x, j) in cl if x == i} for i in range(len(comps))}
        best = 0
        while nb:
            i = min(nb, key=lambda x: len(nb[x]))
            best = max(best, len(nb[i]))
            for j in nb.pop(i):
                nb[j].discard(i)
        return best


def snapshot(m, ids):
    """Every answer of a manager, exactly as given (order of lists included)."""
    out = {"ids": must("listing data", m.get_list_of_managed_data_IDs)}
    out["inferred"] = [m.get_inferred_constraint(a, b) for a in ids for b in ids]
    out["added"] = [m.get_added_constraint(a, b) for a in ids for b in ids]
    out["components"] = m.get_connected_components()
    out["complete"] = m.check_completude_of_constraints()
    return out


def views(m):
    """Every answer of a manager, insensitive to the order of lists and to reflexive pairs."""
    ids = sorted(m.get_list_of_managed_data_IDs())
    return {
        "ids": ids,
        "inferred": [(a, b, m.get_inferred_constraint(a, b)) for a in ids for b in ids],
        "added": [(a, b, m.get_added_constraint(a, b)) for a in ids for b in ids if a != b],
        "components": sorted(sorted(c) for c in m.get_connected_components()),
        "complete": m.check_completude_of_constraints(),
    }


def ref_views(ref):
    ids = sorted(ref.ids)
    return {
        "ids": ids,
        "inferred": [(a, b, ref.inferred(a, b)) for a in ids for b in ids],
        "added": [(a, b, (ref.cons[pair(a, b)], 1.0) if pair(a, b) in ref.cons else None) for a in ids for b in ids if a != b],
        "components": ref.components(),
        "complete": ref.complete(),
    }


def first_difference(got, want):
    for key in want:
        if got.get(key) != want[key]:
            if isinstance(want[key], list) and isinstance(got.get(key), list) and len(want[key]) == len(got[key]):
                for g, w in zip(got[key], want[key]):
                    if g != w:
                        return "%s: %r instead of %r" % (key, g, w)
            return "%s: %r instead of %r" % (key, got.get(key), want[key])
    return None


def check_core(m, ref, where):
    """C01: data, added constraints and inferred constraints are exactly those of the model."""
    ids = must("listing data", m.get_list_of_managed_data_IDs)
    ensure(sorted(ids) == sorted(ref.ids), "wrong-data", lambda: "%s: managed data are %r instead of %r" % (where, ids, ref.ids))
    comp, _, cl = ref.closure()
    inferred, added, cons = m.get_inferred_constraint, m.get_added_constraint, ref.cons
    try:
        for a in ref.ids:
            ca = comp[a]
            for b in ref.ids:
                want = ML if ca == comp[b] else (CL if (ca, comp[b]) in cl else None)
                got = inferred(a, b)
                if got != want:
                    raise Violation("wrong-inferred", "%s: inferred constraint of (%r, %r) is %r instead of %r" % (where, a, b, got, want))
                if a != b:
                    t = cons.get((a, b) if a <= b else (b, a))
                    got = added(a, b)
                    if got != (None if t is None else (t, 1.0)):
                        raise Violation("wrong-added", "%s: added constraint of (%r, %r) is %r instead of %r" % (where, a, b, got, t))
    except Violation:
        raise
    except Exception as err:
        raise Violation("unexpected-error", "%s: query raised %s: %s" % (where, type(err).__name__, err))
