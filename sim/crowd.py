"""Sessions as big as real ones (over a thousand data in long chains), looked at only when they are complete."""
import random

from sim import seams, sut
from sim.core import ensure, must
from sim.model import CL, ML, Ref, pair


def ends(n):
    """Where the chain is broken, so that over a thousand data stay linked."""
    return list(range(1, 70)) + list(range(n - 70, n - 1))


def plan(rng):
    n = rng.randint(1160, 1300)
    return {"n": n, "links": rng.choice(["forward", "backward", "random", "halves", "star"]), "cuts": sorted(rng.sample(ends(n), rng.choice([0, 1, 3, 9]))),
            "deleted": rng.choice([0, 1, 3]), "removed": rng.choice([0, 1]), "restart": rng.chance(0.4), "seed": rng.randrange(2**32)}


def operations(p, ids):
    """The operations of the session, given by the plan's few numbers."""
    r, n = random.Random(p["seed"]), len(ids)
    edges = [(i, i + 1) for i in range(n - 1) if i + 1 not in p["cuts"]]
    if p["links"] == "star":
        edges = [(0, i) for i in range(1, n) if i not in p["cuts"]]
    elif p["links"] == "backward":
        edges.reverse()
    elif p["links"] == "random":
        r.shuffle(edges)
    elif p["links"] == "halves":
        edges = edges[::2] + edges[1::2]
    ops = [["add", *r.sample((ids[i], ids[j]), 2), ML] for i, j in edges]
    for i in p["cuts"][::2]:
        ops.insert(r.randrange(len(ops)), ["add", ids[i], ids[i - 1], CL])
    near = [e for e in edges if e[1] in set(ends(n))]
    for i, j in r.sample(near, p["deleted"]):
        ops.append(["del", ids[i], ids[j]])
    if p["removed"]:
        ops.append(["rmid", ids[r.choice(ends(n))]])
    return ops


def run(p, ctx):
    """Carries the session out; returns the manager, the model and some pairs to look at."""
    from sim import gen

    ids = ["%d" % i for i in range(p["n"])]
    m, ref = must("creating a manager of %d data" % len(ids), sut.new_manager, ids), Ref(ids)
    for k, op in enumerate(operations(p, ids)):
        accepted = op[0] != "add" or op[3] == ML or not ref.add_refused(*op[1:])
        if op[0] == "add":
            if accepted:
                ref.cons.setdefault(pair(op[1], op[2]), op[3])
                ref._closure = None
        else:
            gen.apply_ref(ref, op)
        if accepted:
            must("operation %d (%r) in a session of %d data" % (k, op, p["n"]), gen.call_manager, m, op)
    if p["restart"]:
        path = ctx.path()
        must("saving %d data" % p["n"], m.to_json, path)
        m = must("loading %d data" % p["n"], sut.load, path)
        ctx.fault("process-restart")
    r = random.Random(p["seed"] + 1)
    pairs = [tuple(r.sample(ref.ids, 2)) for _ in range(3000)]
    ctx.event("crowd", len(ref.ids), len(ref.components()))
    ctx.state(ref.shape())
    ctx.probe("crowd")
    ctx.nontrivial = True
    return m, ref, pairs


def check_closure(m, ref, pairs, where):
    got = must(where, m.get_list_of_managed_data_IDs)
    ensure(got == ref.ids, "wrong-data", lambda: "%s: the managed data are %d instead of %d, or in another order" % (where, len(got), len(ref.ids)))
    for a, b in pairs:
        got = must(where, m.get_inferred_constraint, a, b)
        ensure(got == ref.inferred(a, b), "wrong-inferred", lambda: "%s: inferred constraint of (%r, %r) is %r instead of %r" % (where, a, b, got, ref.inferred(a, b)))
    for (a, b), t in list(ref.cons.items())[::3]:
        got = must(where, m.get_added_constraint, a, b)
        ensure(got is not None and got[0] == t, "wrong-added", lambda: "%s: added constraint of (%r, %r) is %r instead of %r" % (where, a, b, got, t))


def check_questions(m, ref, pairs, where, draw):
    comps = must(where, m.get_connected_components)
    ensure(sorted(sorted(c) for c in comps) == ref.components(), "wrong-components", lambda: "%s: %d components instead of %d" % (where, len(comps), len(ref.components())))
    got = must(where, m.check_completude_of_constraints)
    ensure(got == ref.complete(), "wrong-completeness", lambda: "%s: completeness is %r instead of %r" % (where, got, ref.complete()))
    seams.ambient(draw)
    low, high = must(where, m.get_min_and_max_number_of_clusters)
    ensure(high == len(comps), "wrong-maximum", lambda: "%s: maximum number of clusters is %r instead of %r" % (where, high, len(comps)))
    ensure(2 <= low <= max(2, 1 + ref.degeneracy()), "wrong-minimum", lambda: "%s: minimum number of clusters is %r" % (where, low))
    comp, parts, _ = ref.closure()
    for a, b in pairs[:12]:
        for t in (ML, CL):
            got = must(where, m.get_list_of_involved_data_IDs_in_a_constraint_conflict, a, b, t)
            want = None if ref.inferred(a, b) in (None, t) else sorted(set(parts[comp[a]]) | set(parts[comp[b]]))
            ensure((None if got is None else sorted(got)) == want, "wrong-conflict", lambda: "%s: conflict report of (%r, %r, %s) is wrong" % (where, a, b, t))
