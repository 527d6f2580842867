"""Seeded generators: identifiers, histories, vectors. Everything generated is explicit data in the plan."""
from sim.model import CL, ML, Ref

WEIRD = ["", " ", "  ", "a b", " a", "a ", "\t", "\n", "a\nb", '"', "'", "\\", "\\n", "/", "None", "null", "true", "MUST_LINK",
         "CANNOT_LINK", "-1", "0", "00", "1e3", "é", "e\u0301", "É", "ß", "ss", "日本", "\U0001f600", "\u200b", "\x00", "a\x00",
         "[]", "{}", "id,1", "id;1", "%s", "{0}", "a" * 300, "İ", "ﬁ", "\ud800", "NaN", "data_ID1", "nan", "inf"]


def id_pool(rng, n):
    scheme = rng.weighted([("digits", 4), ("padded", 2), ("letters", 3), ("prefix", 2), ("case", 1), ("weird", 3), ("mixed", 2), ("unicode", 1), ("joined", 1.5)])
    if scheme == "digits":
        start = rng.choice([0, 1, 7, 8, 95])
        pool = [str(start + i) for i in range(n)]
    elif scheme == "padded":
        pool = ["%03d" % i for i in range(n)]
    elif scheme == "letters":
        pool = [chr(97 + i % 26) * (1 + i // 26) for i in range(n)]
    elif scheme == "prefix":
        pool = ["d", "d_"] + ["d_%d" % i for i in range(n)]
    elif scheme == "case":
        pool = [c for i in range(n) for c in (chr(97 + i % 26) + "k" * (i // 26), chr(65 + i % 26) + "k" * (i // 26))]
    elif scheme == "weird":
        pool = list(WEIRD) + ["w%d" % i for i in range(n)]
        rng.shuffle(pool)
    elif scheme == "unicode":
        pool = [chr(0x430 + i) for i in range(n)] + [chr(0x4E00 + i) for i in range(n)] + ["é%d" % i for i in range(n)]
        rng.shuffle(pool)
    elif scheme == "joined":  # different pairs look the same once their identifiers are joined
        sep = rng.choice(["-", "_", ",", " ", "|", ":", "/", ", ", "\t", ""])
        parts = [chr(97 + i) for i in range(4)]
        pool = [sep.join(parts[i:j]) for i in range(4) for j in range(i + 1, 5)]
        rng.shuffle(pool)
        pool += ["j%d" % i for i in range(n)]
    else:
        pool = [str(i) for i in range(n)] + rng.sample(WEIRD, 6) + ["bonjour %d" % i for i in range(n)]
        rng.shuffle(pool)
    pool = list(dict.fromkeys(pool))[:n]
    order = rng.weighted([("asis", 3), ("reverse", 1), ("shuffle", 3)])
    if order == "reverse":
        pool.reverse()
    elif order == "shuffle":
        rng.shuffle(pool)
    return pool


def size(rng, small=(2, 9), big=(12, 30), p_big=0.06, p_one=0.02):
    x = rng.random()
    if x < p_one:
        return 1
    if x < p_one + p_big:
        return rng.randint(33, 70) if x < p_one + p_big * 0.12 else rng.randint(*big)
    return rng.randint(*small)


BAD_TYPES = ["", "must_link", "MUST-LINK", "UNKNOWN", "MUST_LINK ", "CANNOT", None]


def history(rng, ref, length, pool, weights=None, unknown="zz?", truth=None):
    """A list of explicit operations, steered by the reference model `ref` (which is advanced along)."""
    w = {"add": 10, "merge": 4, "contradict": 2, "repeat": 1.5, "delete": 3, "delete_any": 0.7, "newid": 1.2, "rmid": 1.2, "dupid": 0.4,
         "unknown": 0.5, "badtype": 0.5, "self": 0.5}
    if weights:
        w.update(weights)
    flavour = rng.choice(["plain", "merge", "delete", "cl", "ids"])
    if flavour == "merge":
        w["merge"] *= 3
    elif flavour == "delete":
        w["delete"] *= 3
    elif flavour == "ids":
        w["newid"] *= 3
        w["rmid"] *= 3
    p_ml = rng.choice([0.2, 0.4, 0.5, 0.7]) if flavour != "cl" else 0.1
    ops = []
    table = list(w.items())
    for _ in range(length):
        kind = rng.weighted(table)
        ids = ref.ids
        if len(ids) < 2 and kind not in ("newid", "dupid", "unknown", "self"):
            kind = "newid"
        op = None
        if kind in ("add", "merge", "badtype", "contradict"):
            a, b = rng.sample(ids, 2)
            t = ML if rng.random() < p_ml else CL
            if truth is not None:
                t = ML if truth.get(a, a) == truth.get(b, b) else CL
            if kind == "merge":
                comps = [c for c in ref.closure()[1]]
                big = [c for c in comps if len(c) > 1] or comps
                a = rng.choice(rng.choice(big))
                b = rng.choice(rng.choice(comps))
                if a == b:
                    a, b = rng.sample(ids, 2)
                known = ref.inferred(a, b)
                t = known or (ML if rng.random() < 0.6 else CL)
                if truth is not None:
                    t = ML if truth.get(a, a) == truth.get(b, b) else CL
            if kind == "contradict":
                for _try in range(6):
                    known = ref.inferred(a, b)
                    if known is not None:
                        t = CL if known == ML else ML
                        break
                    a, b = rng.sample(ids, 2)
            if kind == "badtype":
                t = rng.choice(BAD_TYPES)
            op = ["add", a, b, t]
            if rng.chance(0.08):
                op.append(rng.choice([0.0, 0.5, 1.0, 2.0, -1.0]))
        elif kind == "repeat" and ref.cons:
            (a, b), t = rng.choice(sorted(ref.cons.items()))
            op = ["add", b, a, t] if rng.chance(0.5) else ["add", a, b, t]
        elif kind == "delete" and ref.cons:
            a, b = rng.choice(sorted(ref.cons))
            op = ["del", b, a] if rng.chance(0.5) else ["del", a, b]
        elif kind == "delete_any" and ids:
            op = ["del", rng.choice(ids), rng.choice(ids)]
        elif kind == "newid":
            free = [x for x in pool if x not in ids]
            if free:
                op = ["newid", rng.choice(free)]
        elif kind == "rmid" and ids:
            op = ["rmid", rng.choice(ids)]
        elif kind == "dupid" and ids:
            op = ["newid", rng.choice(ids)]
        elif kind == "unknown":
            x = rng.choice([y for y in pool if y not in ids] or [unknown])
            y = rng.choice(ids) if ids and rng.chance(0.7) else unknown
            a, b = (x, y) if rng.chance(0.5) else (y, x)
            op = rng.choice([["add", a, b, rng.choice([ML, CL])], ["del", a, b], ["rmid", x], ["ask", a, b], ["conflict", a, b, ML]])
        elif kind == "self" and ids:
            x = rng.choice(ids)
            op = rng.choice([["add", x, x, ML], ["add", x, x, CL], ["del", x, x], ["ask", x, x]])
        if op is None:
            continue
        ops.append(op)
        apply_ref(ref, op)
    return ops


def apply_ref(ref, op):
    """Expected outcome of an operation on the model: True if accepted (and applied), False if refused."""
    kind = op[0]
    ids = ref.ids
    if kind == "add":
        if ref.add_refused(op[1], op[2], op[3]):
            return False
        ref.add(op[1], op[2], op[3])
    elif kind == "del":
        if op[1] not in ids or op[2] not in ids:
            return False
        ref.delete(op[1], op[2])
    elif kind == "newid":
        if op[1] in ids:
            return False
        ref.add_id(op[1])
    elif kind == "rmid":
        if op[1] not in ids:
            return False
        ref.delete_id(op[1])
    elif kind in ("ask", "conflict"):
        return op[1] in ids and op[2] in ids and (kind == "ask" or op[3] in (ML, CL))
    return True


def call_manager(m, op):
    """The same operation on the real manager."""
    kind = op[0]
    if kind == "add":
        if len(op) > 4:
            return m.add_constraint(op[1], op[2], op[3], op[4])
        return m.add_constraint(data_ID1=op[1], data_ID2=op[2], constraint_type=op[3])
    if kind == "del":
        return m.delete_constraint(data_ID1=op[1], data_ID2=op[2])
    if kind == "newid":
        return m.add_data_ID(data_ID=op[1])
    if kind == "rmid":
        return m.delete_data_ID(data_ID=op[1])
    if kind == "ask":
        m.get_added_constraint(data_ID1=op[1], data_ID2=op[2])
        m.get_inferred_constraint(data_ID1=op[1], data_ID2=op[2])
        return True
    if kind == "conflict":
        m.get_list_of_involved_data_IDs_in_a_constraint_conflict(data_ID1=op[1], data_ID2=op[2], constraint_type=op[3])
        return True
    raise ValueError(kind)


# ---- vectors: small integers, so that squared distances and means of few points are exact ----


def vectors_plan(rng, ids, style=None, dims=None):
    dims = dims or rng.choice([1, 2, 2, 3, 5])
    style = style or rng.weighted([("grid", 3), ("blobs", 4), ("spread", 3), ("dupes", 2), ("line", 1), ("sparse", 1), ("far", 1)])
    out = {}
    if style == "blobs":
        centres = [[rng.randrange(-20, 21) * 4 for _ in range(dims)] for _ in range(rng.randint(2, 4))]
    base = [[rng.randrange(0, 4) for _ in range(dims)] for _ in range(max(2, len(ids) // 2))]
    for k, x in enumerate(ids):
        if style == "grid":
            v = [rng.randrange(0, 3) for _ in range(dims)]
        elif style == "blobs":
            c = rng.choice(centres)
            v = [a + rng.randrange(-3, 4) for a in c]
        elif style == "spread":
            v = [rng.randrange(-50, 51) for _ in range(dims)]
        elif style == "dupes":
            v = list(rng.choice(base))
        elif style == "line":
            v = [k if d == 0 else 0 for d in range(dims)]
        elif style == "cloud":
            v = [rng.randrange(-16, 17) / 8 for _ in range(dims)]
        elif style == "equal":
            v = list(base[0])
        elif style == "far":
            v = [rng.choice([0, 1, 1000, 1001, -1000]) for _ in range(dims)]
        else:
            v = [rng.choice([0, 0, 0, 1, 2]) for _ in range(dims)]
        out[x] = v
    return {"style": style, "v": out}


def make_vectors(plan_vectors, keys=None, factory=dict):
    from scipy.sparse import csr_matrix

    v = plan_vectors["v"]
    return factory((x, csr_matrix([v[x]], dtype="float64")) for x in (keys if keys is not None else v))


def vectors_fingerprint(vectors):
    return [(k, v.data.tobytes(), v.indices.tobytes(), v.indptr.tobytes(), v.shape, v.dtype.str) for k, v in dict.items(vectors)]
