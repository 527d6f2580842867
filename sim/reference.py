"""Executable references of hierarchical and k-means constrained clustering, written from their definitions.
Every choice that the definition leaves open (ties, initial data) is explored: a reference gives the set of all admissible partitions,
or None when two distances are too close for floating point to tell apart, or when there are too many ways to break ties."""
from itertools import combinations, product
from math import dist, inf

from sim.model import CL, ML

CLOSE = 1e-4  # distances closer than this are not told apart (scikit-learn loses half of the digits near 0)
CAP = 60  # ways to break ties that are followed


class Unclear(Exception):
    pass


def canonical(groups):
    return tuple(sorted(tuple(sorted(g)) for g in groups))


# ---- hierarchical ----


_names = {}


class Node:
    def __init__(self, members, children=(), born=0):
        self.members, self.children, self.born = frozenset(members), tuple(children), born
        self._key = (tuple(sorted(self.members)), born, tuple(sorted(c.key() for c in self.children)))
        self.name = _names.setdefault(self._key, len(_names))  # a short stand-in for the key

    def key(self):
        return self._key


def centre(rows):
    return [sum(col) / len(rows) for col in zip(*rows)]


def linkage_distance(linkage, a, b, ref, v):
    if any(ref.inferred(x, y) == CL for x in a for y in b):
        return inf
    if linkage == "single":
        return min(dist(v[x], v[y]) for x in a for y in b)
    if linkage == "complete":
        return max(dist(v[x], v[y]) for x in a for y in b)
    if linkage == "average":
        return dist(centre([v[x] for x in sorted(a)]), centre([v[x] for x in sorted(b)]))
    both = sorted(a | b)
    return sum(dist(v[x], v[y]) for x, y in combinations(both, 2)) / (len(a) * len(b))


def trees(linkage, ref, v, exact):
    """Every tree that merges, at each step, two compatible groups at the least distance, then of the least merged size."""
    memo = {}

    def d(a, b):
        key = frozenset((a.members, b.members))
        if key not in memo:
            memo[key] = linkage_distance(linkage, a.members, b.members, ref, v)
        return memo[key]

    level = {(): [Node(c) for c in ref.closure()[1]]}
    step = 1
    out = {}
    while level:
        following = {}
        for nodes in level.values():
            if len(nodes) == 1:
                out[nodes[0].key()] = nodes[0]
                continue
            pairs = [(d(a, b), len(a.members) + len(b.members), a, b) for a, b in combinations(nodes, 2)]
            best = min(p[0] for p in pairs)
            if best == inf:
                root = Node(frozenset().union(*(n.members for n in nodes)), nodes, step)
                out[root.key()] = root
                continue
            near = [p for p in pairs if p[0] <= best + CLOSE]
            if len(near) > 1 and not exact:
                raise Unclear
            size = min(p[1] for p in near)
            for _, s, a, b in near:
                if s == size:
                    merged = [n for n in nodes if n is not a and n is not b] + [Node(a.members | b.members, (a, b), step)]
                    following[tuple(sorted(n.name for n in merged))] = merged
            if len(following) > CAP:
                raise Unclear
        level = following
        step += 1
        if len(out) > CAP:
            raise Unclear
    return list(out.values())


def cuts(root, nb, by):
    """Every partition obtained by splitting, until there are nb groups, the biggest (or latest merged) one; a leaf cannot be split."""
    level, out, seen = [[root]], set(), set()
    while level:
        nodes = level.pop()
        key = tuple(sorted(n.name for n in nodes))
        if key in seen:
            continue
        seen.add(key)
        if len(seen) > CAP:
            raise Unclear
        if len(nodes) >= nb:
            out.add(canonical(n.members for n in nodes))
            continue
        score = (lambda n: n.born) if by == "iteration" else (lambda n: len(n.members))
        top = max(score(n) for n in nodes)
        for n in nodes:
            if score(n) == top:
                if not n.children:
                    out.add(canonical(x.members for x in nodes))
                else:
                    level.append([x for x in nodes if x is not n] + list(n.children))
    return out


# ---- k-means ----


def kmeans(ref, v, nb, max_iteration, tolerance):
    """The partition that constrained k-means ends with, for every choice of the initial data (None where it is unclear)."""
    nb = min(nb, len(ref.ids))
    out = {}
    for chosen in combinations(ref.ids, nb):
        try:
            out[chosen] = run_kmeans(ref, v, nb, chosen, max_iteration, tolerance)
        except Unclear:
            out[chosen] = None
    return out


def run_kmeans(ref, v, nb, chosen, max_iteration, tolerance):
    ids = ref.ids
    comp, comps, cl = ref.closure()
    against = {i: [j for (x, j) in cl if x == i] for i in range(len(comps))}
    centres = {k: v[x] for k, x in enumerate(chosen)}
    before = None
    seen, history = {}, []
    for step in range(max_iteration):
        place = {}  # component -> cluster
        for x in reversed(ids):
            c = comp[x]
            if c in place:
                continue
            barred = {place[j] for j in against[c] if j in place}
            possible = sorted((dist(v[x], centres[k]), k) for k in centres if k not in barred)
            if not possible:
                place[c] = max(max(place.values()) + 1, nb)
                continue
            if len(possible) > 1 and possible[1][0] - possible[0][0] <= CLOSE:
                raise Unclear
            place[c] = possible[0][1]
        used = set(place.values())
        new = {k: centre([v[x] for x in ids if place[comp[x]] == k]) for k in used}
        shift = sum(dist(centres[k], new[k]) for k in used) if used == before else inf
        if abs(shift - tolerance) <= 1e-9 and tolerance > 0:
            raise Unclear
        centres, before = new, used
        if shift < tolerance:
            break
        key = tuple(sorted(place.items()))
        if key in seen:  # what follows an assignment depends on it only: from here on the assignments repeat themselves
            first = seen[key]
            place = dict(history[first + (max_iteration - 1 - first) % (step - first)])
            used = set(place.values())
            break
        seen[key] = step
        history.append(key)
    return canonical([x for x in ids if place[comp[x]] == k] for k in used)


# ---- spectral ----


def gaussian_similarities(ref, v):
    """exp(-squared distance / number of features), 1 between must-linked and 0 between cannot-linked data."""
    import numpy as np

    rows = np.array([v[x] for x in ref.ids], dtype=float)
    k = np.exp(-((rows[:, None, :] - rows[None, :, :]) ** 2).sum(axis=2) / rows.shape[1])
    for i, a in enumerate(ref.ids):
        for j, b in enumerate(ref.ids):
            t = ref.inferred(a, b)
            k[i, j] = 1.0 if t == ML else 0.0 if t == CL else k[i, j]
    return k


def _noisy(matrix, seed, size=1e-10, symmetric=True):
    """The matrix with small relative errors, to find out whether its result hangs on rounding."""
    import numpy as np

    if seed == 0:
        return matrix.copy()
    noise = np.random.RandomState(seed).uniform(-size, size, matrix.shape)
    return matrix * (1.0 + ((noise + noise.T) / 2 if symmetric else noise))


def _groups(ids, labels):
    groups = {}
    for x, c in zip(ids, labels):
        groups.setdefault(int(c), []).append(x)
    return canonical(groups.values())


def _well_conditioned(k, nb):
    """Similarities above one percent connect the data, and the eigenvectors of the embedding are clearly set apart from each other and from the next."""
    import numpy as np

    n = len(k)
    reached, todo = {0}, [0]
    while todo:
        i = todo.pop()
        for j in range(n):
            if j not in reached and k[i, j] > 0.01:
                reached.add(j)
                todo.append(j)
    if len(reached) < n:
        return False
    w = k.copy()
    np.fill_diagonal(w, 0.0)
    d = np.sqrt(w.sum(axis=0))
    values = np.linalg.eigvalsh(w / d[:, None] / d[None, :])[::-1]
    return bool((-np.diff(values[: nb + 1]) > 1e-3).all())


def spectral(ref, v, nb, seed):
    """The groups, when neither small errors in the similarities nor another seed would change them."""
    from sklearn.cluster import SpectralClustering

    if nb >= len(ref.ids):
        raise Unclear
    k = gaussian_similarities(ref, v)
    if not _well_conditioned(k, nb):
        raise Unclear
    out = None
    for noise, size, state in ((0, 0.0, seed), (1, 1e-10, seed), (2, 1e-5, seed), (3, 1e-4, seed + 1), (4, 1e-6, seed + 2), (5, 1e-4, seed + 3)):
        try:
            labels = SpectralClustering(n_clusters=nb, affinity="precomputed", random_state=state % (2**32)).fit_predict(_noisy(k, noise, size))
        except Exception:
            raise Unclear
        groups = _groups(ref.ids, labels)
        if out not in (None, groups):
            raise Unclear
        out = groups
    return out


# ---- affinity propagation between must-link components ----


def affinity(ref, v, max_iteration, convergence_iteration):
    import numpy as np

    comps = ref.closure()[1]
    size = len(comps)
    if size < 3:
        raise Unclear
    s = np.array([[-min(dist(v[x], v[y]) for x in a for y in b) for b in comps] for a in comps])
    np.fill_diagonal(s, 0.0)
    np.fill_diagonal(s, np.median(s))
    off = s[~np.eye(size, dtype=bool)]
    if off.max() - off.min() < CLOSE:
        raise Unclear
    out, eye = set(), np.eye(size, dtype=bool)
    # Two components that are symmetric to each other become exemplars in turn until rounding errors have grown large enough to tell them apart:
    # the result counts only when it is the same for errors far below and far above those of the code.
    for noise, power in enumerate((0, 8, 18, 18, 16, 7, 16, 18, 12, 15, 18, 16, 14, 17)):
        sn = _noisy(s.astype(np.longdouble), noise, 2 * 0.1**power, symmetric=False)
        if noise % 2:  # ties between two exemplars stay when both keep the same preference
            sn[eye] = s[eye]
        out.add(_exemplars(sn, max_iteration, convergence_iteration))
        if len(out) > 1:
            raise Unclear
    labels = out.pop()
    if labels is None:  # no convergence: everything together
        return canonical([list(ref.ids)])
    return _groups([x for c in comps for x in c], [labels[i] for i, c in enumerate(comps) for _ in c])


def _exemplars(s, max_iteration, convergence_iteration):
    """Responsibilities and availabilities by their definition (Frey and Dueck 2007), damped by one half; labels, or None without convergence."""
    import numpy as np

    n = len(s)
    eye = np.eye(n, dtype=bool)
    a, r = np.zeros((n, n), s.dtype), np.zeros((n, n), s.dtype)
    recent = []
    for it in range(max_iteration):
        rival = np.where(eye[None, :, :], -np.inf, (a + s)[:, None, :]).max(axis=2)  # for each i and j the best k other than j
        r = 0.5 * r + 0.5 * (s - rival)
        plus = np.where(eye, r, np.maximum(r, 0.0))
        total = plus.sum(axis=0)
        new = np.where(eye, total[None, :] - np.diag(plus)[None, :], np.minimum(0.0, total[None, :] - plus))
        a = 0.5 * a + 0.5 * new
        margin = np.diag(a) + np.diag(r)
        chosen = tuple(margin > 0)
        recent = (recent + [chosen])[-convergence_iteration:]
        if it >= convergence_iteration and any(chosen) and all(x == chosen for x in recent):
            break
    else:
        return None
    ex = [k for k in range(n) if chosen[k]]

    def assign(ex):
        c = [max(range(len(ex)), key=lambda k: s[i, ex[k]]) for i in range(n)]
        for k, e in enumerate(ex):
            c[e] = k
        return c

    c = assign(ex)
    best = []
    for k in range(len(ex)):
        members = [i for i in range(n) if c[i] == k]
        sums = {j: sum(s[i, j] for i in members) for j in members}
        best.append([j for j in members if sums[j] > max(sums.values()) - CLOSE])
    if np.prod([len(b) for b in best]) > 64:
        raise Unclear
    out = {canonical([[i for i in range(n) if c[i] == k] for k in range(len(ex))]) for c in map(assign, product(*best))}
    if len(out) > 1:  # in a cluster of two either could be the exemplar
        raise Unclear
    return tuple(next(k for k, g in enumerate(tuple(out)[0]) if i in g) for i in range(n))


# ---- density-based ----


def dense_groups(ref, v, eps, min_samples):
    """(group of each datum, data near a core datum): data are in one group when must-links and steps of at most eps to or from a datum near a core datum lead from one to the other."""
    ids = ref.ids
    gaps = [dist(v[x], v[y]) for x, y in combinations(ids, 2)]
    if any(abs(g - eps) < CLOSE for g in gaps):
        raise Unclear
    near = {x: [y for y in ids if dist(v[x], v[y]) <= eps] for x in ids}
    core = {x for x in ids if len(near[x]) >= min_samples}
    covered = {x for x in ids if any(y in core for y in near[x])}
    group = {}
    for x in ids:
        if x in group:
            continue
        group[x], todo = x, [x]
        while todo:
            u = todo.pop()
            for w in ids:
                if w not in group and (w in near[u] and (u in covered or w in covered) or ref.inferred(u, w) == ML):
                    group[w] = x
                    todo.append(w)
    return group, covered
