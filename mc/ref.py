"""
The reference model: boring, independent definitions over plain tuples, in exact arithmetic.
"cats" is a profile: one descending tuple of values per category.
"""
import itertools
from fractions import Fraction as Fr
from functools import lru_cache

EPS = 1e-6


def deals_possible(sizes, recipe):
    return min(n // r for n, r in zip(sizes, recipe) if r > 0)


def marginals(cats, recipe):
    """The gain of the 1st, 2nd, ... best deal."""
    out = []
    for d in range(deals_possible([len(c) for c in cats], recipe)):
        out.append(sum(sum(c[d * r:(d + 1) * r]) for c, r in zip(cats, recipe)))
    return out


def optimum(cats, recipe):
    """(k = largest number of deals in an optimal trade, kz = smallest number, OPT)"""
    k = kz = 0
    g = 0
    for i, m in enumerate(marginals(cats, recipe)):
        if m < 0:
            break
        k = i + 1
        g += m
        if m > 0:
            kz = i + 1
    return k, kz, g


def optimum_brute(cats, recipe):
    """The same by brute force over all choices of traders."""
    best, k, kz = 0, 0, 0
    for d in range(1, deals_possible([len(c) for c in cats], recipe) + 1):
        g = sum(max((sum(x) for x in itertools.combinations(c, d * r)), default=0) for c, r in zip(cats, recipe))
        if g > best:
            best, k, kz = g, d, d
        elif g == best:
            k = d
    return k, kz, best


# ---- recipe trees: nested lists [index, children-or-None, index, children-or-None, ...] ----------------------

def tree_paths(struct, prefix=()):
    out = []
    for i in range(0, len(struct), 2):
        p = prefix + (struct[i],)
        if struct[i + 1] is None:
            out.append(p)
        else:
            out += tree_paths(struct[i + 1], p)
    return out


def tree_nodes(struct):
    out = []
    for i in range(0, len(struct), 2):
        out.append(struct[i])
        if struct[i + 1] is not None:
            out += tree_nodes(struct[i + 1])
    return out


def tree_recipes(struct, counts):
    n = len(counts)
    return [[counts[i] if i in p else 0 for i in range(n)] for p in tree_paths(struct)]


def path_vectors(struct, counts, sizes):
    """All vectors of numbers of deals per path which the sizes of the categories allow."""
    paths = tree_paths(struct)
    nodes = sorted(set(tree_nodes(struct)))
    cap = {c: sizes[c] // counts[c] for c in nodes}
    vec = [0] * len(paths)
    out = []
    def rec(i, left):
        if i == len(paths):
            out.append(tuple(vec))
            return
        m = min(left[c] for c in paths[i])
        for x in range(m + 1):
            vec[i] = x
            l2 = dict(left)
            for c in paths[i]:
                l2[c] -= x
            rec(i + 1, l2)
        vec[i] = 0
    rec(0, cap)
    return out


@lru_cache(maxsize=4096)
def _pv(struct_key, counts, sizes):
    import json
    return path_vectors(json.loads(struct_key), counts, sizes)


def tree_max_deals(struct, counts, sizes):
    import json
    return max(sum(v) for v in _pv(json.dumps(struct), tuple(counts), tuple(sizes)))


def tree_optimum(struct, cats, counts):
    """(k, OPT, set of optimal path vectors with k deals) by brute force over all numbers of deals per path."""
    import json
    paths = tree_paths(struct)
    sums = []
    for c in cats:
        s = [0]
        for v in c:
            s.append(s[-1] + v)
        sums.append(s)
    nodes = sorted(set(tree_nodes(struct)))
    member = {c: [i for i, p in enumerate(paths) if c in p] for c in nodes}
    best, vecs = None, []
    for v in _pv(json.dumps(struct), tuple(counts), tuple(len(c) for c in cats)):
        g = sum(sums[c][counts[c] * sum(v[i] for i in member[c])] for c in nodes)
        if best is None or g > best:
            best, vecs = g, [v]
        elif g == best:
            vecs.append(v)
    k = max(sum(v) for v in vecs)
    return k, best, [v for v in vecs if sum(v) == k], min(sum(v) for v in vecs)


# ---- expected utility of one agent in a single-price outcome -------------------------------------------------

def probability(outcome, recipe, ci, report, reported_values):
    """Probability that one agent of category ci who reported `report` trades.
       Traders are drawn uniformly from the participants; equal reports are treated alike."""
    participants = outcome.traders[ci]
    if outcome.deals == 0 or recipe[ci] == 0:
        return 0.0
    c = participants.count(report)
    if c == 0:
        return 0.0
    m = reported_values.count(report)
    return min(1.0, c / m) * outcome.deals * recipe[ci] / len(participants)
