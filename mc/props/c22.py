"""C22: invalid requests are refused with a ValueError and leave no trace.  Every history that interleaves one or two
invalid requests with valid ones (all positions) is executed: each invalid request is refused, nothing changes, and
the valid requests give the results that they give without the invalid ones."""
import itertools
from mc import engine

MARKETS = [
    (((9, 8, 5), (-1, -2, -6)), (1, 1), [0, [1, None]], [1, 1]),
    (((17, 14, 13, 9), (-1, -2, -3, -4)), (1, 2), [0, [1, None]], [1, 2]),
    (((20, 18, 15), (-1, -3), (-2, -2, -5)), (1, 1, 1), [0, [1, None, 2, None]], [1, 1, 1]),
    (((8, 6), (), (-1, -1)), (1, 1, 1), [0, [1, [2, None]]], [1, 1, 1]),
    (((5,),), (1,), [0, None], [1]),
]


def invalid(k):
    cats, recipe, struct, counts = MARKETS[k]
    n = len(cats)
    out = []
    for bad in (list(recipe[:-1]), list(recipe) + [1], list(recipe) + [0], list(recipe) + [0, 0], [0] + list(recipe), [], [1] * (n + 2)):
        for a in ("optimal_trade", "external-competition", "external-competition/positive-only", "ascending", "mcafee", "mcafee/no-heuristic"):
            out.append((a, bad))
    for bad in [list(b) for b in itertools.product((0, 1, 2), repeat=n) if set(b) != {1}] + [[3] + [1] * (n - 1)]:
        for a in ("mcafee", "mcafee/no-heuristic") if bad[0] == 2 or bad[-1] != 1 else ("mcafee",):
            out.append((a, bad))
    for bad in ([5] * (n + 1), [5] * (n - 1), [], [5] * n + [None], [5] * n + [0], [0] * (n + 1)):
        out.append(("append_PS", bad))
    def odd(s):
        yield s[:-1]
        yield s + [0]
        if s[1] is not None:
            for x in odd(s[1]):
                yield [s[0], x] + s[2:]
    for bad in odd(struct):
        out += [("tree", bad), ("integer-tree", bad), ("RecipeTree", bad), ("RecipeTreeInteger", bad)]
    for bad in ([], [[1] * n, [1] * (n + 1)], [[1] * n, [1] * n, [1] * (n + 2)], [[1] * n, [1] * n + [0]], [[1] * n, [1] * (n - 1)], [[1] * (n + 1), [1] * n], [[1] * n, []]):
        out += [("prices", bad), ("prices_integer", bad)]
    return out


def valid(k):
    cats, recipe, struct, counts = MARKETS[k]
    out = [("optimal_trade", list(recipe)), ("ascending", list(recipe)), ("external-competition", list(recipe)), ("integer-tree", struct)]
    if set(recipe) == {1}:
        out.append(("mcafee", list(recipe)))
        out.append(("tree", struct))
    return out


def request(op, m, counts):
    from mc import auct
    import prices, prices_integer, recipetree, recipetree_integer
    name, arg = op
    if name == "optimal_trade":
        t, rest = m.optimal_trade(arg)
        return t.procurement_sets, str(rest)
    if name in auct.SINGLE:
        o = auct.SINGLE[name](m, arg)
    elif name in auct.TREE:
        o = auct.TREE[name](m, arg, counts)
    elif name == "append_PS":
        return m.append_PS(arg)
    elif name == "RecipeTree":
        return recipetree.RecipeTree(m.categories, arg)
    elif name == "RecipeTreeInteger":
        return recipetree_integer.RecipeTree(m.categories, arg, counts)
    elif name == "prices":
        return prices.SimultaneousAscendingPriceVectors(arg, -100)
    else:
        return prices_integer.SimultaneousAscendingPriceVectors(arg, -100)
    return o.num_of_deals(), list(o.prices or []), [list(c.values) for c in o.categories]


def history(k, ops, good):
    import copy
    from mc import auct
    cats, recipe, struct, counts = MARKETS[k]
    m = auct.market(cats)
    before = auct.snapshot(m)
    for valid_request, op in ops:
        arg = copy.deepcopy(op[1])
        r = engine.run(request, (op[0], arg), m, list(counts))
        if valid_request:
            if repr(r) != good[repr(op)]:
                return "the valid request %s gives %s, but without the invalid requests it gives %s" % (op, r, good[repr(op)])
        elif not (isinstance(r, engine.Raised) and isinstance(r.exc, ValueError)):
            return "the invalid request %s is not refused with a ValueError but gives %s" % (op, r)
        if auct.snapshot(m) != before or m.num_categories != len(cats) or len(m.categories) != len(cats):
            return "the request %s has changed the market to %s" % (op, m)
        if arg != op[1]:
            return "the request %s has changed its argument to %s" % (op, arg)
    return None


def results(k):
    from mc import auct
    return {repr(op): repr(engine.run(request, op, auct.market(MARKETS[k][0]), list(MARKETS[k][3]))) for op in valid(k)}


def shards(tier):
    return [{"market": k, "first": i, "tier": tier} for k in range(len(MARKETS)) for i in range(len(invalid(k)))]


def explore(shard, ctx):
    k = shard["market"]
    good = results(k)
    bad = invalid(k)
    first = (False, bad[shard["first"]])
    ok = [(True, o) for o in valid(k)]
    hs = [[first], *[[first, o] for o in ok], *[[o, first] for o in ok], *[[o, first, p] for o in ok for p in ok]]
    seconds = bad if shard["tier"] == "thorough" else bad[:: 3]
    hs += [[first, (False, b), o] for b in seconds for o in ok]
    for h in hs:
        ctx.states += 1
        ctx.transitions += len(h)
        ctx.traces += 1
        ctx.outcome(repr(h))
        msg = history(k, h, good)
        if msg:
            ctx.fail({"market": k, "history": h}, "market %s: %s" % (MARKETS[k][0], msg))
    ctx.sample({"market": MARKETS[k][0], "invalid request": first[1]})


def replay(s, ctx):
    msg = history(s["market"], [(o[0], (o[1][0], o[1][1])) for o in s["history"]], results(s["market"]))
    if msg:
        ctx.fail(s, msg)
