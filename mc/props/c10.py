"""C10: the optimal trade of a market, for every recipe, every bound on the number of deals and both treatments of
deals without gain, against brute force over all choices of traders."""
import itertools
from mc import dom, ref, engine
from mc.dom import C, R


def families(tier):
    th = tier == "thorough"
    F = []
    def add(recipe, *cats):
        F.append({"recipe": list(recipe), "cats": list(cats)})
    add((1, 1), C(R(-3, 4), 0, 3), C(R(-3, 4), 0, 3))
    add((1, 1), C(R(1, 5), 0, 5), C(R(-4, 0), 0, 5))
    add((1, 1), C([0.5, 1.25, 2.75], 0, 4), C([-2.75, -1.25, -0.5], 0, 4))
    add((1, 1, 1), C([-1, 2, 3, 5], 0, 3), C([-3, -1, 1], 0, 3), C([-2, 0], 0, 3))
    add((1, 2), C([1, 2, 4, 5], 0, 4), C([-3, -2, -1, 1], 0, 6))
    add((2, 1), C([-1, 1, 2, 3], 0, 6), C([-5, -3, -2, 2], 0, 4))
    add((2, 2), C([1, 2, 4], 0, 6), C([-3, -2, -1], 0, 6))
    add((3, 1), C([0, 1, 2], 0, 8), C([-5, -3, -2], 0, 3))
    add((2, 3), C([2, 4], 0, 6), C([-3, -2, -1], 0, 7))
    add((1, 2, 1), C([3, 5], 0, 3), C([-2, -1, 0], 0, 5), C([-3, -1], 0, 3))
    add((1, 0, 1), C([1, 3, 4], 0, 3), C([-2, 5], 0, 2), C([-4, -3, -1], 0, 3))
    add((0, 2), C([-2, 5], 0, 2), C([-2, -1, 0, 1, 3], 0, 5))
    add((1,), C(R(-3, 4), 0, 5))
    add((2,), C(R(-2, 3), 0, 6))
    add((1, 1, 1, 1), C([3, 6], 0, 2), C([-2, -1], 0, 2), C([-2, -1], 0, 2), C([-2, 1], 0, 2))
    add((1, 1), C([10**6, 10**6 + 1], 0, 3), C([-10**6, -999999], 0, 3))
    e = 1 / 256
    add((1, 1), C([3, 3 + e, 4, 4 + e], 0, 3), C([-4, -3 - e, -3, -3 + e], 0, 3))
    add((1, 1, 1), C([5, 5 + e], 0, 3), C([-2, -2 - e], 0, 3), C([-3 - e, -3], 0, 2))
    add((1, 2), C([1 / 1024, 3 / 1024, 5 / 1024], 0, 3), C([-3 / 1024, -2 / 1024, -1 / 1024], 0, 5))
    add((1, 1), C([3], 110, 112), C([-1], 111, 111))
    add((1, 1), C([10**7, 10**7 + 1], 0, 3), C([-10**7, -9999999], 0, 3))
    # prices of a stock exchange
    add((1, 1), C([52.72, 44.8, 33.37, 12.31], 0, 3), C([-0.1523, -3.1406, -33.36], 0, 3))
    add((1, 2), C([0.1, 0.7, 3.3], 0, 3), C([-0.11, -0.96, -4.9], 0, 5))
    # many traders, large recipes
    add((1, 1), C(R(601, 1901), 1300, 1300, True), C(R(-1300, 0), 1300, 1300, True))
    add((1, 1), C([5], 2100, 2100), C([-4], 2100, 2101))
    add((1, 2), C(R(1500, 2601), 1101, 1101, True), C(R(-2400, 0), 2400, 2400, True))
    add((30, 40), C([1, 3], 89, 91), C([-1], 119, 121))
    add((1, 100), C([120, 150], 2, 3), C([-1], 299, 301))
    add((1,) * 30, C([40, 50], 2, 3), *[C([-1], 2, 3 if i == 17 else 2) for i in range(29)])
    if th:
        add((1, 1), C(R(-4, 5), 0, 4), C(R(-4, 5), 0, 4))
        add((1, 2), C(R(1, 9), 0, 4), C(R(-5, 1), 0, 6))
        add((1, 1, 1), C(R(0, 6), 0, 3), C(R(-4, 1), 0, 3), C(R(-3, 1), 0, 3))
        add((2, 3), C([1, 2, 4], 0, 6), C([-3, -2, -1], 0, 9))
        add((2, 1, 2), C([2, 4], 0, 6), C([-5, -3, 1], 0, 3), C([-2, -1], 0, 6))
        add((3, 3), C([1, 2, 4], 0, 8), C([-3, -2, -1], 0, 8))
    for f in dom.tiny_families(tier):
        add(f["recipe"], *f["cats"])
    return F


def shards(tier):
    return dom.split(families(tier), 1200)


def brute(cats, recipe, limit):
    """best gain with at most `limit` deals, and the smallest and the largest number of deals that attain it"""
    best, lo, hi = 0, 0, 0
    for d in range(1, ref.deals_possible([len(c) for c in cats], recipe) + 1):
        if limit is not None and d > limit:
            break
        g = sum(max((sum(x) for x in (itertools.combinations(c, d * r) if len(c) < 20 else [c[:d * r]])), default=0) for c, r in zip(cats, recipe))
        if g > best:
            best, lo, hi = g, d, d
        elif g == best:
            hi = d
    return best, lo, hi


def limits(possible):
    """no bound; every bound up to one more than the possible number of deals (large markets: only near the ends)"""
    if possible < 12:
        return [None] + list(range(max(3, possible + 2)))
    return [None, 0, 1, 2, 3, 10, possible - 1, possible, possible + 1, 10 ** 6]


def judge(cats, recipe, limit, zero, oracle):
    from mc import auct
    m = auct.market(cats)
    kwargs = {}
    if limit is not None:
        kwargs["max_iterations"] = limit
    if zero is not None:
        kwargs["include_zero_gft_ps"] = zero
    result = engine.run(lambda: m.optimal_trade(list(recipe), **kwargs))
    if isinstance(result, engine.Raised):
        return result.text
    trade, rest = result
    best, lo, hi = oracle
    deals = [tuple(d) for d in trade.procurement_sets]
    eps = ref.EPS * max(1, abs(best))
    if trade.num_of_deals() != len(deals):
        return "num_of_deals() is %r, but there are %d deals" % (trade.num_of_deals(), len(deals))
    if abs(trade.gain_from_trade() - best) > eps:
        return "the gain-from-trade is %r, but the optimum is %r" % (trade.gain_from_trade(), best)
    want = lo if zero is False else hi
    if len(deals) != want:
        return "%d deals, but %d are expected" % (len(deals), want)
    gains = [sum(d) for d in deals]
    if gains != sorted(gains):
        return "the deals %s are not in ascending order of their gain" % deals
    if any(g < -eps for g in gains):
        return "a deal with a loss: %s" % deals
    if zero is False and any(g <= 0 for g in gains):
        return "a deal without gain: %s" % deals
    used = [[] for _ in cats]
    for d in deals:
        if len(d) != sum(recipe):
            return "the deal %s does not have the size of the recipe" % (d,)
        i = 0
        for c, r in enumerate(recipe):
            used[c] += d[i:i + r]
            i += r
    if len(rest.categories) != len(cats):
        return "the remaining market has %d categories" % len(rest.categories)
    for c, cat in enumerate(rest.categories):
        if list(cat.values) != sorted(cat.values, reverse=True):
            return "category %d of the remaining market is not sorted: %s" % (c, cat.values)
        if cat.name != "c%d" % c:
            return "category %d of the remaining market is called %s" % (c, cat.name)
        if sorted(used[c] + list(cat.values), reverse=True) != list(cats[c]):
            return "the traders %s of category %d are not those in the deals %s plus those who remain %s" % (list(cats[c]), c, used[c], cat.values)
    if auct.snapshot(m) != tuple(("c%d" % i, c) for i, c in enumerate(cats)):
        return "the market has changed to %s" % m
    return None


def explore(shard, ctx):
    recipe = tuple(shard["recipe"])
    for cats in dom.profiles(shard["cats"], shard["part"], shard["parts"]):
        ctx.states += 1
        for limit in limits(ref.deals_possible([len(c) for c in cats], recipe)):
            oracle = brute(cats, recipe, limit)
            for zero in (None, True, False):
                ctx.transitions += 1
                msg = judge(cats, recipe, limit, zero, oracle)
                ctx.traces += 1
                ctx.outcome((recipe, oracle))
                if msg:
                    ctx.fail({"values": cats, "recipe": recipe, "limit": limit, "zero": zero},
                             "optimal trade of %s with the recipe %s, at most %s deals, include deals without gain %s: %s" % (cats, recipe, limit, zero, msg))
        if ctx.states % 400 == 1:
            ctx.sample({"values": cats, "recipe": recipe, "optimum": brute(cats, recipe, None)})


def replay(s, ctx):
    cats = tuple(tuple(c) for c in s["values"])
    msg = judge(cats, tuple(s["recipe"]), s["limit"], s["zero"], brute(cats, s["recipe"], s["limit"]))
    if msg:
        ctx.fail(s, msg)
