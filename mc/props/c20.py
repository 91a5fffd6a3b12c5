"""C20: the accounting of single-price outcomes.  For all participants, recipes (also with categories outside the recipe)
and price vectors in the bounds, the number of deals and the two gains are compared with the average over ALL lotteries
(every choice of the traders of every category), enumerated one by one in exact arithmetic.  The same for optimal trades."""
import itertools, math
from fractions import Fraction as Fr
from mc import dom, engine
from mc.dom import C, R


def families(tier):
    th = tier == "thorough"
    F = []
    def add(recipe, *cats):
        F.append({"recipe": list(recipe), "cats": list(cats)})
    add((1, 1), C(R(-2, 4), 0, 4), C(R(-3, 1), 0, 4))
    add((1, 1), C([0.5, 2.25, 3], 0, 5), C([-2.75, -1], 0, 3))
    add((1, 2), C([2, 4, 5], 0, 4), C([-3, -2, 1], 0, 5))
    add((2, 1), C([2, 4, 5], 0, 5), C([-3, -2, 1], 0, 4))
    add((2, 3), C([2, 5], 0, 6), C([-3, -1], 0, 7))
    add((3, 1), C([2, 5, 0], 0, 7), C([-3, -1], 0, 3))
    add((1, 1, 1), C([2, 5, -1], 0, 3), C([-3, -1], 0, 4), C([-2, 0], 0, 3))
    add((1, 0, 1), C([2, 5], 0, 3), C([-2, 7], 0, 3), C([-3, -1], 0, 4))
    add((0, 1, 2), C([2, 7], 0, 3), C([4, 5], 0, 3), C([-3, -1], 0, 5))
    add((2, 1, 0), C([2, 7], 0, 5), C([-4, -5], 0, 3), C([3, 1], 0, 2))
    add((1,), C(R(-2, 4), 0, 5))
    add((0, 2), C([-1, 8], 0, 2), C(R(-2, 3), 0, 6))
    # more categories; larger recipes; many traders (the average over the lotteries by the mean of the draw without replacement)
    add((1, 1, 1, 1), C([9, 12], 0, 3), C([-3, -1], 0, 2), C([-2, -1], 1, 2), C([-2, 0], 1, 2))
    add((1, 1, 1, 1, 1), C([9, 12], 1, 2), C([-3, -1], 0, 2), C([-2, -1], 1, 2), C([-2], 1, 2), C([-1], 1, 2))
    add((1, 2, 1, 3), C([15, 22], 1, 2), C([-3, -1], 2, 4), C([-2, -1], 1, 2), C([-2, -1], 3, 5))
    add((1, 0, 2, 0, 1, 1), C([15, 22], 1, 2), C([-3], 0, 1), C([-2, -1], 2, 4), C([7], 0, 1), C([-2, -1], 1, 2), C([-1], 1, 2))
    add((1,) * 8, C([15, 22], 1, 2), *[C([-2, -1], 1, 2) if i < 4 else C([-1], 1, 1) for i in range(7)])
    add((5, 7), C([3, 4], 5, 11), C([-2, -1], 7, 15))
    add((1, 16), C([40, 50], 1, 2), C([-2, -1], 15, 17))
    add((1, 1), C([1 / 3, 0.1, 52.72], 0, 4), C([-0.1523, -2.6875], 0, 3))
    add((1, 1), C(R(601, 1901), 1300, 1300, True), C(R(-1300, -1), 1299, 1299, True))
    add((2, 3), C(R(50, 251), 201, 201, True), C(R(-299, 0), 299, 299, True))
    add((1, 100), C([120, 150], 2, 3), C([-1], 199, 301))
    if th:
        add((1, 1), C(R(-3, 5), 0, 5), C(R(-4, 2), 0, 4))
        add((2, 2), C(R(0, 5), 0, 7), C(R(-4, 0), 0, 6))
        add((1, 2, 1), C([2, 5, 8], 0, 4), C([-3, -1, 0], 0, 6), C([-2, 0], 0, 4))
        add((1, 1, 1, 1), C([6, 9], 0, 4), C([-3, -1], 0, 3), C([-3, -1], 0, 3), C([-2, 0], 0, 3))
    return F


def price_vectors(recipe):
    n = len(recipe)
    out = [[0] * n, [i + 1 for i in range(n)], [-1.5] * n, [2.5 - 3 * i for i in range(n)]]
    out += [[9] + [-1] * (n - 1), [1] + [-2] * (n - 1), [-0.25] * (n - 1) + [7.75], [10 ** 6 - i for i in range(n)]]     # a surplus, a deficit
    # balanced
    if recipe[0]:
        rest = [-2] * (n - 1)
        out.append([Fr(2 * sum(recipe[1:]), recipe[0]).__float__()] + rest)
    return out


def shards(tier):
    return dom.split(families(tier), 700)


def oracle(cats, recipe):
    """(number of deals, expected sum of values per category, number of lotteries)"""
    k = min(len(c) // r for c, r in zip(cats, recipe) if r)
    expected = []
    total = 1
    for c, r in zip(cats, recipe):
        if math.comb(len(c), r * k) * r * k > 20000:
            total *= math.comb(len(c), r * k)
            expected.append(Fr(r * k, len(c)) * sum(map(Fr, c)))
            continue
        chosen = list(itertools.combinations(range(len(c)), r * k)) if r else [()]
        total *= len(chosen)
        expected.append(sum((Fr(c[i]) for s in chosen for i in s), Fr(0)) / len(chosen))
    return k, expected, total


def judge(cats, recipe, prices, want, names=True):
    from agents import AgentCategory
    from trade import TradeWithSinglePrice
    k, expected, _ = want
    gross = float(sum(expected))
    net = gross - sum(float(p) * r * k for p, r in zip(prices, recipe))
    def go():
        t = TradeWithSinglePrice([AgentCategory("c%d" % i if names else "agent", list(c)) for i, c in enumerate(cats)], list(recipe), list(prices))
        out = [t.num_of_deals(), t.gain_from_trade(), t.gain_from_trade(including_auctioneer=True), t.gain_from_trade(including_auctioneer=False), t.gain_from_trade(True), t.gain_from_trade(False), t.num_of_deals()]
        if [tuple(c.values) for c in t.categories] != [tuple(c) for c in cats] or list(t.prices) != list(prices):
            return "the outcome has changed to %s with prices %s" % (t.categories, t.prices)
        return out
    got = engine.run(go)
    if isinstance(got, engine.Raised):
        return got.text
    if isinstance(got, str):
        return got
    for name, x, y in zip(("num_of_deals()", "gain_from_trade()", "gain_from_trade(including_auctioneer=True)", "gain_from_trade(including_auctioneer=False)",
                           "gain_from_trade(True)", "gain_from_trade(False)", "num_of_deals()"), got, (k, gross, gross, net, gross, net, k)):
        if abs(x - y) > 1e-9 * max(1, abs(y)):
            return "%s is %r, but the average over all lotteries is %r" % (name, x, y)
    return None


def judge_balance(cats, recipe):
    """every list of deals that can be made from the participants, in the given order"""
    from trade import TradeWithMaterialBalance
    k = min(len(c) // r for c, r in zip(cats, recipe) if r)
    deals = [tuple(v for c, r in zip(cats, recipe) for v in c[d * r:(d + 1) * r]) for d in range(k)]
    def go():
        t = TradeWithMaterialBalance(list(deals))
        return t.num_of_deals(), t.gain_from_trade(), repr(t)
    got = engine.run(go)
    if isinstance(got, engine.Raised):
        return got.text
    want = (k, sum(v for d in deals for v in d), "%d deals: %s" % (k, deals))
    if got[0] != want[0] or abs(got[1] - want[1]) > 1e-9 or got[2] != want[2]:
        return "the deals %s give %s instead of %s" % (deals, got, want)
    return None


def explore(shard, ctx):
    recipe = shard["recipe"]
    for cats in dom.profiles(shard["cats"], shard["part"], shard["parts"]):
        want = oracle(cats, recipe)
        ctx.states += 1
        ctx.note("lotteries", want[2])
        ctx.outcome((tuple(recipe), want[0]))
        for prices in price_vectors(recipe):
            ctx.transitions += 1
            ctx.traces += 1
            msg = judge(cats, recipe, prices, want) or judge(cats, recipe, prices, want, False)
            if msg:
                ctx.fail({"values": cats, "recipe": recipe, "prices": prices}, "participants %s, recipe %s, prices %s: %s" % (cats, recipe, prices, msg))
        ctx.transitions += 1
        msg = judge_balance(cats, recipe)
        if msg:
            ctx.fail({"values": cats, "recipe": recipe, "prices": None}, msg)
    ctx.sample({"participants": cats, "recipe": recipe, "lotteries": want[2]})


def replay(s, ctx):
    cats = tuple(tuple(c) for c in s["values"])
    msg = judge_balance(cats, s["recipe"]) if s["prices"] is None else judge(cats, s["recipe"], s["prices"], oracle(cats, s["recipe"])) or judge(cats, s["recipe"], s["prices"], oracle(cats, s["recipe"]), False)
    if msg:
        ctx.fail(s, msg)
