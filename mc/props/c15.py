"""C15: the outcome depends on the values only: not on the order in which the traders are listed (all permutations of
every listing), not on the names of the categories (also equal or empty names), not on whether a value is an int, an
equal float, bool or numpy number, and not on how the traders entered the market (constructor, append one by one,
append as a list, append of whole PSs, clone), and not on whether recipes and agent counts are lists or tuples, or of numpy integers."""
import itertools
from mc import dom, ref, engine
from mc.dom import C, R


def families(tier):
    th = tier == "thorough"
    F = []
    def single(recipe, *cats):
        F.append({"recipe": list(recipe), "struct": None, "counts": None, "cats": list(cats)})
    def tree(struct, counts, *cats):
        F.append({"recipe": None, "struct": struct, "counts": list(counts), "cats": list(cats)})
    single((1, 1), C([1, 3, 5], 0, 4 if th else 3), C([-4, -2, 0], 0, 4 if th else 3))
    single((1, 1), C([4, 6], 4, 4), C([-1, -2], 1, 2))
    single((1, 2), C([5, 9], 1, 2), C([-3, -2, -1], 2, 4))
    single((2, 1), C([-3, -2, -1], 2, 4), C([5, 9], 1, 3))
    single((1, 1, 1), C([5, 9], 0, 2), C([-3, -1], 0, 3), C([-2, -1], 0, 2))
    single((2, 2), C([2, 5], 2, 4), C([-1, -3], 2, 4))
    single((1, 1), C([2.25, 2.5, 2.75], 0, 3), C([-2, -1.75, -1.5], 0, 3))
    tree([0, [1, None, 2, None]], [1, 1, 1], C([3.25, 3.5, 3.75], 2, 3), C([-1.5, -1.25], 1, 2), C([-1.75, -1.25], 1, 2))
    single((1, 3), C([5, 9], 1, 2), C([-2, -1], 3, 5))
    single((3, 1), C([2, 3], 3, 5), C([-7, -5], 1, 2))
    single((2, 3), C([5, 9], 2, 3), C([-2, -1], 4, 5))
    tree([0, [1, None]], [3, 1], C([5, 2], 3, 5), C([-3, -7], 1, 2))
    tree([0, [1, None]], [1, 1], C([1, 3, 5], 0, 3), C([-4, -2], 0, 3))
    tree([0, [1, None]], [1, 2], C([5, 9], 1, 3), C([-3, -1], 1, 4))
    tree([0, [1, None, 2, None]], [1, 1, 1], C([5, 9], 0, 3), C([-3, -1], 0, 2), C([-2, -1], 0, 2))
    tree([0, [1, None, 2, None]], [1, 2, 1], C([5, 9], 1, 3), C([-2, -1], 1, 4), C([-3, -1], 1, 2))
    tree([2, [0, [1, None]]], [1, 1, 1], C([-3, -1], 0, 2), C([-2, -1], 0, 2), C([5, 9], 0, 3))
    tree([0, [1, None, 2, [3, None]]], [1, 1, 1, 1], C([8, 11], 2, 3), C([-3, -1], 0, 2), C([-3, -1], 1, 2), C([-2], 0, 1))
    if th:
        single((1, 1, 1), C([5, 7, 9], 0, 3), C([-3, -1], 0, 3), C([-2, -1], 0, 3))
        single((2, 3), C([4, 6], 2, 4), C([-3, -2, -1], 3, 5))
        tree([0, [1, None, 2, None]], [2, 1, 2], C([5, 7, 9], 2, 4), C([-3, -1], 1, 3), C([-3, -1], 2, 4))
        tree([0, [1, None, 2, [3, None]]], [1, 2, 1, 2], C([8, 11], 2, 3), C([-3, -1], 2, 4), C([-3, -1], 1, 2), C([-2, -1], 2, 2))
    return F


def shards(tier):
    return dom.split(families(tier), 60)


def auctions(f):
    if f["recipe"]:
        return ["external-competition", "external-competition/positive-only", "ascending"] + (["mcafee", "mcafee/no-heuristic"] if set(f["recipe"]) == {1} and len(f["recipe"]) == 2 else [])
    return ["integer-tree"] + (["tree"] if set(f["counts"]) == {1} else [])


def tree(auction, market, f, form):
    from mc import auct
    if form is list:
        return auct.TREE[auction](market, f["struct"], f["counts"])
    struct = f["struct"]
    if auction == "tree":
        return auct.ascending_auction_recipetree_protocol.budget_balanced_ascending_auction(market, struct)
    return auct.ascending_auction_recipetree_integer_protocol.budget_balanced_ascending_auction(market, struct, form(f["counts"]))


def result(f, auction, market, form=list):
    from mc import auct
    def go():
        if auction in auct.SINGLE:
            t = auct.SINGLE[auction](market, form(f["recipe"]))        # the experiments give tuples, the examples lists
        else:
            t = tree(auction, market, f, form)
        return (t.num_of_deals(), tuple(float(p) for p in (t.prices or ())), tuple(tuple(float(v) for v in c.values) for c in t.categories),
                round(float(t.gain_from_trade()), 6)), [c.name for c in t.categories]
    return engine.run(go)


def same(a, b):
    if isinstance(a, engine.Raised) or isinstance(b, engine.Raised):
        return False
    a, b = a[0], b[0]
    return a[0] == b[0] and a[2] == b[2] and abs(a[3] - b[3]) < 1e-5 and len(a[1]) == len(b[1]) and all(abs(x - y) < 1e-6 for x, y in zip(a[1], b[1]))


def orders(cats, tier):
    """Listings: all permutations of each category (one category at a time), and all of them reversed or rotated."""
    for i, c in enumerate(cats):
        for p in sorted(set(itertools.permutations(c))):
            yield tuple(p if j == i else cats[j] for j in range(len(cats)))
    yield tuple(tuple(reversed(c)) for c in cats)
    yield tuple(c[1:] + c[:1] for c in cats)


def numpy_integers(counts):
    import numpy
    return [numpy.int64(c) for c in counts]

FORMS = {"with the recipe or the agent counts given as a tuple": tuple, "with the numbers of the recipe as numpy integers": numpy_integers}


def variants(cats):
    """(description, function that builds the market)"""
    from agents import AgentCategory
    from markets import Market
    import numpy
    n = len(cats)
    names = ["c%d" % i for i in range(n)]
    for listing in orders(cats, None):
        yield "listed as %s" % (listing,), names, lambda l=listing: Market([AgentCategory(names[i], list(l[i])) for i in range(n)])
    for other in (["x"] * n, [""] * n, ["c%d" % (n - 1 - i) for i in range(n)], ["seller"] * (n - 1) + ["buyer"], ["{}", "%s %d", "{0}{x}", "No trade"] * n, ["ü 中\n"] * n):
        other = other[:n]
        yield "named %s" % other, other, lambda o=other: Market([AgentCategory(o[i], list(cats[i])) for i in range(n)])
    yield "float values", names, lambda: Market([AgentCategory(names[i], [float(v) for v in cats[i]]) for i in range(n)])
    yield "numpy float values", names, lambda: Market([AgentCategory(names[i], [numpy.float64(v) for v in cats[i]]) for i in range(n)])
    yield "numpy integer values", names, lambda: Market([AgentCategory(names[i], [numpy.int64(v) if v == int(v) else v for v in cats[i]]) for i in range(n)])
    yield "mixed number types", names, lambda: Market([AgentCategory(names[i], [(float(v), numpy.float64(v), v)[(i + j) % 3] for j, v in enumerate(cats[i])]) for i in range(n)])
    yield "numpy array", names, lambda: Market([AgentCategory(names[i], numpy.array(cats[i], dtype=float)) for i in range(n)])
    yield "values given as a tuple", names, lambda: Market([AgentCategory(names[i], tuple(cats[i])) for i in range(n)])
    yield "values given by an iterator", names, lambda: Market([AgentCategory(names[i], iter(cats[i])) for i in range(n)])
    def appended(how):
        m = Market([AgentCategory(names[i], []) for i in range(n)])
        if how == "one":
            for i in range(n):
                for v in reversed(cats[i]):
                    m.append_trader(i, v)
        elif how == "list":
            for i in range(n):
                m.categories[i].append(list(cats[i][1:]))
                m.categories[i].append(list(cats[i][:1]))
        elif how == "PS":
            k = min(len(c) for c in cats)
            for j in range(k):
                m.append_PS([c[j] for c in cats])
            for i in range(n):
                for v in cats[i][k:]:
                    m.categories[i].append(v)
        elif how == "extra":
            for i in range(n):
                m.categories[i].append([10**6, -10**6] + list(cats[i]))
                m.categories[i].remove_highest_agent()
                m.categories[i].remove_lowest_agent()
        elif how == "highest":
            m.categories[0].append([10**6, 10**6 + 1] + list(cats[0]))
            m.categories[0].remove_highest_agents(2)
            for i in range(1, n):
                m.categories[i].append(list(cats[i]))
        return m
    for how in ("one", "list", "PS", "extra", "highest"):
        yield "traders appended (%s)" % how, names, lambda h=how: appended(h)
    for form in FORMS:
        yield form, names, lambda: Market([AgentCategory(names[i], list(cats[i])) for i in range(n)])
    yield "cloned", names, lambda: Market([AgentCategory(names[i], list(cats[i])) for i in range(n)]).clone()


def check(f, cats, ctx, only=None):
    from mc import auct
    for a in auctions(f):
        base = result(f, a, auct.market(cats))
        ctx.transitions += 1
        if isinstance(base, engine.Raised):
            ctx.fail({"family": f, "values": cats, "auction": a, "variant": "base"}, "%s: %s" % (a, base.text))
            continue
        ctx.outcome((a, base[0][0]))
        for text, names, build in variants(cats):
            if only and text != only:
                continue
            m = engine.run(build)
            r = m if isinstance(m, engine.Raised) else result(f, a, m, FORMS.get(text, list))
            ctx.transitions += 1
            ctx.traces += 1
            if not same(base, r):
                ctx.fail({"family": f, "values": cats, "auction": a, "variant": text},
                         "%s auction of %s, recipe %s, values %s: %s the outcome is %s and otherwise it is %s" % (a, cats, f["recipe"] or f["struct"], cats, text, r, base))
            elif r[1] != names:
                ctx.fail({"family": f, "values": cats, "auction": a, "variant": text}, "%s: the categories of the outcome are called %s instead of %s" % (a, r[1], names))


def explore(shard, ctx):
    f = {k: shard[k] for k in ("recipe", "struct", "counts")}
    for cats in dom.profiles(shard["cats"], shard["part"], shard["parts"]):
        ctx.states += 1
        check(f, cats, ctx)
    ctx.sample({"family": f, "values": cats})


def replay(s, ctx):
    cats = tuple(tuple(c) for c in s["values"])
    check(s["family"], cats, ctx, None if s["variant"] == "base" else s["variant"])
