"""C29: the tables of the simulation experiments.  The random draws of the traders' values are enumerated: every
combination of draws from a grid in every value range is executed on the real experiment functions, and every cell of
every row is recomputed from the auctions and the optimum of the drawn markets."""
import itertools, re
from mc import env, engine, ref
env.install()


GRIDS = {2: [0.0, 0.97], 3: [0.02, 0.5, 1.0], 4: [0.0, 0.31, 0.7, 1.0]}
TREES = [([0, [1, None]], [1, 1]), ([0, [1, None, 2, None]], [1, 1, 1]), ([0, [1, [2, None]]], [1, 1, 1]), ([0, [1, None]], [1, 2]), ([0, [1, None, 2, None]], [2, 1, 2]),
         ([1, [0, None]], [1, 1]), ([2, [0, None, 1, None]], [1, 1, 1]), ([1, [0, [2, None]]], [1, 2, 1]), ([1, [0, None]], [2, 1])]
RANGES = [[(1, 10), (-10, -1)], [(0, 7), (-9, 1), (-8, -2)], [(2, 12), (-6, -1), (-5, 0)]]


def stub(shift):
    """An auction in which the optimal traders trade and everyone pays the highest value of the category plus shift: the
    traders lose (or with a negative shift the auctioneer)."""
    def auction(market, recipe):
        from trade import TradeWithSinglePrice
        from agents import AgentCategory
        cats = [list(c.values) for c in market.categories]
        k = ref.optimum(cats, recipe)[0]
        return TradeWithSinglePrice([AgentCategory("c", c[:k * r]) for c, r in zip(cats, recipe)], list(recipe), [max(c) + shift for c in cats])
    return auction


STUBS = {"stub, the traders lose": stub(2), "stub, the auctioneer loses": stub(-25)}


def shards(tier):
    T = tier == "thorough"
    out = []
    for auction in ("external-competition", "ascending", "mcafee", "mcafee/no-heuristic", "external-competition/positive-only"):
        mc = auction.startswith("mcafee")
        for recipe, ranges in [((1, 1), RANGES[0])] + ([] if mc else [((1, 2), RANGES[1]), ((2, 1), RANGES[2]), ((1, 1, 1), RANGES[1])]):
            s = sum(recipe)
            for nums, its in [((1,), 1), ((1,), 2), ((2,), 1), ((1, 2), 1), ((2, 1), 1)] + ([((2,), 2), ((1,), 3), ((1, 2), 2)] if T else []):
                draws = s * sum(nums) * its
                g = 4 if draws <= 4 else 3 if draws <= (9 if T else 6) else 2
                if g ** draws <= (70000 if T else 1100):
                    out.append({"kind": "single", "auction": auction, "recipe": list(recipe), "ranges": ranges, "nums": list(nums), "its": its, "g": g, "size": g ** draws})
    for auction in STUBS:
        for recipe, ranges in [((1, 1), RANGES[0]), ((1, 2), RANGES[1])]:
            for nums, its in [((1,), 1), ((1,), 2), ((2,), 1), ((1, 2), 1)]:
                draws = sum(recipe) * sum(nums) * its
                g = 4 if draws <= 4 else 3 if draws <= 6 else 2
                out.append({"kind": "single", "auction": auction, "recipe": list(recipe), "ranges": ranges, "nums": list(nums), "its": its, "g": g, "size": g ** draws})
    for recipes in ([(1, 1)], [(1, 2)], [(2, 1)], [(1, 1, 1)], [(1, 1), (1, 2)], [(1, 2), (1, 1)]):
        ranges = [(1, 9), (-9, -1), (-7, -2)]
        for nums, its in [((1,), 1), ((1,), 2), ((2,), 1), ((1, 2), 1), ((2, 1), 1)] + ([((2,), 2), ((1, 2, 1), 1)] if T else []):
            draws = sum(sum(r) for r in recipes) * sum(nums) * its
            g = 4 if draws <= 4 else 3 if draws <= (9 if T else 6) else 2
            if g ** draws <= (70000 if T else 5000):
                out.append({"kind": "compare", "recipes": [list(r) for r in recipes], "ranges": ranges, "nums": list(nums), "its": its, "g": g, "size": g ** draws})
    for struct, counts in TREES:
        n = len(counts)
        for variant in (["tree", "integer-tree"] if all(c == 1 for c in counts) else ["integer-tree"]):
            for nums, its in [((1,), 1), ((1,), 2), ((2,), 1), ((1, 2), 1), ((2, 1), 1)] + ([((2,), 2)] if T else []):
                draws = sum(counts) * sum(nums) * its
                g = 4 if draws <= 4 else 3 if draws <= (9 if T else 6) else 2
                if g ** draws <= (70000 if T else 1100):
                    out.append({"kind": "tree", "variant": variant, "struct": struct, "counts": counts, "values": [2, 1, 3][:n],
                                "ranges": [(1, 10), (-10, -1)], "nums": list(nums), "its": its, "g": g, "size": g ** draws})
    # numbers of traders per category that differ from the agents per deal, also fractions; fractional value factors (as in experiment_recpietree*.py)
    for struct, counts, per, values in [([0, [1, None]], [1, 1], [0.5, 1], [2, 1]), ([0, [1, None]], [1, 1], [1, 0.5], [1, 1.5]), ([0, [1, None]], [1, 2], [1, 1.5], [1, 1]),
                                        ([0, [1, None, 2, [3, None]]], [1, 1, 1, 1], [1, 0.5, 0.5, 0.5], [2, 2, 1, 1]), ([0, [1, None, 2, [3, None]]], [1, 2, 1, 2], [1, 1, 0.5, 1], [3, 1.5, 1, 1]),
                                        ([0, [1, None, 2, None]], [1, 1, 1], [2, 1, 0.5], [1, 1, 1])]:
        for variant in (["tree", "integer-tree"] if all(c == 1 for c in counts) else ["integer-tree"]):
            for nums, its in [((2,), 1), ((3,), 1), ((2, 3), 1), ((2,), 2), ((1, 2), 1)]:
                draws = sum(int(n * p) for n in nums for p in per) * its
                g = 4 if draws <= 4 else 3 if draws <= (9 if T else 6) else 2
                if g ** draws <= (70000 if T else 1100):
                    out.append({"kind": "tree", "variant": variant, "struct": struct, "counts": counts, "per": per, "values": values,
                                "ranges": [(1, 10), (-10, -1)], "nums": list(nums), "its": its, "g": g, "size": g ** draws})
    # longer experiments: all histories that differ from a periodic base history in one draw (thorough: more numbers)
    long = []
    for pattern in ([2, 1], [3, 0, 1, 2], [1], [0, 2, 2]):
        for nums, its in [((10,), 1), ((3, 5), 3), ((2,), 8), ((1, 2, 3, 4), 2)] + ([((12, 4), 4), ((25,), 1), ((1,), 20)] if T else []):
            base = {"pattern": pattern, "nums": list(nums), "its": its, "g": 4, "size": 500}
            for auction in ("external-competition", "ascending", "mcafee"):
                for recipe in [(1, 1)] + ([] if auction == "mcafee" else [(1, 2), (1, 1, 1)]):
                    long.append(dict(base, kind="single", auction=auction, recipe=list(recipe), ranges=[(1, 10), (-10, -1), (-4, 2)]))
            for recipes in ([[1, 1]], [[1, 2], [1, 1]]):
                long.append(dict(base, kind="compare", recipes=recipes, ranges=[(1, 9), (-9, -1), (-7, -2)]))
            for struct, counts, per, values in [([0, [1, None]], [1, 1], [1, 1], [1, 1]), ([0, [1, None, 2, [3, None]]], [1, 1, 1, 1], [1, 0.5, 0.5, 0.5], [2, 2, 1, 1]), ([0, [1, None, 2, [3, None]]], [1, 2, 1, 2], [2, 2, 1, 2], [3, 1.5, 1, 1])]:
                for variant in (["tree", "integer-tree"] if all(c == 1 for c in counts) else ["integer-tree"]):
                    long.append(dict(base, kind="tree", variant=variant, struct=struct, counts=counts, per=per, values=values, ranges=[(1, 10), (-10, -1)]))
    # ranges as in the scripts of the repository, and larger ones; more traders
    for pattern in ([2, 1], [3, 0, 1, 2]):
        for ranges in ([(1, 1000), (-1000, -1), (-700, 3)], [(1, 10**6), (-10**6, -1), (-70001, 5)]):
            for nums, its in [((3, 5), 2)] + ([((60,), 1)] if T or ranges[0][1] == 10**6 else []):
                many = nums[0] == 60
                base = {"pattern": pattern, "nums": list(nums), "its": its, "g": 4, "size": 500, "ranges": ranges}
                for auction in ("external-competition", "ascending", "mcafee"):
                    for recipe in [(1, 1)] + ([] if auction.startswith("mcafee") or many else [(1, 1, 1)]):
                        long.append(dict(base, kind="single", auction=auction, recipe=list(recipe)))
                for struct, counts, per, values in [([0, [1, None]], [1, 1], [1, 1], [1, 1]), ([0, [1, None, 2, [3, None]]], [1, 1, 1, 1], [1, 0.5, 0.5, 0.5], [2, 2, 1, 1])][:1 if many else 2]:
                    for variant in ("tree", "integer-tree"):
                        long.append(dict(base, kind="tree", variant=variant, struct=struct, counts=counts, per=per, values=values))
                long.append(dict(base, kind="compare", recipes=[[1, 1]] if many else [[1, 2], [1, 1]]))
    # larger recipes
    for pattern in ([2, 1], [3, 0, 1, 2], [1, 0, 3]):
        for nums, its in [((2,), 1), ((1, 2), 2)] + ([((3, 1), 3)] if T else []):
            base = {"pattern": pattern, "nums": list(nums), "its": its, "g": 4, "size": 500}
            for auction in ("external-competition", "ascending"):
                for recipe in ((1, 4), (2, 3), (3, 1), (1, 1, 1, 1), (1, 2, 3), (4, 3, 2, 1), (1, 16), (1,) * 9):
                    long.append(dict(base, kind="single", auction=auction, recipe=list(recipe), ranges=[(1, 90), (-20, -1)] + [(-30 + i, i - 3) for i in range(7)]))
            for recipes in ([[1, 3], [2, 2], [2, 2, 2]], [[1, 2, 3, 4]], [[1, 8], [3, 2]], [[1, 1, 1], [1, 1, 1, 1], [1, 1]]):
                long.append(dict(base, kind="compare", recipes=recipes, ranges=[(1, 9), (-9, -1), (-7, -2), (-8, 0)]))
    res = [dict(s, first=[]) for s in long]
    for s in sorted(out, key=lambda s: s["size"]):
        if s["size"] > 500:
            res += [dict(s, first=[i, j]) for i in range(s["g"]) for j in range(s["g"])]
        else:
            res.append(dict(s, first=[]))
    return res


def execute(shard, choices):
    from mc import auct
    env.grid = GRIDS[shard["g"]]
    kind = shard["kind"]
    ranges = [tuple(r) for r in shard["ranges"]]
    if kind == "single":
        import experiment as E
        return env.play(choices, lambda d: E.experiment("t.csv", STUBS.get(shard["auction"]) or auct.SINGLE[shard["auction"]], "the auction", tuple(shard["recipe"]), ranges, list(shard["nums"]), shard["its"]))
    if kind == "compare":
        import experiment_comparing_sbb as E
        return env.play(choices, lambda d: E.experiment("t.csv", [tuple(r) for r in shard["recipes"]], ranges, list(shard["nums"]), shard["its"]))
    if shard["variant"] == "tree":
        import experiment_ascending_auction_recipetree_random as E
        return env.play(choices, lambda d: E.experiment("t.csv", shard["struct"], ranges, list(shard["nums"]), shard["its"], list(shard.get("per") or shard["counts"]), list(shard["values"])))
    import experiment_ascending_auction_recipetree_integer_random as E
    return env.play(choices, lambda d: E.experiment("t.csv", shard["struct"], ranges, list(shard["nums"]), shard["its"], list(shard.get("per") or shard["counts"]), list(shard["values"]), list(shard["counts"])))


def drawn(log, intervals, sizes):
    """The drawn markets: a list (one per market) of lists of values per category; a text when the draws do not fit.
    intervals: per category its interval (all different); sizes: per market the number of traders per category."""
    per = {}
    for kind, interval, v in log:
        if kind != "uniform":
            return "unexpected random draw %s%s" % (kind, interval)
        per.setdefault(tuple(interval), []).append(v)
    pos = {k: 0 for k in per}
    out = []
    for size in sizes:
        m = []
        for interval, n in zip(intervals, size):
            p = pos.get(interval, 0)
            got = per.get(interval, [])[p:p + n]
            if len(got) < n:
                return "too few draws from %s: %d in all" % (interval, len(per.get(interval, [])))
            pos[interval] = p + n
            m.append(tuple(sorted((round(v) for v in got), reverse=True)))
        out.append(tuple(m))
    for k in per:
        if pos[k] != len(per[k]):
            return "%d draws from %s, %d are expected" % (len(per[k]), k, pos[k])
    return out


_single, _tree = {}, {}
def single(auction, cats, recipe):
    """(deals, gain, gain without auctioneer, optimal deals, optimal gain)"""
    key = (auction, cats, tuple(recipe))
    if key not in _single:
        from mc import auct
        t = STUBS[auction](auct.market(cats), recipe) if auction in STUBS else auct.play(auction, cats, recipe).trade
        k, _, best = ref.optimum(cats, recipe)
        _single[key] = (t.num_of_deals(), t.gain_from_trade(including_auctioneer=True), t.gain_from_trade(including_auctioneer=False), k, best)
    return _single[key]


def tree(variant, cats, struct, counts):
    """(deals, gain, optimal deals, optimal gain, kmin, kmax)"""
    key = (variant, cats, repr(struct), tuple(counts))
    if key not in _tree:
        from mc import auct
        import recipetree, recipetree_integer
        t = auct.play(variant, cats, struct, counts).trade
        k, best, vectors, kz = ref.tree_optimum(struct, cats, counts)
        m = auct.market(cats)
        rt = recipetree.RecipeTree(m.categories, struct) if variant == "tree" else recipetree_integer.RecipeTree(m.categories, struct, list(counts))
        kmin, kmax = rt.optimal_trade_with_counters()[3:5]
        _tree[key] = (t.num_of_deals(), t.gain_from_trade(), k, best, kmin, kmax)
    return _tree[key]


def ratio(a, b):
    return a * 100 / b if b else 0


def numbers(recipe):
    """A cell with exactly the numbers of the recipe, in whatever form."""
    return lambda v: [int(x) for x in re.findall(r"\d+", str(v))] == list(recipe)


def compare_rows(rows, expected):
    if len(rows) != len(expected):
        return "%d rows instead of %d" % (len(rows), len(expected))
    for i, (row, want) in enumerate(zip(rows, expected)):
        for column, w in want.items():
            if column not in row:
                return "row %d has no column %s" % (i, column)
            v = row[column]
            ok = (w(v) if callable(w) else str(v) == w[0] if isinstance(w, list) else v in w if isinstance(w, set) else env.near(v, w[0], w[1]))
            if not ok:
                return "row %d: %s is %r, but it should be %s" % (i, column, v, w)
    return None


def expected_rows(shard, log):
    nums, its = shard["nums"], shard["its"]
    ranges = [tuple(r) for r in shard["ranges"]]
    kind = shard["kind"]
    rows = []
    if kind == "single":
        recipe = shard["recipe"]
        markets = drawn(log, ranges[:len(recipe)], [[n * r for r in recipe] for n in nums for _ in range(its)])
        if isinstance(markets, str):
            return markets
        for i, n in enumerate(nums):
            rs = [single(shard["auction"], m, recipe) for m in markets[i * its:(i + 1) * its]]
            d, g, net, k, best = [sum(x) for x in zip(*rs)]
            rows.append({"iterations": [str(its)], "auction_name": ["the auction"], "recipe": [":".join(map(str, recipe))], "num_of_agents": [str(n)],
                         "mean_optimal_count": (k / its, 2), "mean_auction_count": (d / its, 2), "count_ratio": (ratio(d, k), 2), "mean_optimal_gft": (best / its, 2),
                         "mean_auction_total_gft": (g / its, 2), "total_gft_ratio": (ratio(g, best), 2), "mean_auction_market_gft": (net / its, 2), "market_gft_ratio": (ratio(net, best), 2)})
    elif kind == "compare":
        # different recipes may draw from the same intervals: sizes in the order of recipes, numbers, iterations
        plan, sizes, intervals = [], [], []
        pos = 0
        for recipe in shard["recipes"]:
            factor = [sum(recipe) - recipe[0]] + [recipe[0]] * (len(recipe) - 1)
            iv = [(a * f, b * f) for (a, b), f in zip(ranges, factor)]
            for n in nums:
                for _ in range(its):
                    c = n * sum(recipe)
                    m = drawn(log[pos:pos + c], iv, [[n * r for r in recipe]])
                    if isinstance(m, str):
                        return m
                    plan.append(m[0])
                    pos += c
        if pos != len(log):
            return "%d draws instead of %d" % (len(log), pos)
        p = 0
        for recipe in shard["recipes"]:
            wins = {"gft": [[0, 0, 0]], "k": [[0, 0, 0]]}      # alternatives, because of rounding
            for n in nums:
                ms = plan[p:p + its]; p += its
                e = [single("external-competition", m, recipe) for m in ms]
                a = [single("ascending", m, recipe) for m in ms]
                for what, x, y in (("k", sum(r[0] for r in e), sum(r[0] for r in a)), ("gft", sum(r[1] for r in e), sum(r[1] for r in a))):
                    close = x != y and abs(x - y) < 1e-9 * max(1, abs(x))
                    which = [0, 1, 2] if close else [0 if x > y else 1 if x == y else 2]
                    wins[what] = [w[:j] + [w[j] + 1] + w[j + 1:] for w in wins[what] for j in which]
            N = len(nums)
            row = {"recipe": numbers(recipe)}
            for j, name in enumerate(("external_wins", "tie", "ascending_wins")):
                row[name + "_gft"] = {int(w[j] * 100 / N) for w in wins["gft"]}
                row[name + "_k"] = {int(w[j] * 100 / N) for w in wins["k"]}
                row[name] = {w[j] for w in wins["gft"]}
            rows.append(row)
    else:
        counts, values, struct = shard["counts"], shard["values"], shard["struct"]
        iv = [(ranges[min(c, 1)][0] * values[c], ranges[min(c, 1)][1] * values[c]) for c in range(len(counts))]
        markets = drawn(log, iv, [[int(n * c) for c in shard.get("per") or counts] for n in nums for _ in range(its)])
        if isinstance(markets, str):
            return markets
        for i, n in enumerate(nums):
            rs = [tree(shard["variant"], m, struct, counts) for m in markets[i * its:(i + 1) * its]]
            d, g, k, best, lo, hi = [sum(x) for x in zip(*rs)]
            km = lo / its
            rows.append({"iterations": [str(its)], "numofagents": [str(n)], "meanoptimalcount": (k / its, 5), "meanoptimalkmin": (km, 5), "meanoptimalkmax": (hi / its, 5),
                         "gftformula": (max(0, (km - 1) / (km + 1) * 100), 5), "meanauctioncount": (d / its, 5), "countratio": (ratio(d, k), 5),
                         "meanoptimalgft": (best / its, 5), "meanauctiontotalgft": (g / its, 5), "totalgftratio": (ratio(g, best), 5)})
    return rows


def judge(shard, result, tables, log):
    if isinstance(result, engine.Raised):
        return result.text
    if len(tables) != 1 or not tables[0].finished or tables[0].csvFileName != "t.csv":
        return "the table is not written to its file"
    want = expected_rows(shard, log)
    if isinstance(want, str):
        return want
    return compare_rows(tables[0].rows, want)


def explore(shard, ctx):
    run = lambda c: execute(shard, c)
    for made, (result, tables), c in env.deviations(run, shard["pattern"]) if "pattern" in shard else env.paths(run, shard["first"]):
        ctx.states += 1
        ctx.transitions += 1
        message = judge(shard, result, tables, c.log)
        ctx.traces += sum(len(t.rows) for t in tables)
        if message:
            ctx.fail({"shard": shard, "choices": made}, message)
        ctx.outcome(str([list(r.values()) for t in tables for r in t.rows]))
    ctx.sample({"shard": {k: shard[k] for k in shard if k != "first"}, "draws": [(l[1], l[2]) for l in c.log], "rows": [str(r) for t in tables for r in t.rows]})


def replay(scenario, ctx):
    c = env.Choices(scenario["choices"])
    result, tables = execute(scenario["shard"], c)
    message = judge(scenario["shard"], result, tables, c.log)
    print([(l[1], l[2]) for l in c.log], [t.rows for t in tables])
    if message:
        ctx.fail(scenario, message)
