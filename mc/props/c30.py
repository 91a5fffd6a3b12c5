"""C30: the tables of the stock experiments.  Prices come from every combination over a grid of prices; every order that the
shuffling can give (all permutations up to 4 prices; of longer lists reversal, rotations and neighbour swaps) is
executed on the real experiment functions, and every cell of every row is recomputed from the auctions and the optimum."""
import itertools
from mc import env, engine, ref
from mc.props import c29
from mc.props.c29 import ratio, compare_rows, single, tree
env.install()

NAMES = ["AA", "BB", "C", "A", "BRK.B"]
SINGLE = ["external-competition", "ascending"]
DOUBLE = ["external-competition", "mcafee", "mcafee/no-heuristic"]
LABEL = {"external-competition": "SBBExternal", "ascending": "SBBAscending", "mcafee": "McAfee", "mcafee/no-heuristic": "McAfeeWithoutHeuristic"}


def grids(sizes, buyers, sellers):
    """all markets: per category the multisets (with a fixed listing) of the grid"""
    return [list(map(list, x)) for x in itertools.product(*[itertools.combinations_with_replacement(buyers if i == 0 else sellers, n) for i, n in enumerate(sizes)])]


def shards(tier):
    T = tier == "thorough"
    out = []
    B, S = [9, 4, 3], [-2, -8, -5]
    # (a) stock/experiment_stock.py: one row per stock
    for recipe, sizes in [((1, 1), (2, 2)), ((1, 1), (3, 2)), ((1, 2), (2, 4)), ((2, 1), (4, 2)), ((1, 1, 1), (2, 2, 2)), ((1, 2), (2, 3)), ((2, 2), (4, 4)), ((1, 2), (3, 5)), ((1, 3), (1, 5)), ((2, 1), (5, 3))]:
        for a in DOUBLE + ["ascending"] if recipe == (1, 1) else SINGLE:
            out.append({"kind": "stock", "auctions": [a], "recipe": list(recipe), "sizes": list(sizes)})
    # (b) one row per stock and number of agents
    for recipe, sizes, nums in [((1, 1), (3, 3), [1, 2]), ((1, 1), (2, 2), [1, 5]), ((1, 1), (2, 2), [5]), ((1, 2), (2, 4), [1, 2]), ((1, 2), (2, 4), [1, 2, 7]), ((2, 1), (4, 2), [1, 2]), ((1, 1, 1), (2, 2, 2), [2, 1]), ((1, 1), (2, 2), None)]:
        for a in ([SINGLE, DOUBLE, ["mcafee"]] if recipe == (1, 1) else [SINGLE, ["ascending"]]):
            out.append({"kind": "numbers", "auctions": a, "recipe": list(recipe), "sizes": list(sizes), "nums": nums})
    # (c) prices of one list, buyers and sellers weighted; rows per stock and average rows
    for recipe, n, nums, its in [((1, 1), 4, [1, 2], 1), ((1, 1), 4, [2], 2), ((1, 2), 6, [1, 2], 1), ((2, 1), 6, [2], 1), ((1, 1, 1), 6, [1, 2], 2), ((2, 2), 4, [1], 1)]:
        for a in ([SINGLE, DOUBLE] if recipe == (1, 1) else [SINGLE]):
            out.append({"kind": "list", "auctions": a, "recipe": list(recipe), "n": n, "nums": nums, "its": its})
    # (d) shuffled list, average over stocks and iterations
    for recipe, n, nums, its in [((1, 1), 4, [1], 1), ((1, 1), 2, [1], 2), ((1, 1), 4, [2], 1), ((1, 1), 2, [2], 1), ((1, 2), 3, [1], 1), ((2, 1), 3, [1], 2), ((1, 1), 2, [1, 2], 1), ((1, 1, 1), 3, [1], 1), ((2, 2), 4, [1], 1), ((1, 2), 6, [2], 1)]:
        for a in ([SINGLE, DOUBLE] if recipe == (1, 1) else [SINGLE]):
            out.append({"kind": "shuffled", "auctions": a, "recipe": list(recipe), "n": n, "nums": nums, "its": its, "random": False})
    for recipe, nums, its in [((1, 1), [1], 1), ((1, 1), [2], 1), ((1, 1), [1], 2), ((1, 1), [1, 2], 1), ((1, 2), [1], 1), ((2, 1), [1], 1), ((1, 1, 1), [1], 1)]:
        out.append({"kind": "shuffled", "auctions": SINGLE, "recipe": list(recipe), "n": 1, "nums": nums, "its": its, "random": True})
    # (e) trees
    for struct, counts in c29.TREES:
        for variant in (["tree", "integer-tree"] if all(c == 1 for c in counts) else ["tree-weights"]):
            if variant == "tree-weights":
                continue
            for sizes, nums, its in [([2] * len(counts), [1, 2], 1), ([2] * len(counts), [2], 1), ([2] * len(counts), [1], 2), ([2] * len(counts), [1, 5], 1), ([2] * len(counts), None, 1), ([3] * len(counts), [2], 1)]:
                if max(sizes) == 3 and len(counts) > 2 and not T:
                    continue
                out.append({"kind": "tree", "variant": variant, "struct": struct, "counts": counts, "sizes": sizes, "nums": nums, "its": its})
    # numbers of prices per category that differ from the number of the root, also fractions (as in experiment_recpietree*.py)
    for struct, per, sizes in [([0, [1, None]], [1, 0.5], [2, 2]), ([0, [1, None]], [0.5, 1], [2, 2]), ([0, [1, None]], [1, 2], [2, 4]), ([0, [1, None, 2, None]], [1, 0.5, 0.5], [2, 2, 1]),
                               ([0, [1, None, 2, [3, None]]], [1, 0.5, 0.5, 0.5], [2, 1, 2, 1])]:
        for variant in ("tree", "integer-tree"):
            for nums, its in [([2], 1), ([1, 2], 1), ([2, 5], 1), ([2], 2)]:
                out.append({"kind": "tree", "variant": variant, "struct": struct, "counts": [1] * len(per), "per": per, "sizes": sizes, "nums": nums, "its": its})
    for variant in ("tree", "integer-tree"):
        for nums, its in [([1, 5], 2), ([5], 2), ([1, 2, 5], 2), (None, 2)]:
            out.append({"kind": "tree", "variant": variant, "struct": [0, [1, None]], "counts": [1, 1], "sizes": [2, 2], "nums": nums, "its": its})
    # (f) trees with several agents of a category per recipe: the integer experiment gives them proportionally more prices
    res = []
    for s in out:
        stocks = stock_sets(s, T)
        for i in range(0, len(stocks), 12 if s["kind"] in ("tree", "shuffled") else 60):
            res.append(dict(s, stocks=stocks[i:i + (12 if s["kind"] in ("tree", "shuffled") else 60)]))
    # longer experiments (more stocks, prices, numbers and iterations): all histories that differ in one shuffle from a periodic base history
    def series(k, n, sign=1):
        return [sign * (1 + (7 * i * i + 3 * i + 5 * k) % 23) for i in range(n)]
    for recipe, n, nums, its in [((1, 1), 8, [1, 2, 4], 2), ((1, 2), 9, [1, 3], 3), ((1, 1, 1), 12, [2, 4], 1), ((1, 1), 4, [2], 6), ((1, 4), 10, [1, 2], 2), ((4, 3, 2, 1), 20, [2, 1], 1), ((1,) * 5, 10, [1, 2], 2), ((2, 3), 10, [2], 2)]:
        for count in (1, 3, 5):
            for pattern in ([0], [1, 2], [3, 0, 5]) if T else ([0], [1, 2]):
                res.append({"kind": "shuffled", "auctions": DOUBLE if recipe == (1, 1) else SINGLE, "recipe": list(recipe), "n": n, "nums": nums, "its": its, "random": False,
                            "pattern": pattern, "stocks": [[series(k, n) for k in range(count)]]})
    for recipe, nums, its in [((1, 1), [3], 3), ((1, 4), [1, 2], 2), ((2, 3), [2], 2), ((1, 2, 3), [1, 2], 2), ((1,) * 5, [2], 3)]:
        for pattern in ([0], [1, 2], [2, 0, 1]):
            res.append({"kind": "shuffled", "auctions": SINGLE, "recipe": list(recipe), "n": 1, "nums": nums, "its": its, "random": True, "pattern": pattern, "stocks": [[[1]]]})
    for struct, per, sizes in [([0, [1, None]], [1, 1], [6, 6]), ([0, [1, None, 2, None]], [1, 0.5, 0.5], [6, 3, 3]), ([0, [1, None, 2, [3, None]]], [1, 0.5, 0.5, 0.5], [8, 4, 4, 4])]:
        for variant in ("tree", "integer-tree"):
            for nums, its in [([2, 4, 20], 2), ([1, 3, 6], 3), ([5], 4), (None, 2)]:
                for count in (1, 3):
                    for pattern in ([0], [1, 2, 3]):
                        res.append({"kind": "tree", "variant": variant, "struct": struct, "counts": [1] * len(per), "per": per, "sizes": sizes, "nums": nums, "its": its, "pattern": pattern,
                                    "stocks": [[[series(k + j, m, -1 if j else 1) for j, m in enumerate(sizes)] for k in range(count)]]})
    for recipe, sizes, nums in [((1, 1), (9, 9), [1, 2, 4, 8]), ((1, 1), (9, 9), [3, 20]), ((1, 2), (6, 12), [2, 5, 9]), ((2, 1), (12, 6), [1, 4]), ((1, 1, 1), (10, 10, 10), [10, 9, 3]), ((1, 4), (4, 16), [1, 3]), ((3, 2, 1), (12, 8, 4), [4, 2]), ((1, 2, 3, 4), (3, 6, 9, 12), [3, 1]), ((1,) * 5, (7,) * 5, [7, 2])]:
        for count in (1, 2, 3, 5):
            base = {"auctions": DOUBLE if recipe == (1, 1) else SINGLE, "recipe": list(recipe), "sizes": list(sizes), "stocks": [[[series(k + j, m, -1 if j else 1) for j, m in enumerate(sizes)] for k in range(count)]]}
            res.append(dict(base, kind="numbers", nums=nums))
            for a in base["auctions"]:
                res.append(dict(base, kind="stock", auctions=[a]))
    for recipe, n, nums, its in [((1, 1), 20, [1, 2, 5, 10], 1), ((1, 2), 30, [3, 10], 2), ((2, 2), 40, [10, 1], 1), ((1, 4), 30, [6, 2], 1), ((4, 3, 2, 1), 30, [3, 1], 2), ((1,) * 5, 35, [7, 3], 1)]:
        for count in (1, 3, 5):
            res.append({"kind": "list", "auctions": DOUBLE if recipe == (1, 1) else SINGLE, "recipe": list(recipe), "n": n, "nums": nums, "its": its, "stocks": [[series(k, n) for k in range(count)]]})
    return res


def stock_sets(s, T):
    """lists of stocks (one or two)"""
    B, S = [9, 4, 2], [-2, -8, -5]
    if s["kind"] in ("stock", "numbers"):
        g = grids(s["sizes"], B[:2] if len(s["sizes"]) > 2 or max(s["sizes"]) > 3 else B, S[:2] if len(s["sizes"]) > 2 or max(s["sizes"]) > 3 else S)
        g += [[c[::-1] for c in m] for m in g]                # other listings
        return [[m] for m in g] + [[a, b] for a, b in zip(g, g[1:] + g[:1])]
    if s["kind"] in ("list", "shuffled"):
        grid = [3, 5] if s["n"] > 4 else [2, 3, 7]
        g = [list(x) for x in itertools.product(grid, repeat=s["n"])] if s["kind"] == "list" else [list(x) for x in itertools.combinations_with_replacement(grid, s["n"])]
        if s["kind"] == "shuffled" and s["its"] * len(s["nums"]) > 1:
            g = [x for x in g if len(set(x)) == min(len(grid), len(x))]
        pairs = [[a, b] for a, b in zip(g, g[3:] + g[:3])]
        if s.get("random"):
            return [[[1]]]
        if s["kind"] == "shuffled":
            pairs = pairs[:6 if T else 3]
        return [[m] for m in g] + pairs
    g = grids(s["sizes"], B[:2], S[:2])
    n = 1
    for x in s["sizes"]:
        n *= len(env.arrangements(x))
    runs = n ** s["its"]
    limit = max(2, (4000 if T else 400) // runs)
    g = g if len(g) <= limit else [m for m in g if all(len(set(c)) > 1 for c in m)][:1] + g[1:limit]
    return [[m] for m in g] + ([[g[0], g[-1]]] if runs * runs <= (5000 if T else 300) else [])


def execute(shard, stocks, choices):
    from mc import auct
    kind = shard["kind"]
    stocks = [list(map(list, s)) if isinstance(s[0], list) else list(s) for s in stocks]
    names = NAMES[:len(stocks)]
    nums = shard.get("nums")
    if kind == "stock":
        import experiment_stock as E
        a = shard["auctions"][0]
        return env.play(choices, lambda d: E.experiment("t.csv", auct.SINGLE[a], LABEL[a], tuple(shard["recipe"]), stocks, names))
    functions = [auct.SINGLE[a] for a in shard.get("auctions", [])]
    labels = [LABEL[a] for a in shard.get("auctions", [])]
    if kind == "numbers":
        import experiment_compare_iterations_autions_without_mcafee as E
        return env.play(choices, lambda d: E.experiment("t.csv", functions, labels, tuple(shard["recipe"]), nums, stocks, names))
    if kind == "list":
        import experiment_compare_sbb_shufled_stock as E
        return env.play(choices, lambda d: E.experiment("t.csv", functions, labels, tuple(shard["recipe"]), shard["its"], nums, stocks, names))
    if kind == "shuffled":
        import experiment_compare_iterations_autions as E
        env.grid = [0.0, 0.00004, 0.6, 1.0] if sum(shard["recipe"]) * sum(nums) * shard["its"] <= 3 else [0.0, 0.00004, 0.6]
        return env.play(choices, lambda d: E.experiment("t.csv", functions, labels, tuple(shard["recipe"]), nums, stocks, names, shard["its"], not shard["random"]))
    if shard["variant"] == "tree":
        import experiment_ascending_auction_recipetree_stock as E
    else:
        import experiment_ascending_auction_recipetree_integer_stock as E
    return env.play(choices, lambda d: E.experiment("t.csv", shard["struct"], list(shard.get("per") or shard["counts"]), [1] * len(shard["counts"]), nums, shard["its"], stocks, names))


def whole(x):
    """a whole number; a fraction rounded in either way"""
    return {int(x), int(x + 0.999)}


def desc(values):
    return tuple(sorted(values, reverse=True))


def shuffled_lists(log, key):
    """successive results of shuffling lists with the given values"""
    return [new for kind, old, new in log if kind == "shuffle" and desc(old) == key]


def deal_row(auction, label, cats, recipe):
    """(k0, k, best, count, gift, net) of one market"""
    d, g, net, k, best = single(auction, cats, recipe)
    k0 = ref.optimum(cats, recipe)[1]
    return k0, k, best, d, g, net


def expected_rows(shard, stocks, log):
    kind, nums = shard["kind"], shard.get("nums")
    names = NAMES[:len(stocks)]
    rows = []
    if kind == "stock":
        recipe, a = shard["recipe"], shard["auctions"][0]
        for name, s in zip(names, stocks):
            m = tuple(desc(c) for c in s)
            k0, k, best, d, g, net = deal_row(a, None, m, recipe)
            rows.append({"stock_name": [name], "auction_name": [LABEL[a]], "recipe": [":".join(map(str, recipe))], "num_possible_trades": whole(min(len(c) / r for c, r in zip(s, recipe))),
                         "optimal_count": (k, 2), "auction_count": (d, 2), "count_ratio": (ratio(d, k), 3), "optimal_gft": (best, 2), "auction_gft": (g, 2), "auction_gft_ratio": (ratio(g, best), 3),
                         "auction_market_gft": (net, 2), "market_gft_ratio": (ratio(net, best), 3)})
        return rows
    if kind == "numbers":
        recipe = shard["recipe"]
        for name, s in zip(names, stocks):
            over = False
            for n in nums or [10 ** 9]:
                if n > len(s[0]):
                    if over:
                        break
                    over = True
                    m = tuple(desc(c) for c in s)
                else:
                    m = tuple(desc(c[:n * r]) for c, r in zip(s, recipe))
                row = {"stock_name": [name], "recipe": [":".join(map(str, recipe))], "num_possible_trades": [str(min(n, len(s[0])))]}
                for a in shard["auctions"]:
                    k0, k, best, d, g, net = deal_row(a, None, m, recipe)
                    l = LABEL[a]
                    row.update({"optimal_count": (k0, 2), "optimal_count_with_gft_zero": (k, 2), "optimal_gft": (best, 2), l + "_auction_count": (d, 2), l + "_count_ratio": (ratio(d, k), 3),
                                l + "_gft": (net, 2), l + "_gft_ratio": (ratio(net, best), 3)})
                rows.append(row)
        return rows
    if kind == "list":
        recipe, its = shard["recipe"], shard["its"]
        total = {n: [] for n in nums}
        for name, s in zip(names, stocks):
            for n in nums:
                pos, m = 0, []
                for i, r in enumerate(recipe):
                    m.append(desc([p * (-recipe[0] if i else sum(recipe) - recipe[0]) for p in s[pos:pos + n * r]]))
                    pos += n * r
                cells = {}
                for a in shard["auctions"]:
                    k0, k, best, d, g, net = deal_row(a, None, tuple(m), recipe)
                    l = LABEL[a]
                    cells.update({"optimalcount": k0, "optimalcountwithgftzero": k, "optimalgft": best, l + "auctioncount": d, l + "countratio": ratio(d, k), l + "gft": net, l + "gftratio": ratio(net, best)})
                total[n].append(cells)
                rows.append(dict({"stockname": [name], "recipe": [":".join(map(str, recipe))], "numpossibletrades": [str(n)]}, **{c: (v, 9) for c, v in cells.items()}))
        for n in nums:
            rows.append(dict({"stockname": ["Average"], "recipe": [":".join(map(str, recipe))], "numpossibletrades": [str(n)]},
                             **{c: (sum(x[c] for x in total[n]) / len(stocks), 3 if "ratio" in c else 1) for c in total[n][0]}))
        return rows
    if kind == "shuffled":
        recipe, its = shard["recipe"], shard["its"]
        weight = (sum(recipe) - recipe[0]) / recipe[0]
        total = {n: [] for n in nums}
        if shard["random"]:
            bounds = [(weight, 100000 * weight)] + [(-100000, -1)] * (len(recipe) - 1)
            pos = 0
            for _ in stocks:
                for n in nums:
                    for _ in range(its):
                        m = []
                        for r, b in zip(recipe, bounds):
                            part = log[pos:pos + n * r]
                            pos += n * r
                            if any(x[0] != "uniform" or tuple(x[1]) != b for x in part):
                                return "the draws are %s instead of %d from %s" % (part, n * r, b)
                            m.append(desc(round(x[2]) for x in part))
                        total[n].append(tuple(m))
            if pos != len(log):
                return "%d draws instead of %d" % (len(log), pos)
        else:
            log = list(log)
            for s in stocks:
                for n in nums:
                    for _ in range(its):
                        if not log or log[0][0] != "shuffle":
                            return "the prices are not shuffled"
                        _, old, new = log.pop(0)
                        if len(new) < n * sum(recipe) or desc(new) != desc(list(s) * (len(new) // len(s))):
                            return "the prices %s are shuffled instead of those of the stock, %s" % (old, s)
                        pos, m = 0, []
                        for i, r in enumerate(recipe):
                            m.append(desc(int(p * (-1 if i else weight)) for p in new[pos:pos + n * r]))
                            pos += n * r
                        total[n].append(tuple(m))
            if log:
                return "prices are shuffled too often: %s" % log
        for n in nums:
            sums = {}
            for m in total[n]:
                for a in shard["auctions"]:
                    k0, k, best, d, g, net = deal_row(a, None, m, recipe)
                    l = LABEL[a]
                    formula = 0 if k0 <= 1 else (k0 - 1) * 100 / (k0 if set(recipe) == {1} else k0 + 1)
                    cells = {l + "count": d, l + "countratio": ratio(d, k) if k0 else 0, l + "totalgft": g, l + "totalgftratio": ratio(g, best), l + "marketgft": net, l + "marketgftratio": ratio(net, best),
                             l + "withoutgftzerocountratio": ratio(d, k0), l + "withoutgftzerototalgft": g, l + "withoutgftzerototalgftratio": ratio(g, best)}
                    if a == shard["auctions"][0]:
                        cells.update({"optimalcount": k0, "gftratioformula": formula, "optimalcountwithgftzero": k, "optimalgft": best, "optimalgftwithgftzero": best})
                    for c, v in cells.items():
                        sums[c] = sums.get(c, 0) + v
            N = its * len(stocks)
            rows.append(dict({"iterations": [str(its)], "stockname": ["Average"], "recipe": [":".join(map(str, recipe))], "numpossibletrades": [str(n)]},
                             **{c: (v / N, 3 if "gftratio" in c else 2) for c, v in sums.items()}))
        return rows
    # trees
    counts, struct, its = shard["counts"], shard["struct"], shard["its"]
    total = {n: [] for n in nums or [10000000]}
    log = list(log)
    for s in stocks:
        for _ in range(its):
            lists = []
            for c in s:
                if not log or log[0][0] != "shuffle" or desc(log[0][1]) != desc(c):
                    return "the prices %s are not shuffled" % (c,)
                lists.append(log.pop(0)[2])
            for n in total:
                m = tuple(desc(l) for l in lists) if n > len(s[0]) else tuple(desc(l[:int(n * c)]) for l, c in zip(lists, shard.get("per") or counts))
                total[n].append((min(n, len(s[0])), tree(shard["variant"], m, struct, counts)))
    if log:
        return "prices are shuffled too often: %s" % log
    for n, rs in total.items():
        N = len(rs)
        cells = {"optimalcount": sum(r[2] for _, r in rs), "optimalkmin": sum(r[4] for _, r in rs), "optimalkmax": sum(r[5] for _, r in rs), "optimalgft": sum(r[3] for _, r in rs),
                 "auctioncount": sum(r[0] for _, r in rs), "countratio": sum(ratio(r[0], r[2]) for _, r in rs), "gft": sum(r[1] for _, r in rs), "gftratio": sum(ratio(r[1], r[3]) for _, r in rs)}
        row = {c: (v / N, 6) for c, v in cells.items()}
        km = cells["optimalkmin"] / N
        row.update({"stockname": ["Average"], "numpossibletrades": [str(rs[0][0])], "gftformula": (0 if km <= 1 else (1 - 1 / km) * 100, 6)})
        rows.append(row)
    return rows


def judge(shard, stocks, result, tables, log):
    if isinstance(result, engine.Raised):
        return result.text
    if len(tables) != 1 or not tables[0].finished or tables[0].csvFileName != "t.csv":
        return "the table is not written to its file"
    want = expected_rows(shard, stocks, log)
    if isinstance(want, str):
        return want
    return compare_rows(tables[0].rows, want)


def explore(shard, ctx):
    for stocks in shard["stocks"]:
        run = lambda c: execute(shard, stocks, c)
        for made, (result, tables), c in env.deviations(run, shard["pattern"]) if "pattern" in shard else env.paths(run):
            ctx.states += 1
            ctx.transitions += 1
            message = judge(shard, stocks, result, tables, c.log)
            ctx.traces += sum(len(t.rows) for t in tables)
            if message:
                ctx.fail({"shard": dict(shard, stocks=None), "stocks": stocks, "choices": made}, message)
            ctx.outcome(str([list(r.values()) for t in tables for r in t.rows]))
    ctx.sample({"shard": {k: shard[k] for k in shard if k != "stocks"}, "stocks": stocks, "rows": [str(r) for t in tables for r in t.rows]})


def replay(scenario, ctx):
    c = env.Choices(scenario["choices"])
    result, tables = execute(scenario["shard"], scenario["stocks"], c)
    message = judge(scenario["shard"], scenario["stocks"], result, tables, c.log)
    print(c.log, [t.rows for t in tables])
    if message:
        ctx.fail(scenario, message)
