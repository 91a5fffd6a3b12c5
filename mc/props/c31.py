"""C31: stock files and random generators become traders as the recipe demands.  All stock files with 1..3 days over a
grid of prices are split for all recipes in the bounds; all orders that the shuffling can give (permutations up to 4
prices, of longer lists reversal, rotations, neighbour swaps) are executed; the random categories are built from every
combination of draws."""
import itertools, os, tempfile
from mc import env, engine
env.install()

TYPES = ["High", "Close", "Open", "Low"]
RECIPES = [(1, 1), (2, 1), (1, 2), (2, 1, 1), (1, 1, 1), (2, 2, 2), (2, 2), (3, 1), (1, 3), (2, 3), (1, 2, 2), (1, 2, 3), (3, 2, 1), (1, 1, 1, 1), (1, 2, 1, 3),
           (1, 4), (1, 8), (1, 16), (4, 3, 2, 1), (4, 2, 6), (10, 2, 3, 4), (1,) * 5, (1,) * 9, (1,) * 17, (2, 2, 3), (2, 1, 2), (1, 1, 2), (3, 1, 1), (2, 1, 1, 1), (5, 5, 5), (4, 1), (3, 3)]
COUNTS = [([1, 1], [1, 1]), ([1, 1], [2, 1]), ([1, 2], [2, 1]), ([2, 1], [1, 1]), ([1, 1, 1], [1, 1, 1]), ([1, 2, 1], [3, 1, 2]), ([1, 1, 2], [1, 2, 1]), ([1], [2]), ([1, 0.5, 0.5], [1, 1, 1])]


def longer(days, k=0):
    """a file with many days"""
    return [tuple(round(((7 * i * i + 5 * j + 3 * k * (i + 1)) % 97 + 1) * (40.125 if (i + j) % 5 == 0 else 0.625), 6) for j in range(4)) for i in range(days)]


def files(tier):
    T = tier == "thorough"
    grid = [1.25, 20.5, 3.0]
    out = [[d] for d in itertools.product(grid, repeat=4)]
    two = list(itertools.product([0.5, 7.125], repeat=4))
    out += [[a, b] for a in two for b in two] if T else [[a, b] for a in two for b in two[::5]]
    out += [[(0.0, 2.0, 0.0, 1.0)], [(0.0, 0.0, 0.0, 0.0)], [(123456.5, 0.25, 98765.125, 0.0)], [(0.0, 2.0, 1.0, 0.0), (2.0, 0.0, 0.0, 1.0)], [(54321.5, 0.0, 0.5, 10.0), (0.0, 0.0, 77777.5, 1.0)]]
    out += [[(1.0, 2.0, 3.0, 4.0), (5.5, 6.25, 7.0, 8.0), (9.0, 10.5, 11.0, 12.0)], [(2.0, 2.0, 2.0, 2.0), (0.001, 100.0, 0.5, 0.25), (33.0, 1.75, 2.0, 44.0)]]
    return out


def shards(tier):
    fs = files(tier)
    out = []
    for i in range(0, len(fs), 8):
        out.append({"kind": "split", "files": fs[i:i + 8]})
    small = [f for f in fs if len(f) == 1]
    for counts, values in COUNTS:
        for i in range(0, len(small), 27):
            out.append({"kind": "tree", "counts": counts, "values": values, "files": small[i:i + (27 if tier == "thorough" else 7)] if len(small) - i > 7 else small[i:]})
        out.append({"kind": "tree", "counts": counts, "values": values, "files": [f for f in fs if len(f) == 2][:20] + [f for f in fs if len(f) == 2][-2:] + [f for f in fs if len(f) == 3]})
    for f in (small[5:8] if tier != "thorough" else small):
        out.append({"kind": "list", "files": [f]})
    for days in (4, 5, 6, 7, 10, 12, 30) + ((100, 251) if tier == "thorough" else ()):
        out.append({"kind": "split", "files": [longer(days)]})
        for counts, values in COUNTS:
            out.append({"kind": "tree", "counts": counts, "values": values, "files": [longer(days)], "pattern": [1, 5]})
            out.append({"kind": "tree", "counts": counts, "values": values, "files": [longer(min(days, 7), k) for k in range(4)], "pattern": [0, 2], "together": True})
        if days <= 12:
            out.append({"kind": "list", "files": [longer(days)], "pattern": [1, 3]})
    for stocks in (3, 13, 60, 130) + ((500,) if tier == "thorough" else ()):
        out.append({"kind": "many", "stocks": stocks})
    for n in (5, 10, 40, 65):
        out.append({"kind": "uniform", "n": n, "pattern": [1, 3, 0, 2]})
        for g in env.VARIATES:
            out.append({"kind": "variate", "n": n, "generator": g, "pattern": [1, 0, 2]})
    for n in range(0, 4 if tier != "thorough" else 5):
        out.append({"kind": "uniform", "n": n})
        for g in env.VARIATES:
            out.append({"kind": "variate", "n": n, "generator": g})
    return out


def write(d, names, stocks):
    os.mkdir(os.path.join(d, "stocks"))
    os.mkdir(os.path.join(d, "stocks", "folder.csv"))          # not a file, to be left out
    for name, f in zip(names, stocks):
        with open(os.path.join(d, "stocks", name + ".csv"), "w") as g:
            g.write("Date,Open,High,Low,Close,Adj Close,Volume\n")
            for i, (hi, cl, op, lo) in enumerate(f):
                g.write("2020-01-%02d,%r,%r,%r,%r,%r,%d\n" % (i + 1, op, hi, lo, cl, cl, 100 + i))


def execute(d, choices, f):
    import get_stocks_data as G
    G.STOCKS = os.path.join(d, "stocks")
    G.keep_all_prices.clear()
    env.current = choices
    return engine.run(lambda: f(G))


def same(got, exact):
    """got: numbers; exact: prices in thousandths, cut to integers"""
    a, b = sorted(got), sorted(exact)
    return len(a) == len(b) and all(x == int(x) and abs(x - y) < 1 + 1e-6 for x, y in zip(a, b))


def judge_split(recipe, f, got):
    hi, cl, op, lo = [[day[i] for day in f] for i in range(4)]
    N = len(f)
    if len(got) != len(recipe):
        return "%d categories for recipe %s" % (len(got), recipe)
    K = 1000
    both = hi + cl
    if recipe == (1, 1):
        want = [both, [-x for x in op + lo]]
    elif recipe == (2, 1):
        want = [both, [-a - b for a, b in zip(op, lo)]]
    elif recipe == (1, 2):
        want = [[a + b for a, b in zip(hi, cl)], [-x for x in op + lo]]
    elif recipe == (2, 1, 1):
        want = [both, [-x for x in op], [-x for x in lo]]
    elif len(recipe) == 3 and len(set(recipe)) == 1:
        want = [[a + b for a, b in zip(hi, cl)], [-x for x in op], [-x for x in lo]]
    else:
        s = sum(recipe) - recipe[0]
        if not same(got[0], [x * s * K for x in both for _ in range(recipe[0])]):
            return "the buyers are %s" % (got[0],)
        sellers = [-x for x in op + lo]
        used = {}
        for c, r in zip(got[1:], recipe[1:]):
            if len(c) != 2 * N * r:
                return "%d sellers instead of %d for entry %d" % (len(c), 2 * N * r, r)
            for v in c:
                used[v] = used.get(v, 0) + 1 / r
        # every seller's price is used equally often over all categories
        want_used = {}
        for v in sellers:
            want_used[int(v * K)] = want_used.get(int(v * K), 0) + len(recipe) - 1
        if sorted(used) != sorted(want_used) or any(abs(used[v] - want_used[v]) > 1e-9 for v in used):
            return "the sellers' prices are used %s times instead of %s" % (used, want_used)
        return None
    for i, (c, w) in enumerate(zip(got, want)):
        if not same(c, [x * K for x in w]):
            return "category %d has the values %s instead of %s" % (i, c, [x * K for x in w])
    return None


def judge_tree(counts, values, f, got):
    prices = [int(x * 1000) for day in f for x in day]
    if len(got) != len(counts):
        return "%d categories for %s" % (len(got), counts)
    back = []
    for i, (c, v) in enumerate(zip(got, values)):
        n = int(len(prices) / sum(counts) * counts[i])
        if abs(len(c) - n) > 0:
            return "category %d has %d traders instead of %d" % (i, len(c), n)
        for x in c:
            p = (x if i == 0 else -x) / v
            if p != int(p):
                return "the value %r of category %d is no price times %d" % (x, i, v)
            back.append(int(p))
    rest = list(prices)
    for p in back:
        if p not in rest:
            return "the price %d is used too often" % p
        rest.remove(p)
    return None


def explore(shard, ctx, only=None):
    kind = shard["kind"]
    def result(scenario, r, message):
        ctx.states += 1
        ctx.transitions += 1
        ctx.traces += 1
        if message:
            ctx.fail(scenario, message)
    if kind in ("uniform", "variate"):
        return explore_random(shard, ctx)
    if kind == "many":
        return explore_many(shard, result, ctx)
    walk = lambda run: env.deviations(run, shard["pattern"]) if "pattern" in shard else env.paths(run)
    if shard.get("together"):
        fs = {"S%d" % i: [tuple(d) for d in f] for i, f in enumerate(shard["files"])}
        with tempfile.TemporaryDirectory(prefix="mc-stocks-") as d:
            write(d, list(fs), list(fs.values()))
            for made, r, c in walk(lambda c: execute(d, c, lambda G: G.getStocksTreePrices(None, shard["counts"], shard["values"]))):
                message = r.text if isinstance(r, engine.Raised) else None
                if not message and (len(r) != 2 or sorted(r[1]) != sorted(fs) or len(r[0]) != len(fs)):
                    message = "the stocks are %s" % (r,)
                for name, got in zip(r[1], r[0]) if not message else ():
                    message = message or judge_tree(shard["counts"], shard["values"], fs[name], got)
                result({"shard": shard}, r, message)
        return
    for f in shard["files"]:
        f = [tuple(d) for d in f]
        with tempfile.TemporaryDirectory(prefix="mc-stocks-") as d:
            write(d, ["AA", "b"], [f, f[::-1]])
            if kind == "split":
                for recipe in RECIPES:
                    r = execute(d, env.Choices(), lambda G: G.getStocksPrices(recipe))
                    message = r.text if isinstance(r, engine.Raised) else None
                    if not message and (len(r) != 2 or sorted(r[1]) != ["AA", "b"] or len(r[0]) != 2):
                        message = "the stocks are %s" % (r,)
                    for i in range(2) if not message else ():
                        message = message or judge_split(recipe, f if r[1][i] == "AA" else f[::-1], r[0][i])
                    result({"shard": dict(shard, files=[f])}, r, message and "recipe %s: %s" % (recipe, message))
                    ctx.outcome(str(r))
            elif kind == "tree":
                counts, values = shard["counts"], shard["values"]
                os.remove(os.path.join(d, "stocks", "b.csv"))
                for made, r, c in walk(lambda c: execute(d, c, lambda G: G.getStocksTreePrices(None, counts, values))):
                    message = r.text if isinstance(r, engine.Raised) else None
                    if not message and (len(r) != 2 or list(r[1]) != ["AA"] or len(r[0]) != 1):
                        message = "the stocks are %s" % (r,)
                    result({"shard": dict(shard, files=[f])}, r, message or judge_tree(counts, values, f, r[0][0]))
                    ctx.outcome(str(r))
            else:
                def twice(G):
                    a = G.getStocksPricesShuffled()
                    first = [list(x) for x in a[0]]
                    b = G.getStocksPricesShuffled()
                    return first, list(a[1]), [list(x) for x in b[0]], list(b[1])
                os.remove(os.path.join(d, "stocks", "b.csv"))
                for made, r, c in walk(lambda c: execute(d, c, twice)):
                    message = r.text if isinstance(r, engine.Raised) else None
                    prices = [x * 1000 for day in f for x in day]
                    if not message:
                        for lists, names in ((r[0], r[1]), (r[2], r[3])):
                            if names != ["AA"] or len(lists) != 1 or not same(lists[0], prices):
                                message = "the prices of %s are %s instead of %s" % (names, lists, prices)
                    result({"shard": dict(shard, files=[f])}, r, message)
    ctx.sample({"shard": {k: shard[k] for k in shard if k != "files"}, "file": shard["files"][0]})


def explore_many(shard, result, ctx):
    """a folder with many files: every one of them is read, under its own name"""
    fs = {"S%d" % i: longer(1 + i % 2, i) for i in range(shard["stocks"])}
    with tempfile.TemporaryDirectory(prefix="mc-stocks-") as d:
        write(d, list(fs), list(fs.values()))
        cases = [("split", recipe, lambda G, recipe=recipe: G.getStocksPrices(recipe)) for recipe in RECIPES[:3]]
        cases += [("tree", cv, lambda G, cv=cv: G.getStocksTreePrices(None, *cv)) for cv in COUNTS[:2]]
        cases.append(("list", None, lambda G: (lambda r: ([list(x) for x in r[0]], list(r[1])))(G.getStocksPricesShuffled())))
        for kind, how, go in cases:
            r = execute(d, env.Choices(), go)
            message = r.text if isinstance(r, engine.Raised) else None
            if not message and (len(r) != 2 or sorted(r[1]) != sorted(fs) or len(r[0]) != len(fs)):
                message = "of %d stock files %d are read" % (len(fs), len(r[0]))
            for name, got in zip(r[1], r[0]) if not message else ():
                if kind == "list":
                    prices = [x * 1000 for day in fs[name] for x in day]
                    message = message or (None if same(got, prices) else "the prices of %s are %s instead of %s" % (name, got, prices))
                else:
                    message = message or (judge_split(how, fs[name], got) if kind == "split" else judge_tree(how[0], how[1], fs[name], got))
            result({"shard": shard}, r, message)
    ctx.sample({"shard": shard, "file": fs["S0"]})


def explore_random(shard, ctx):
    from agents import AgentCategory
    n = shard["n"]
    if shard["kind"] == "uniform":
        env.grid = [0.0, 0.26, 0.74, 1.0]
        cases = [("uniformly_random", (lo, hi)) for lo, hi in ((0, 1), (1, 10), (-10, -1), (-5, 5), (3, 3), (-1000.5, 2.25), (0.1, 0.4))]
    else:
        generator = shard["generator"]
        args = {"normalvariate": [(5, 2), (0, 1)], "gammavariate": [(2, 3)], "paretovariate": [(3,)]}[generator]
        cases = [(generator + "_random", (sign,) + a) for sign in (1, -1, -2.5, 100) for a in args]
    for name, args in cases:
        for made, r, c in (lambda run: env.deviations(run, shard["pattern"]) if "pattern" in shard else env.paths(run))(lambda c: (setattr(env, "current", c), engine.run(lambda: getattr(AgentCategory, name)("the name", n, *args)))[1]):
            ctx.states += 1; ctx.transitions += 1; ctx.traces += 1
            message = None
            if isinstance(r, engine.Raised):
                message = r.text
            else:
                drawn = [l[2] for l in c.log]
                if shard["kind"] == "uniform":
                    want = [round(v) for v in drawn]
                    ok = all(l[0] == "uniform" and tuple(l[1]) == args for l in c.log)
                else:
                    want = [round(args[0] * abs(v)) for v in drawn]
                    ok = all(l[0] == shard["generator"] and tuple(l[1]) == args[1:] for l in c.log)
                if not ok or len(drawn) != n:
                    message = "the draws are %s, but %d of %s%s are expected" % (c.log, n, name, args)
                elif r.name != "the name" or list(r.values) != sorted(want, reverse=True) or r.size() != n:
                    message = "the draws %s give %r" % (drawn, r)
            if message:
                ctx.fail({"shard": shard}, "%s%s: %s" % (name, args, message))
            ctx.outcome(str(r))
    ctx.sample({"shard": shard, "cases": [str(c) for c in cases]})


def replay(scenario, ctx):
    explore(scenario["shard"], ctx)
    print(scenario["shard"])
