"""C19: prices of several recipes that rise together.  For all recipe trees in the bounds: initial prices have equal sums
and do not exceed the given bound; all sequences of joint increases (every cut of the tree with every combination of
targets, and both bounds on the sum) up to the depth bound keep the sums equal, never exceed a target or the bound, and
stop exactly at the first target or at the bound.  In prices.py a set of categories that is not a cut is refused."""
import itertools, json
from fractions import Fraction as Fr
from mc import dom, ref, engine

START = -100
FAR = -10**8


def worlds(tier):
    out = []
    def add(struct, counts, depth, **more):
        out.append({"struct": struct, "recipes": ref.tree_recipes(struct, counts), "cuts": cuts(struct), "depth": depth, **more})
    th = tier == "thorough"
    add([0, None], [1], 3)
    add([0, None], [3], 3)
    for n in (2, 3, 4):
        for s in dom.all_structs(n):
            add(s, [1] * n, (5 if n < 4 else 4) if th else 4 if n < 4 else 3)
    for s in dom.all_structs(2):
        for c in ((1, 2), (2, 1), (3, 2), (2, 2)):
            add(s, c, 5 if th else 4)
    for s in dom.all_structs(3):
        for c in ((1, 2, 1), (2, 1, 1), (1, 1, 2), (3, 1, 2), (2, 2, 2)):
            add(s, c, 4 if th else 3)
    for s in dom.all_structs(4):
        for c in ((1, 2, 1, 2), (2, 1, 3, 1)):
            add(s, c, 3)
    for s in dom.all_structs(5):
        add(s, [1] * 5, 3 if th else 2)
        add(s, [1, 2, 1, 3, 1], 3 if th else 2)
    for s in dom.all_structs(6):
        add(s, [1] * 6, 1)
    for s in (dom.PAPER, dom.FOUR_PATHS):
        add(s, [1] * 7, 3 if th else 2)
        add(s, [1, 1, 2, 1, 2, 1, 3], 3 if th else 2)
    # many recipes, long recipes
    for k in (4, 5, 7, 9, 12):
        leaves = [i if j == 0 else None for i in range(1, k + 1) for j in (0, 1)]
        add([0, leaves], [1] * (k + 1), 2)
        for j in {1, k // 2, k}:
            add([0, leaves], [1] + [3 if i == j else 1 for i in range(1, k + 1)], 2)
            add([0, leaves], [2] + [2 if i == j else 1 for i in range(1, k + 1)], 2)
            deep = [0, [x for i in range(1, k + 1) for x in (i, [k + 1, [k + 2, None]] if i == j else None)]]
            add(deep, [1] * (k + 3), 2)
            add(deep, [1] * (k + 1) + [2, 1], 2)
            add(deep, [1] * (k + 1) + [1, 2], 1, start=FAR)
        chain = None
        for i in range(k + 2, -1, -1):
            chain = [(i * 7 + 2) % (k + 3) if (k + 3) % 7 else (i * 5 + 2) % (k + 3), chain]
        add(chain, [1] * (k + 3), 2)
        add(chain, [1 + (i % 4 == 2) for i in range(k + 3)], 2)
    add(dom.BINARY, [1] * 15, 1)
    add(dom.BINARY, [1] * 14 + [2], 1)
    add(dom.BROOM, [1] * 12, 1)
    add(dom.BROOM, [1, 2, 1, 3, 1, 2, 1, 2, 1, 1, 1, 4], 1)
    add(dom.CHAIN12, [1] * 12, 2)
    # the auctions start far below all values
    for n in (2, 3):
        for s in dom.all_structs(n):
            for c in ([1] * n, [1 + i % 2 for i in range(n)], [2 - i % 2 for i in range(n)]):
                add(s, c, 3, start=FAR)
    for s in dom.all_structs(4):
        add(s, [1] * 4, 3 if th else 2, start=FAR)
    add(dom.TWO_PATHS, [1, 2, 1, 2], 3, start=FAR)
    return out


def cuts(struct):
    """All sets of categories with exactly one category of every recipe."""
    def of(i, kids):
        out = [(i,)]
        if kids is not None:
            parts = [of(kids[j], kids[j + 1]) for j in range(0, len(kids), 2)]
            out += [tuple(x for p in choice for x in p) for choice in itertools.product(*parts)]
        return out
    return of(struct[0], struct[1])


def shards(tier):
    return worlds(tier) + [{"kind": "refuse"}] + [{"kind": "pairs", "n": n, "part": p} for n in (2, 3, 4) for p in range(1 if n < 4 else 6)]


def create(module, recipes, start):
    import prices, prices_integer
    return {"prices": prices, "prices_integer": prices_integer}[module].SimultaneousAscendingPriceVectors([list(r) for r in recipes], start)


def sums(recipes, p):
    return [sum(r[i] * p[i] for i in range(len(p)) if r[i]) for r in recipes]


def close(a, b, tol=1e-6):
    return a == b or abs(a - b) <= tol * max(1.0, abs(b))


def judge_step(recipes, before, after, cut, targets, bound, status):
    mult = [max(r[c] for r in recipes) for c in cut]
    old, new = sums(recipes, before), sums(recipes, after)
    if not all(close(x, new[0]) for x in new):
        return "the price-sums of the recipes are %s" % new
    for i in range(len(before)):
        if i not in cut and after[i] != before[i]:
            return "the price of category %d changes from %r to %r, although it is not raised" % (i, before[i], after[i])
    if new[0] > bound + 1e-6 * max(1, abs(bound)):
        return "the price-sum %r exceeds the bound %r" % (new[0], bound)
    need = [(t - before[c]) * m for c, t, m in zip(cut, targets, mult)]
    room = bound - old[0]
    step = min(need + [room])
    for c, m in zip(cut, mult):
        if not close(after[c], before[c] + step / m):
            return "the price of category %d rises from %r to %r instead of %r" % (c, before[c], after[c], before[c] + step / m)
    if abs(min(need) - room) > 1e-5:
        want = "STOPPED_AT_ZERO_SUM" if room < min(need) else "STOPPED_AT_AGENT_VALUE"
        if status != want:
            return "the status is %s instead of %s" % (status, want)
        if want == "STOPPED_AT_AGENT_VALUE":
            for c, t, n in zip(cut, targets, need):
                if n == min(need) and not close(after[c], t, 1e-12):
                    return "the price of category %d should stop exactly at %r, but it is %r" % (c, t, after[c])
    return None


def raise_prices(pv, cut, targets, bound):
    inc = [(c, t, "category %d" % c) for c, t in zip(cut, targets)]
    if bound == 0:
        pv.increase_prices(inc)
    else:
        pv.increase_prices(inc, bound)


def target(recipes, p, c, d, room):
    """d: a distance from the present price, "at N", or a distance of 1/256 from the point where the bound is reached"""
    if not isinstance(d, str):
        return p[c] + d
    if d.startswith("at "):
        return float(d[3:])
    return p[c] + room / max(r[c] for r in recipes) + {"just above": 1, "just below": -1}[d] / 256


def execute(world, module, history, ctx=None):
    """history: list of (cut index, target steps, bound).  Targets are relative to the current prices, so that they never fall."""
    recipes = world["recipes"]
    def go():
        start = world.get("start", START)
        pv = create(module, recipes, start)
        p = list(pv.map_category_index_to_price())
        if len(p) != len(recipes[0]):
            return "there are %d initial prices for %d categories" % (len(p), len(recipes[0])), None
        if any(x > start + 1e-8 * abs(start) for x in p):
            return "the initial prices %s exceed %d" % (p, start), None
        s = sums(recipes, p)
        if not all(close(x, s[0]) for x in s):
            return "the initial prices %s have the sums %s" % (p, s), None
        if pv.status is not None:
            return "the initial status is %s" % pv.status, None
        for ci, steps, bound in history:
            cut = world["cuts"][ci]
            now = sums(recipes, p)[0]
            targets = [target(recipes, p, c, d, bound - now) for c, d in zip(cut, steps)]
            if any(t < p[c] for c, t in zip(cut, targets)) or now > bound:
                return None, None              # not an increase
            raise_prices(pv, cut, targets, bound)
            q = list(pv.map_category_index_to_price())
            msg = judge_step(recipes, p, q, cut, targets, bound, pv.status.name)
            if msg:
                return "after raising %s to %s (bound %s) from %s: %s" % (cut, targets, bound, p, msg), None
            if not close(pv.price_sum(), sums(recipes, q)[0]):
                return "price_sum() is %r, but the price-sums are %s" % (pv.price_sum(), sums(recipes, q)), None
            p = q
        return None, tuple(round(x, 6) for x in p)
    r = engine.run(go)
    return (r.text, None) if isinstance(r, engine.Raised) else r


STEPS = [5, 60, 1000]


def explore(shard, ctx):
    if shard.get("kind") == "refuse":
        return explore_refuse(ctx)
    if shard.get("kind") == "pairs":
        return explore_pairs(shard, ctx)
    modules = (["prices"] if all(x in (0, 1) for r in shard["recipes"] for x in r) else []) + ["prices_integer"]
    ops = []
    for ci, cut in enumerate(shard["cuts"] if "start" in shard else []):
        values = ["at 9", "at 4.5", "at -5", "at -2"]
        for k in range(4):
            ops.append((ci, tuple(values[(k + j) % 4] for j in range(len(cut))), 0))
        ops.append((ci, ("at -3",) + (float("inf"),) * (len(cut) - 1), 0))
    for ci, cut in enumerate(shard["cuts"] if "start" not in shard else []):
        if len(cut) <= 3:
            combos = list(itertools.product(STEPS if shard["depth"] > 1 or len(cut) < 3 else STEPS[::2], repeat=len(cut)))
        else:
            combos = [tuple(STEPS[(i + s) % 3] for i in range(len(cut))) for s in range(3)] + [(s,) * len(cut) for s in STEPS]
        for steps in combos:
            for bound in (0, -37.5):
                ops.append((ci, steps, bound))
    # a category without traders has no limit
    for ci, cut in enumerate(shard["cuts"]):
        if len(cut) > 1:
            for i in range(len(cut)):
                ops.append((ci, tuple(float("inf") if j == i else 40 for j in range(len(cut))), 0))
    # a target close to the one where the bound is reached
    for ci, cut in enumerate(shard["cuts"]):
        for d in ("just above", "just below"):
            ops.append((ci, (d,) + (1000,) * (len(cut) - 1), 0))
    # bounds above zero
    for ci, cut in enumerate(shard["cuts"] if "start" not in shard else []):
        for bound in (250, 70000.5):
            ops.append((ci, (bound * 3,) + (bound * 2,) * (len(cut) - 1), bound))
    for m in modules:
        seen = set()
        level = [()]
        for depth in range(shard["depth"] + 1):
            following = []
            for h in level:
                ctx.transitions += 1
                ctx.traces += 1
                msg, state = execute(shard, m, h)
                if msg:
                    ctx.fail({"world": {k: shard[k] for k in ("struct", "recipes", "cuts", "start") if k in shard}, "module": m, "history": h}, "%s: recipes %s: %s" % (m, shard["recipes"], msg))
                    continue
                if state is None or state in seen:
                    continue
                seen.add(state)
                ctx.states += 1
                ctx.outcome(state)
                if depth < shard["depth"]:
                    following += [h + (op,) for op in ops]
            level = following
    ctx.sample({"recipes": shard["recipes"], "cuts": shard["cuts"]})


def modules_for(recipes):
    return (["prices"] if all(x in (0, 1) for r in recipes for x in r) else []) + ["prices_integer"]


def pair_worlds(n):
    out = []
    for s in dom.all_structs(n):
        for counts in ([1] * n, [1 + i % 2 for i in range(n)], [2 - i % 2 for i in range(n)]):
            out.append({"struct": s, "recipes": ref.tree_recipes(s, counts), "cuts": cuts(s)})
    return out


def explore_pairs(shard, ctx):
    """Two price vectors in one process: whatever vector was made before, the second one obeys the rules, and the first
    one keeps its prices."""
    W = pair_worlds(shard["n"])
    for a in W[shard["part"]:: 6 if shard["n"] == 4 else 1]:
        for b in W:
            for m in modules_for(a["recipes"]):
                if m not in modules_for(b["recipes"]):
                    continue
                ctx.states += 1
                ctx.transitions += 2
                msg = pair(a, b, m)
                if msg:
                    ctx.fail({"kind": "pairs", "first": a, "second": b, "module": m}, "%s: recipes %s after %s: %s" % (m, b["recipes"], a["recipes"], msg))


def pair(a, b, m):
    def go():
        first = create(m, a["recipes"], START)
        before = list(first.map_category_index_to_price())
        for ci, cut in enumerate(b["cuts"]):
            msg = execute(b, m, [(ci, [60 + 7 * i for i in range(len(cut))], 0)])[0]
            if msg:
                return msg
        if list(first.map_category_index_to_price()) != before or first.status is not None:
            return "the prices of the vector that was made first have changed from %s to %s" % (before, first.map_category_index_to_price())
    r = engine.run(go)
    return r.text if isinstance(r, engine.Raised) else r


def explore_refuse(ctx):
    """prices.py: sets of categories which are not a cut are refused, and nothing changes."""
    import prices
    wide = [[0, [x for i in range(1, n) for x in (i, None)]] for n in (5, 6, 7, 8, 9)]
    for struct in [s for n in (2, 3, 4) for s in dom.all_structs(n)] + wide + [dom.PAPER, dom.FOUR_PATHS]:
            n = max(ref.tree_nodes(struct)) + 1
            recipes = ref.tree_recipes(struct, [1] * n)
            good = {tuple(sorted(c)) for c in cuts(struct)}
            for k in range(n + 1):
                for cats in itertools.combinations(sorted(ref.tree_nodes(struct)), k):
                    if cats in good:
                        continue
                    ctx.states += 1
                    ctx.transitions += 1
                    msg = refuse(recipes, cats)
                    if msg:
                        ctx.fail({"kind": "refuse", "recipes": recipes, "cats": cats}, "prices: recipes %s: %s" % (recipes, msg))


def refuse(recipes, cats):
    def go():
        pv = create("prices", recipes, START)
        pv.increase_prices([(c, -90, "x") for c in cuts_first(recipes)])
        before, status = list(pv.map_category_index_to_price()), pv.status
        try:
            pv.increase_prices([(c, -10, "x") for c in cats])
            return "raising only the categories %s is not refused" % (cats,)
        except ValueError:
            pass
        if list(pv.map_category_index_to_price()) != before or pv.status != status:
            return "a refused increase of %s has changed the prices from %s to %s" % (cats, before, pv.map_category_index_to_price())
    r = engine.run(go)
    return r.text if isinstance(r, engine.Raised) else r


def cuts_first(recipes):
    """the root is in all recipes"""
    return [i for i in range(len(recipes[0])) if all(r[i] for r in recipes)][:1]


def replay(s, ctx):
    if s.get("kind") == "pairs":
        msg = pair(s["first"], s["second"], s["module"])
    elif s.get("kind") == "refuse":
        msg = refuse(s["recipes"], tuple(s["cats"]))
    else:
        msg = execute(dict(s["world"]), s["module"], [(h[0], tuple(h[1]), h[2]) for h in s["history"]])[0]
    if msg:
        ctx.fail(s, msg)
