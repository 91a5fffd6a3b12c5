"""C25: the recipe-tree auctions follow their published protocol step by step: for every tree, agent counts and market in
the bounds the outcome of the code is the one of an explicit-state reference model of the simultaneous clocks
(mc/clock.py) in exact arithmetic.  Where several vectors of initial prices are the largest with equal price-sums (a
choice of the linear program), the model starts from the one which the code's price vectors start from.  Runs in which rounding decides between events within 1e-6 are counted and skipped."""
import json
from mc import dom, engine, clock, ref


def families(tier):
    F = dom.tree_families(tier) + dom.generic_tree_families(tier)
    if tier == "thorough":
        return F
    return [f for i, f in enumerate(F) if len(f["cats"]) <= 3 or i % 3 == 1 or dom.size(f["cats"]) <= 1000]


def shards(tier):
    return dom.split(families(tier), 800)


def other_start(name, struct, counts):
    """The initial prices of the code, if they are as high as possible with equal price-sums; else None."""
    import prices, prices_integer
    recipes = ref.tree_recipes(struct, counts)
    if name == "tree":
        vectors = prices.SimultaneousAscendingPriceVectors(recipes, -clock.BIG)
    else:
        vectors = prices_integer.SimultaneousAscendingPriceVectors(recipes, -clock.BIG, list(counts))
    start = [float(p) for p in vectors.map_category_index_to_price()]
    sums = [sum(r * p for r, p in zip(recipe, start)) for recipe in recipes]
    highest = -clock.BIG * max(map(sum, recipes))
    ok = all(abs(x - highest) < 1e-6 for x in sums) and all(p <= -clock.BIG for p in start)
    return start if ok else None


def differs(got, want, used):
    deals, price, traders, _ = want
    if isinstance(got, engine.Raised) or got.deals != deals:
        return True
    return bool(deals) and ([tuple(t) for t in got.traders] != traders or any(
        abs(float(p) - q) > 1e-5 * max(1, abs(float(p))) for i, (p, q) in enumerate(zip(price, got.prices)) if i in used))


def check(struct, counts, cats, ctx, only=None):
    from mc import auct
    want = clock.tree_auction(struct, cats, counts)
    if want is None:
        ctx.note("skipped, rounding decides")
        return
    deals, price, traders, steps = want
    ctx.outcome((json.dumps(struct), deals, tuple(map(len, traders))))
    used = set(ref.tree_nodes(struct))
    for name in ["integer-tree"] + (["tree"] if all(c == 1 for c in counts) else []):
        if only and only != name:
            continue
        got = auct.play(name, cats, struct, counts)
        ctx.transitions += steps
        ctx.traces += 1
        if not differs(got, want, used):
            continue
        start = other_start(name, struct, counts)
        if start:
            again = clock.tree_auction(struct, cats, counts, start)
            if again is None or not differs(got, again, used):
                ctx.note("another choice of initial prices")
                continue
        ctx.fail({"struct": struct, "counts": counts, "values": cats, "auction": name},
                 "%s auction, tree %s, counts %s, values %s: the outcome is %s, but the protocol gives %d deals, participants %s, prices %s" % (
                     name, struct, counts, cats, got, deals, traders, price and [float(p) for p in price]))


def explore(shard, ctx):
    for cats in dom.profiles(shard["cats"], shard["part"], shard["parts"]):
        ctx.states += 1
        check(shard["struct"], shard["counts"], cats, ctx)
    ctx.sample({"tree": shard["struct"], "counts": shard["counts"], "values": cats})


def replay(s, ctx):
    check(s["struct"], s["counts"], tuple(tuple(c) for c in s["values"]), ctx, s["auction"])
