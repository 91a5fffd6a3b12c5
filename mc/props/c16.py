"""C16: the recipe-tree auction and the integer recipe-tree auction with one agent per category give the same outcome;
on a tree with one root and one child both are the ascending auction; leaving out the agent counts means all ones."""
import json
from mc import dom, ref, engine


def families(tier):
    F = all_families(tier)
    if tier == "thorough":
        return F
    return [f for i, f in enumerate(F) if len(f["cats"]) <= 3 or i % 2 == 0]


def all_families(tier):
    return [f for f in dom.tree_families(tier) if all(c == 1 for c in f["counts"])] + [f for f in dom.generic_tree_families(tier) if all(c == 1 for c in f["counts"])]


def shards(tier):
    return dom.split(families(tier), 800)


def differ(a, b):
    if isinstance(a, engine.Raised) or isinstance(b, engine.Raised):
        return True
    if a.deals != b.deals:
        return True
    if a.deals == 0:
        return False
    # a price that no clock ever reached, in a category from which nobody trades, is what is left of the initial prices; how
    # a linear program divides the initial sum of prices among the categories of one recipe is its own choice
    return a.traders != b.traders or any(abs(x - y) > 1e-5 * max(1, abs(x)) for x, y, t in zip(a.prices, b.prices, a.traders) if t or min(abs(x), abs(y)) < 5e7)


def check(struct, cats, ctx):
    from mc import auct
    n = len(cats)
    a = auct.play("tree", cats, struct, None)
    b = auct.play("integer-tree", cats, struct, [1] * n)
    c = auct.play("integer-tree", cats, struct, None)
    ctx.transitions += 3
    ctx.traces += 2
    ctx.outcome((json.dumps(struct), None if isinstance(a, engine.Raised) else a.deals))
    if differ(a, b):
        return "the recipe-tree auction gives %s, but the integer recipe-tree auction gives %s" % (a, b)
    if differ(b, c):
        return "with the counts %s the outcome is %s, but without counts it is %s" % ([1] * n, b, c)
    if n == 2 and struct == [1, [0, None]]:
        d = auct.play("ascending", cats, [1, 1])
        ctx.transitions += 1
        ctx.traces += 1
        if differ(a, d):
            return "the recipe-tree auction gives %s, but the ascending auction with the recipe [1, 1] gives %s" % (a, d)
    return None


def explore(shard, ctx):
    struct = shard["struct"]
    for cats in dom.profiles(shard["cats"], shard["part"], shard["parts"]):
        ctx.states += 1
        msg = check(struct, cats, ctx)
        if msg:
            ctx.fail({"struct": struct, "values": cats}, "tree %s, values %s: %s" % (struct, cats, msg))
    ctx.sample({"tree": struct, "values": cats})


def replay(s, ctx):
    msg = check(s["struct"], tuple(tuple(c) for c in s["values"]), ctx)
    if msg:
        ctx.fail(s, msg)
