"""C12: the outcome of a recipe-tree auction accounts correctly for its participants: number of deals, gain from trade,
fewest and most potential deals of the last categories of the recipes, and optimal trade of the participants.
Outcomes are built directly from every combination of participants and from every auction."""
import json
from mc import dom, ref, engine


def shards(tier):
    F = []
    for f in dom.enumerable_tree_families(tier):
        F.append(dict(f, how="direct"))
    for f in dom.enumerable_tree_families(tier)[:: 1 if tier == "thorough" else 3]:
        F.append(dict(f, how="auction"))
    return dom.split(F, 1200)


def leaves(struct):
    return [p[-1] for p in ref.tree_paths(struct)]


def judge_trade(trade, struct, counts, cats, integer, prices=None):
    """cats are the participants"""
    k, best, vectors, kz = ref.tree_optimum(struct, cats, counts)
    eps = 1e-5 * max(1, abs(best))
    most = ref.tree_max_deals(struct, counts, [len(c) for c in cats])
    if trade.num_of_deals() != most:
        return "num_of_deals() is %r, but the participants suffice for at most %d deals" % (trade.num_of_deals(), most)
    for kw in ({}, {"including_auctioneer": True}, {"including_auctioneer": False}):
        g = trade.gain_from_trade(**kw)
        if abs(g - best) > eps:
            return "gain_from_trade(%s) is %r, but the participants can gain %r" % (kw, g, best)
    ot = trade.optimal_trade()
    if abs(ot[2] - best) > eps or ot[1] != k:
        return "optimal_trade() is %r instead of %d deals with gain %r" % (ot, k, best)
    potential = [len(cats[i]) // counts[i] for i in leaves(struct)]
    if trade.max_num_of_deals() != max(potential):
        return "max_num_of_deals() is %r, but the potential deals of the last categories are %s" % (trade.max_num_of_deals(), potential)
    lows = {min(potential)} if not integer else {min([p for p in potential if p] or [0])}
    if trade.min_num_of_deals() not in lows:
        return "min_num_of_deals() is %r, but the potential deals of the last categories are %s" % (trade.min_num_of_deals(), potential)
    if prices is not None and list(trade.prices) != list(prices):
        return "the prices are %s instead of %s" % (trade.prices, prices)
    if [tuple(c.values) for c in trade.categories] != [tuple(c) for c in cats]:
        return "the participants are %s" % trade.categories
    return None


def variants(counts):
    return ["integer-tree"] + (["tree"] if all(c == 1 for c in counts) else [])


def judge(how, variant, struct, counts, cats):
    from mc import auct
    import ascending_auction_recipetree_protocol as P, ascending_auction_recipetree_integer_protocol as PI
    import recipetree, recipetree_integer
    integer = variant == "integer-tree"
    def go():
        if how == "direct":
            m = auct.market(cats)
            prices = [i - 1.5 for i in range(len(cats))]
            if integer:
                t = PI.TradeWithMultipleRecipes(m.categories, recipetree_integer.RecipeTree(m.categories, struct, list(counts)), prices)
            else:
                t = P.TradeWithMultipleRecipes(m.categories, recipetree.RecipeTree(m.categories, struct), prices)
            return judge_trade(t, struct, counts, cats, integer, prices)
        out = auct.play(variant, cats, struct, counts)
        if isinstance(out, engine.Raised):
            return out.text
        return judge_trade(out.trade, struct, counts, out.traders, integer)
    r = engine.run(go)
    return r.text if isinstance(r, engine.Raised) else r


def explore(shard, ctx):
    struct, counts = shard["struct"], shard["counts"]
    for cats in dom.profiles(shard["cats"], shard["part"], shard["parts"]):
        ctx.states += 1
        ctx.outcome((json.dumps(struct), tuple(map(len, cats))))
        for v in variants(counts):
            ctx.transitions += 1
            ctx.traces += 1
            msg = judge(shard["how"], v, struct, counts, cats)
            if msg:
                ctx.fail({"how": shard["how"], "variant": v, "struct": struct, "counts": counts, "values": cats}, "%s outcome of %s, tree %s, counts %s, values %s: %s" % (shard["how"], v, struct, counts, cats, msg))
        if ctx.states % 500 == 250:
            ctx.sample({"how": shard["how"], "tree": struct, "counts": counts, "values": cats})


def replay(s, ctx):
    msg = judge(s["how"], s["variant"], s["struct"], s["counts"], tuple(tuple(c) for c in s["values"]))
    if msg:
        ctx.fail(s, msg)
