"""C11: the optimal trade of a recipe tree (both implementations) against brute force over all vectors of deals per path."""
import itertools, json
from mc import dom, ref, engine


def shards(tier):
    F = []
    for f in dom.enumerable_tree_families(tier) + dom.tiny_tree_families(tier):
        F.append(f)
    return dom.split(F, 1200)


def modules(counts):
    import recipetree, recipetree_integer
    out = [("recipetree_integer", recipetree_integer, list(counts))]
    if all(c == 1 for c in counts):
        out.append(("recipetree", recipetree, None))
        out.append(("recipetree_integer without counts", recipetree_integer, None))
    return out


def flat(x):
    return [x] if not isinstance(x, (list, tuple)) else [z for y in x for z in flat(y)]


def judge(struct, counts, cats, module, mcounts, oracle):
    k, best, vectors, kz = oracle
    from mc import auct
    eps = ref.EPS * max(1, abs(best))
    def go():
        m = auct.market(cats)
        t = module.RecipeTree(m.categories, struct, mcounts)
        a = t.optimal_trade_GFT()
        b = t.optimal_trade()
        c = t.optimal_trade_with_counters()
        d = t.num_of_deals()
        e = t.optimal_trade_with_counters()
        return a, b, c, d, e, [list(x.values) for x in m.categories]
    result = engine.run(go)
    if isinstance(result, engine.Raised):
        return result.text
    a, b, c, d, e, after = result
    if abs(a - best) > eps:
        return "the optimal gain-from-trade is given as %r, but it is %r" % (a, best)
    if len(b) != 3 or b[1] != k or abs(b[2] - best) > eps or len(b[0]) != k:
        return "the optimal trade is %r, but it should have %d deals and gain %r" % (b, k, best)
    gains = [sum(flat([x])) for x in b[0]]
    if abs(sum(gains) - best) > eps or any(g < -eps for g in gains):
        return "the deals %r do not add up to the optimal gain %r" % (b[0], best)
    paths = ref.tree_paths(struct)
    lengths = {sum(counts[i] for i in p) for p in paths}
    if any(len(flat([x])) not in lengths for x in b[0]):
        return "a deal of %r does not have the size of any recipe" % (b[0],)
    from mc.props.c32 import along_a_path
    for x in b[0]:
        if not along_a_path(flat([x]), struct, counts, cats):
            return "the deal %s is not made of the traders of a recipe" % (x,)
    # the values in all deals are the best ones of their categories, for some optimal vector of deals per path
    used = sorted(flat(list(b[0])))
    def traders(v):
        out = []
        for i in range(len(cats)):
            n = counts[i] * sum(x for x, p in zip(v, paths) if i in p)
            out += cats[i][:n]
        return sorted(out)
    if not any(used == traders(v) for v in vectors):
        return "the traders %s of the deals are not those of an optimal trade" % used
    for x in (c, e):
        if x[1] != k or abs(x[2] - best) > eps:
            return "the optimal trade with counters has %r deals and gain %r instead of %d and %r" % (x[1], x[2], k, best)
        if k > 0 and not any((x[3], x[4]) == (min(y for y in v if y), max(v)) for v in vectors):
            return "the numbers of deals per path are between %r and %r, but optimal trades have the vectors %s" % (x[3], x[4], vectors)
        if k == 0 and (x[3], x[4]) != (0, 0):
            return "without deals, the numbers of deals per path are given as %r to %r" % (x[3], x[4])
    most = ref.tree_max_deals(struct, counts, [len(x) for x in cats])
    if d != most:
        return "num_of_deals() is %r, but at most %d deals are possible" % (d, most)
    if after != [list(x) for x in cats]:
        return "the market has changed to %r" % after
    return None


def explore(shard, ctx):
    struct, counts = shard["struct"], shard["counts"]
    mods = modules(counts)
    for cats in dom.profiles(shard["cats"], shard["part"], shard["parts"]):
        ctx.states += 1
        oracle = ref.tree_optimum(struct, cats, counts)
        ctx.outcome((json.dumps(struct), oracle[0]))
        for name, module, mcounts in mods:
            ctx.transitions += 1
            ctx.traces += 1
            msg = judge(struct, counts, cats, module, mcounts, oracle)
            if msg:
                ctx.fail({"struct": struct, "counts": counts, "values": cats, "module": name}, "%s: tree %s, counts %s, values %s: %s" % (name, struct, counts, cats, msg))
        if ctx.states % 300 == 150 and oracle[0]:
            ctx.sample({"tree": struct, "counts": counts, "values": cats, "optimum": [oracle[0], oracle[1], oracle[2]]})


def replay(s, ctx):
    cats = tuple(tuple(c) for c in s["values"])
    for name, module, mcounts in modules(s["counts"]):
        if name == s["module"]:
            msg = judge(s["struct"], s["counts"], cats, module, mcounts, ref.tree_optimum(s["struct"], cats, s["counts"]))
            if msg:
                ctx.fail(s, msg)
