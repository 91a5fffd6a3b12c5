"""C32: a recipe tree always answers from the present traders of its categories.  All sequences of changes of the
categories (traders join, leave, are replaced) up to the depth bound are executed on categories over which several trees
of both implementations live, and after every change every query of every tree is compared with brute force."""
import itertools, json
from mc import dom, ref, engine
from mc.props import c13, c27

VALUES = [4, -2, 0.5]
OTHER = [[6, 1, -1, -3], [-1, -2], []]


def best_sums(struct, counts, cats):
    """best gain with exactly j deals, for every possible j"""
    paths = ref.tree_paths(struct)
    nodes = sorted(set(ref.tree_nodes(struct)))
    sums = [[0] for _ in cats]
    for s, c in zip(sums, cats):
        for v in c:
            s.append(s[-1] + v)
    out = {}
    for v in ref._pv(json.dumps(struct), tuple(counts), tuple(map(len, cats))):
        g = sum(sums[c][counts[c] * sum(x for x, p in zip(v, paths) if c in p)] for c in nodes)
        j = sum(v)
        if j not in out or g > out[j]:
            out[j] = g
    return out


def flat(x):
    return [x] if not isinstance(x, (list, tuple)) else [z for y in x for z in flat(y)]


def along_a_path(deal, struct, counts, cats):
    """The deal consists of traders of the categories on one path, from the root to the leaf."""
    for p in ref.tree_paths(struct):
        if len(deal) == sum(counts[i] for i in p):
            k = 0
            for i in p:
                part = deal[k:k + counts[i]]
                k += counts[i]
                if any(part.count(v) > cats[i].count(v) for v in part):
                    break
            else:
                return True
    return False


def judge(tree, struct, counts, cats, integer):
    n = len(cats)
    sizes = tuple(map(len, cats))
    best = best_sums(struct, counts, cats)
    most = max(best)
    optimum = max(best.values())
    k = max(j for j in best if best[j] == optimum)
    cut = (tree.largest_categories(indices=True), tree.largest_categories(), tree.largest_categories(indices=True), tree.num_of_deals())
    msg = c13.cut_message(struct, counts, sizes, cut)
    if msg:
        return msg
    if [tuple(p) for p in tree.paths_to_leaf(indices=True)] != ref.tree_paths(struct) or [list(r) for r in tree.recipes()] != ref.tree_recipes(struct, counts):
        return "the paths are %s and the recipes %s" % (tree.paths_to_leaf(indices=True), tree.recipes())
    for what, deals in (("combined_values()", [flat([x]) for x in tree.combined_values()]), ("combined_values_detailed()", [flat([x]) for x in tree.combined_values_detailed()]),
                        ("combined_values_detailed_with_counters()", [flat([x[0]]) for x in tree.combined_values_detailed_with_counters()])):
        if len(deals) != most:
            return "%s lists %d deals, but %d are possible" % (what, len(deals), most)
        for j in range(most + 1):
            if abs(sum(sum(d) for d in deals[:j]) - best[j]) > 1e-6:
                return "the first %d deals of %s = %s gain %r, but %d deals can gain %r" % (j, what, deals, sum(sum(d) for d in deals[:j]), j, best[j])
        if what == "combined_values_detailed()" or (integer and what != "combined_values()"):
            for d in deals:
                if not along_a_path(d, struct, counts, cats):
                    return "%s contains the deal %s, which is not made of the traders on a path" % (what, d)
    if abs(tree.optimal_trade_GFT() - optimum) > 1e-6:
        return "the optimal gain is given as %r instead of %r" % (tree.optimal_trade_GFT(), optimum)
    for o in (tree.optimal_trade(), tree.optimal_trade_with_counters(), tree.optimal_trade(), tree.optimal_trade_with_counters()):
        if len(o[0]) != k or o[1] != k or abs(o[2] - optimum) > 1e-6:
            return "the optimal trade is given as %s instead of %d deals with gain %r" % (o, k, optimum)
    prices = [2.5 - 2 * i for i in range(n)]
    count, lines = c27.tree_lines(struct, cats, counts, prices, integer, ["n%d" % i for i in range(n)])
    potential = [len(cats[p[-1]]) // counts[p[-1]] for p in ref.tree_paths(struct)]
    fewest = min([p for p in potential if p] or [0]) if integer else min(potential)
    for kw, want in (({}, lines), ({"add_num_of_overall_deals": False}, lines[:-1])):
        got = tree.num_of_deals_explained(prices, **kw)
        if got[0] != count or got[1].rstrip("\n").split("\n") != want:
            return "the explanation is %r instead of %r" % (got[:2], (count, want))
        if len(got) != 4 or got[2] != fewest or got[3] != max(potential):
            return "the fewest and most deals per recipe are given as %s, but the potential deals are %s" % (got[2:], potential)
    return None


class System:
    def __init__(self, world):
        import recipetree, recipetree_integer
        from agents import AgentCategory
        self.ref = [sorted(c, reverse=True) for c in world["cats"]]
        self.real = [AgentCategory("n%d" % i, list(c)) for i, c in enumerate(world["cats"])]
        n = len(self.real)
        self.trees = []
        for struct, counts in world["trees"]:
            self.trees.append((recipetree_integer.RecipeTree(self.real, struct, list(counts)), struct, counts, True))
            if all(c == 1 for c in counts):
                self.trees.append((recipetree_integer.RecipeTree(self.real, struct), struct, counts, True))
                self.trees.append((recipetree.RecipeTree(self.real, struct), struct, counts, False))

    def ops(self):
        out = []
        for i, c in enumerate(self.ref):
            out += [("append", i, v) for v in VALUES]
            out += [("list", i, (3, -1))]
            if c:
                out += [("lowest", i), ("highest", i)]
            if len(c) > 1:
                out.append(("highest two", i))
                out.append(("spread", i))
            if len(c) and len(self.ref) > 1:
                out.append(("move", i, (i + 1) % len(self.ref)))
            out.append(("replace", i, len(c) % len(OTHER)))
        return out

    def apply(self, op):
        c, r = self.real[op[1]], self.ref[op[1]]
        if op[0] == "append":
            c.append(op[2]); r.append(op[2])
        elif op[0] == "list":
            c.append(list(op[2])); r.extend(op[2])
        elif op[0] == "lowest":
            c.remove_lowest_agent(); r.pop()
        elif op[0] == "highest":
            c.remove_highest_agent(); r.pop(0)
        elif op[0] == "highest two":
            c.remove_highest_agents(2); del r[:2]
        elif op[0] == "spread":                # other traders with the same sum
            hi, lo = r.pop(0), r.pop()
            c.remove_highest_agent(); c.remove_lowest_agent()
            c.append(hi + 2); c.append(lo - 2)
            r += [hi + 2, lo - 2]
        elif op[0] == "move":                  # a trader joins another category
            v = r.pop()
            c.remove_lowest_agent()
            self.real[op[2]].append(v); self.ref[op[2]].append(v); self.ref[op[2]].sort(reverse=True)
        elif op[0] == "replace":
            c.values = list(OTHER[op[2]]); r[:] = OTHER[op[2]]
        r.sort(reverse=True)

    def compare(self):
        cats = tuple(map(tuple, self.ref))
        for tree, struct, counts, integer in self.trees:
            msg = judge(tree, struct, counts, cats, integer)
            if msg:
                return "%s %s with counts %s over %s: %s" % (type(tree).__module__, struct, counts, cats, msg)
            if [list(c.values) for c in self.real] != self.ref:
                return "the queries of %s %s change the categories to %s instead of %s" % (type(tree).__module__, struct, self.real, self.ref)
        return None


def worlds(tier):
    out = []
    START = [[5, 3, 2, 1], [-1, -2, -2], [-1, -4], [-2, -3, -3, -5]]
    for n in (1, 2, 3, 4):
        S = dom.all_structs(n)
        for a, s in enumerate(S):
            t = S[(a + 1) % len(S)]
            r = s[0]
            cats = START[1:n]
            cats = cats[:r] + [START[0]] + cats[r:]
            for counts in ([1] * n, [1 + i % 2 for i in range(n)], [2 - i % 2 for i in range(n)]):
                out.append({"cats": cats[:n], "trees": [(s, counts), (t, [1] * n)] if counts != [1] * n or t != s else [(s, counts)], "depth": (3 if n < 4 else 2) if tier == "thorough" else 2})
    out.append({"cats": [[9, 8, 8, 7], [-1, -2], [-1, -1], [-3], [-2, -2], [-1, -4, -4], [-2]], "trees": [(dom.PAPER, [1] * 7), (dom.FOUR_PATHS, [1, 1, 1, 2, 1, 1, 1])], "depth": 2 if tier == "thorough" else 1})
    out.append({"cats": [[9, 8, 8, 7, 5, 3], [], [], []], "trees": [(dom.TWO_PATHS, [1, 1, 2, 1]), ([0, [1, None, 2, None, 3, None]], [2, 1, 1, 1])], "depth": 3 if tier == "thorough" else 2})
    return out


def shards(tier):
    out = []
    for w in worlds(tier):
        class D(System):
            def __init__(self):
                self.ref = [sorted(c) for c in w["cats"]]
        for first in D().ops():
            out.append(dict(w, first=first))
    return out


def run(world, history, compare_always=True):
    def go():
        s = System(world)
        if compare_always:
            msg = s.compare()
            if msg:
                return "at the start: " + msg
        for op in history:
            s.apply(op)
            if compare_always:
                msg = s.compare()
                if msg:
                    return msg
        return s.compare()
    r = engine.run(go)
    return r.text if isinstance(r, engine.Raised) else r


def explore(shard, ctx):
    world = {"cats": shard["cats"], "trees": shard["trees"]}
    def ops_after(history):
        class D(System):
            def __init__(self):
                self.ref = [sorted(c, reverse=True) for c in world["cats"]]
                class Nothing:
                    values = None
                    append = remove_lowest_agent = remove_highest_agent = remove_highest_agents = lambda *a: None
                self.real = [Nothing() for _ in self.ref]
        d = D()
        for op in history:
            d.apply(op)
        ctx.outcome(repr(d.ref))
        return d.ops()
    level = [(shard["first"],)]
    for depth in range(shard["depth"]):
        following = []
        for h in level:
            ctx.states += 1
            for always in (True, False):
                ctx.transitions += 1
                ctx.traces += 1
                msg = run(world, h, always)
                if msg:
                    ctx.fail({"world": world, "history": h, "always": always}, "categories %s, after %s (%s): %s" % (world["cats"], h, "with queries in between" if always else "without queries in between", msg))
            if depth + 1 < shard["depth"]:
                following += [h + (op,) for op in ops_after(h)]
        level = following
    ctx.sample({"world": world, "first change": shard["first"]})


def replay(s, ctx):
    msg = run(s["world"], [tuple(tuple(x) if isinstance(x, list) else x for x in op) for op in s["history"]], s["always"])
    if msg:
        ctx.fail(s, msg)
