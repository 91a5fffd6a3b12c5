"""C13: the structure of recipe trees: paths, recipes and number of children are those of the nested list; the categories
whose prices rise together contain exactly one category of every recipe; at least one of them has a trader whenever the
root has one; the numbers of agents chosen for simulations add up, on each path, to that of the root.  All ordered trees of up to 6 (thorough 7) categories, all labellings up to 4, all sizes up to 3 (thorough 4), all counts up to 3."""
import contextlib, io, itertools, json
from mc import dom, ref, engine


def structs(tier):
    out = []
    for n in range(1, 5):
        for s in dom.shapes(n):
            for order in itertools.permutations(range(n)):
                out.append((dom.label(s, order), n))
    for s in dom.shapes(5):
        out.append((dom.label(s, range(5)), 5))
        out.append((dom.label(s, (3, 1, 4, 0, 2)), 5))
    for s in dom.shapes(6):
        out.append((dom.label(s, (5, 2, 0, 4, 1, 3)), 6))
        out.append((dom.label(s, range(6)), 6))
    for s in dom.shapes(7)[:: 1 if tier == "thorough" else 2]:
        out.append((dom.label(s, (0, 6, 2, 4, 5, 1, 3)), 7))
    out.append(([0, [2, None]], 3))           # a category outside the tree
    out.append((dom.PAPER, 7))
    out.append((dom.FOUR_PATHS, 7))
    return out + big_structs()


def big_structs():
    """Stars, brooms, combs, chains and a binary tree with up to 26 categories."""
    leaf = ()
    out = []
    for k in (4, 5, 6, 8, 9, 12, 20, 36):
        for sub in ((leaf,), (leaf, leaf), ((leaf,),)):
            for pos in {0, k // 2, k - 1}:
                # a root with k children; the child at this position has descendants
                out.append(tuple(sub if j == pos else leaf for j in range(k)))
        out.append(tuple((leaf,) * (1 + j % 3) if j % 2 else leaf for j in range(k)))
        out.append((((leaf,) * k,),))
        comb = leaf
        for j in range(k):
            comb = (leaf, comb) if j % 2 else (comb, leaf)
        out.append(comb)
        chain = leaf
        for j in range(k + 4):
            chain = (chain,)
        out.append(chain)
    out.append(dom._nest(3, 2))
    out.append(dom._nest(2, 4))
    def count(s):
        return 1 + sum(map(count, s))
    r = []
    for s in dict.fromkeys(out):
        n = count(s)
        r += [(dom.label(s, range(n)), n), (dom.label(s, [(i * 7 + 3) % n if n % 7 else (i * 5 + 3) % n for i in range(n)]), n)]
    return r


def shards(tier):
    return [{"struct": s, "n": n, "tier": tier} for s, n in structs(tier)]


def children(struct, out):
    for i in range(0, len(struct), 2):
        kids = struct[i + 1]
        out[struct[i]] = 1 if kids is None else len(kids) // 2
        if kids is not None:
            children(kids, out)
    return out


def depth(struct):
    return 0 if struct is None else 1 + max(depth(struct[i + 1]) for i in range(0, len(struct), 2))


def relabel(struct, f):
    return [f[x] if i % 2 == 0 else (None if x is None else relabel(x, f)) for i, x in enumerate(struct)]


def worlds(struct, n):
    """The tree with several assignments of counts, and relabelled: all of them are built in one process."""
    if n <= 7:
        counts = sorted(set(itertools.permutations([1 + (i * 2) % 3 for i in range(n)])))
    else:
        counts = [tuple(1 + (i * k + j) % 3 for i in range(n)) for k in (1, 2, 5) for j in range(3)]
    counts = counts[:: max(1, len(counts) // 12)] + [(2,) * n, tuple(1 + (i * 2) % 3 for i in range(n))]
    for c in counts:
        yield struct, list(c)
    nodes = ref.tree_nodes(struct)
    for k in range(1, len(nodes)):
        f = dict(zip(nodes, nodes[k:] + nodes[:k]))
        yield relabel(struct, f), list(counts[0])
    yield struct, list(counts[-1])


def judge_static(struct, n):
    for s, c in worlds(struct, n):
        msg = judge_one(s, n, c)
        if msg:
            return "tree %s, counts %s: %s" % (s, c, msg)
    return None


def judge_one(struct, n, counts):
    import recipetree, recipetree_integer, tree_calculations as tc
    from agents import AgentCategory
    cats = [AgentCategory("n%d" % i, [1]) for i in range(n)]
    paths = ref.tree_paths(struct)
    nodes = ref.tree_nodes(struct)
    for mod, cc in ((recipetree, None), (recipetree_integer, None), (recipetree_integer, counts)):
        t = mod.RecipeTree(cats, struct, cc)
        if [tuple(p) for p in t.paths_to_leaf(indices=True)] != paths:
            return "%s: the paths are %s instead of %s" % (mod.__name__, t.paths_to_leaf(indices=True), paths)
        if [tuple(p) for p in t.paths_to_leaf()] != [tuple("n%d" % i for i in p) for p in paths]:
            return "%s: the named paths are %s" % (mod.__name__, t.paths_to_leaf())
        want = ref.tree_recipes(struct, cc or [1] * n)
        if [list(r) for r in t.recipes()] != want:
            return "%s: the recipes are %s instead of %s" % (mod.__name__, t.recipes(), want)
        for p in paths:
            for q in (None, counts):
                r = mod.RecipeTree.recipe_from_path(list(p), n, q)
                if list(r) != [(q[i] if q else 1) if i in p else 0 for i in range(n)]:
                    return "%s: the recipe of the path %s with counts %s is %s" % (mod.__name__, p, q, r)
    # other names: equal, empty, and categories which are only names
    alike = [["same", "other"][i % 2] for i in range(n)]
    for names in (["same"] * n, alike, [""] * n, [str(n - 1 - i) for i in range(n)], ["0"] * n, ["None", "", "True", "0.5", " "] * n):
        named = [AgentCategory(x, [1]) for x in names[:n]]
        for mod in (recipetree, recipetree_integer):
            for c in (named, names[:n]):
                t = mod.RecipeTree(c, struct)
                if [tuple(p) for p in t.paths_to_leaf()] != [tuple(names[i] for i in p) for p in paths] or [tuple(p) for p in t.paths_to_leaf(indices=True)] != paths:
                    return "%s: the paths over the names %s are %s" % (mod.__name__, names, t.paths_to_leaf())
                if [list(r) for r in t.recipes()] != ref.tree_recipes(struct, [1] * n):
                    return "%s: the recipes over the names %s are %s" % (mod.__name__, names, t.recipes())
            t = mod.RecipeTree(named, struct)
            cut = t.largest_categories(indices=True)[-1]
            if list(t.largest_categories()[-1]) != [names[i] for i in cut]:
                return "%s: the categories to raise are %s, but the names are %s of %s" % (mod.__name__, cut, t.largest_categories(), names)
    got = list(tc.get_children_counts(struct, [1] * n))
    if got != children(struct, [0] * n):
        return "the numbers of children are %s" % got
    if struct[0] == 0 and depth(struct) > 1:
        with contextlib.redirect_stdout(io.StringIO()):
            sizes = tc.get_agents_analyze(struct)
        for path in paths:
            if sum(sizes[i] for i in path[1:]) != sizes[0] or sizes[0] != depth(struct) - 1:
                return "the analysed numbers of agents %s do not add up to the one of the root on the path %s" % (sizes, list(path))
            if any(sizes[i] != 1 for i in path[1:-1]):
                return "the analysis gives an inner category %s agents" % (sizes,)
    if tuple(tc.get_depth_and_agents_size(struct)) != (depth(struct), max(nodes)):
        return "the depth and the highest index are %s" % (tc.get_depth_and_agents_size(struct),)
    return None


def judge_malformed(struct, n, bad):
    """A list of odd length must be refused."""
    import recipetree, recipetree_integer
    from agents import AgentCategory
    cats = [AgentCategory("n%d" % i, [1]) for i in range(n)]
    for mod in (recipetree, recipetree_integer):
        r = engine.run(lambda: mod.RecipeTree(cats, bad))
        if not (isinstance(r, engine.Raised) and r.type == "ValueError"):
            return "%s: the malformed tree %s is not refused with a ValueError but gives %r" % (mod.__name__, bad, r)
    return None


def malformed(struct):
    """Every structure with one element cut off the end of one of its lists."""
    out = [struct[:-1]] + ([struct[:1]] if len(struct) > 2 else [])
    def rec(s, wrap):
        for i in range(0, len(s), 2):
            kids = s[i + 1]
            if kids is not None:
                cut = kids[:-1]
                out.append(wrap(s[:i + 1] + [cut] + s[i + 2:]))
                rec(kids, lambda x, s=s, i=i, wrap=wrap: wrap(s[:i + 1] + [x] + s[i + 2:]))
    rec(struct, lambda x: x)
    return out


def cut_message(struct, counts, sizes, result):
    """result: the categories to raise, by index, by name and again, and the number of deals"""
    (big, total, cut), (_, _, names), again, deals = result
    if list(again[2]) != list(cut):
        return "repeating the query gives %s and %s" % (cut, again[2])
    if list(names) != ["n%d" % i for i in cut]:
        return "the indices are %s but the names are %s" % (cut, names)
    for p in ref.tree_paths(struct):
        if sum(1 for i in cut if i in p) != 1:
            return "the categories %s contain %d categories of the recipe %s, not one" % (cut, sum(1 for i in cut if i in p), list(p))
    if sizes[struct[0]] and not any(sizes[i] for i in cut):
        return "no category of %s has a trader, so that no price can stop, but the root has traders" % (list(cut),)
    if (total == 0) != (sizes[struct[0]] == 0):
        return "the combined size is %r, but the root has %d traders" % (total, sizes[struct[0]])
    if abs(big - max(sizes[i] / counts[i] for i in cut)) > 1e-9:
        return "the largest size is %r, but the categories %s have sizes %s" % (big, cut, [sizes[i] / counts[i] for i in cut])
    most = ref.tree_max_deals(struct, counts, sizes)
    if deals != most:
        return "num_of_deals() is %r, but at most %d deals are possible" % (deals, most)
    return None


def judge_cut(struct, counts, sizes):
    import recipetree, recipetree_integer
    from agents import AgentCategory
    cats = [AgentCategory("n%d" % i, list(range(s))) for i, s in enumerate(sizes)]
    mods = [(recipetree_integer, list(counts))]
    if all(c == 1 for c in counts):
        mods += [(recipetree, None), (recipetree_integer, None)]
    for mod, cc in mods:
        r = engine.run(lambda: (lambda t: (t.largest_categories(indices=True), t.largest_categories(), t.largest_categories(indices=True), t.num_of_deals()))(mod.RecipeTree(cats, struct, cc)))
        msg = r.text if isinstance(r, engine.Raised) else cut_message(struct, counts, sizes, r)
        if msg:
            return "%s: %s" % (mod.__name__, msg)
    return None


def ok(sizes):
    """the brute-force number of deals is feasible"""
    return sum(sizes) <= 60


def grids(n, tier):
    if n > 7:
        sizes = [(1,) * n, (2,) * n] + [tuple(b if i == j else a for i in range(n)) for j in range(n) for a, b in ((1, 0), (1, 3), (2, 5), (4, 1), (0, 2))]
        sizes += [tuple((i * k + j) % 5 for i in range(n)) for k in (1, 2, 3) for j in range(5)]
        return [s for s in sizes if ok(s)], [(1,) * n, tuple(1 + i % 2 for i in range(n)), tuple(2 - i % 2 for i in range(n)), tuple(1 + i % 3 for i in range(n))]
    top = (5 if n <= 4 else 4 if n == 5 else 3) if tier == "thorough" else 4 if n <= 4 else 3 if n == 5 else 2
    sizes = itertools.product(range(top), repeat=n)
    cs = list(itertools.product((1, 2, 3), repeat=n)) if n <= 3 else [(1,) * n, tuple(1 + i % 2 for i in range(n)), tuple(2 - i % 2 for i in range(n))] + [tuple(1 + i % 3 for i in range(n)), (2,) * n]
    return sizes, cs


def explore(shard, ctx):
    struct, n = shard["struct"], shard["n"]
    ctx.states += 1
    ctx.transitions += 1
    ctx.traces += 1
    r = engine.run(judge_static, struct, n)
    msg = r.text if isinstance(r, engine.Raised) else r
    if msg:
        ctx.fail({"kind": "static", "struct": struct, "n": n}, "tree %s: %s" % (struct, msg))
    for bad in malformed(struct):
        ctx.states += 1
        ctx.transitions += 1
        msg = judge_malformed(struct, n, bad)
        if msg:
            ctx.fail({"kind": "malformed", "struct": struct, "n": n, "bad": bad}, msg)
    sizes, cs = grids(n, shard["tier"])
    for size in sizes:
        for counts in cs:
            ctx.states += 1
            ctx.transitions += 1
            ctx.traces += 1
            msg = judge_cut(struct, counts, size)
            if msg:
                ctx.fail({"kind": "cut", "struct": struct, "counts": counts, "sizes": size}, "tree %s, counts %s, sizes %s: %s" % (struct, counts, size, msg))
    ctx.outcome(json.dumps(struct))
    ctx.sample({"tree": struct, "malformed": malformed(struct)[:3]})


def replay(s, ctx):
    if s["kind"] == "static":
        r = engine.run(judge_static, s["struct"], s["n"])
        msg = r.text if isinstance(r, engine.Raised) else r
    elif s["kind"] == "malformed":
        msg = judge_malformed(s["struct"], s["n"], s["bad"])
    else:
        msg = judge_cut(s["struct"], tuple(s["counts"]), tuple(s["sizes"]))
    if msg:
        ctx.fail(s, msg)
