"""C05: no trader can gain, in expectation over the lottery, by reporting another value (single-recipe auctions).

For every choice of the other categories and every size n, the outcome of every multiset of n reports over the grid
is computed on the real code.  Two multisets that differ in one report are connected by an edge; on every edge, in
both directions, the trader whose report changes must not prefer the other end.  The edges are all unilateral
misreports within the grid."""
from mc import dom, ref, engine

AUCTIONS = {"sbb": ["ascending", "external-competition", "external-competition/positive-only"], "mcafee": ["mcafee", "mcafee/no-heuristic"]}


def families(tier):
    th = tier == "thorough"
    C, R = dom.C, range
    F = []
    def add(name, recipe, liar, *cats, group="sbb"):
        F.append({"family": name, "recipe": list(recipe), "liar": liar, "cats": list(cats), "group": group})
    for group in ("sbb", "mcafee"):
        for liar in (0, 1):
            add("1-1", (1, 1), liar, C(R(1, 6), 0, 4), C(R(-5, 0), 0, 4), group=group)
            add("1-1 sellers first", (1, 1), liar, C([-5, -4, -2, -1], 1, 4), C([1, 2, 4, 5], 1, 4), group=group)
            add("1-1 halves", (1, 1), liar, C([0.5, 1, 1.5, 2, 2.5], 1, 3), C([-2.5, -2, -1.5, -1, 0], 1, 3), group=group)
            add("1-1 many", (1, 1), liar, C([2, 3, 5], 4, 7), C([-4, -3, -1], 4, 7), group=group)
    for liar in (0, 1):
        add("1-1 any sign", (1, 1), liar, C([-2, -1, 0, 1, 2], 0, 3), C([-2, -1, 0, 1, 2], 0, 3))
    for liar in (0, 1, 2):
        add("1-1-1", (1, 1, 1), liar, *[C([2, 4, 5, 7], 1, 3), C([-3, -2, -1], 1, 3), C([-4, -2, -1], 1, 3)])
        add("1-1-1", (1, 1, 1), liar, *[C([2, 4, 5, 7], 1, 3), C([-3, -2, -1], 1, 3), C([-4, -2], 1, 3)], group="mcafee")
        add("1-1-1 any sign", (1, 1, 1), liar, *[C([-1, 0, 2], 0, 2), C([-2, 0, 1], 0, 3), C([-1, 0, 2], 0, 2)])
        add("1-2-1", (1, 2, 1), liar, *[C([4, 6, 9], 1, 3), C([-3, -1, 0], 2, 5), C([-3, -1], 1, 3)])
        add("2-1-1", (2, 1, 1), liar, *[C([2, 3, 5], 2, 5), C([-3, -1], 1, 3), C([-4, -2], 1, 3)])
        add("1-1-2", (1, 1, 2), liar, *[C([5, 7, 9], 1, 3), C([-3, -1], 1, 3), C([-2, -1], 2, 5)])
    for liar in (0, 1, 2, 3):
        add("1-1-1-1", (1, 1, 1, 1), liar, *[C([5, 7, 9], 1, 3), C([-3, -1], 1, 2), C([-2, -1], 1, 3), C([-3, -2], 1, 2)])
    for liar in (0, 1):
        add("1-2", (1, 2), liar, C([2, 3, 5, 7], 1, 3), C([-4, -3, -2, -1], 2, 5))
        add("2-1", (2, 1), liar, C([1, 2, 3, 4], 2, 5), C([-7, -5, -4, -2], 1, 3))
        add("2-1 sellers first", (2, 1), liar, C([-3, -2, -1], 2, 6), C([2, 3, 5, 8], 1, 3))
        add("2-2", (2, 2), liar, C([1, 3, 4], 2, 6), C([-4, -2, -1], 2, 6))
        add("2-3", (2, 3), liar, C([4, 6, 7], 2, 5), C([-3, -2, -1], 3, 7))
        add("3-2", (3, 2), liar, C([1, 2, 4], 3, 7), C([-5, -4, -2], 2, 5))
        add("1-3", (1, 3), liar, C([3, 5, 7], 1, 3), C([-3, -2, -1], 3, 7))
        add("3-1", (3, 1), liar, C([1, 2, 3], 3, 8), C([-7, -5, -4], 1, 3))
        add("1-1 large values", (1, 1), liar, C([10**6, 10**6 + 1, 3 * 10**6], 1, 3), C([-3 * 10**6, -10**6, -999999], 1, 3))
        e = 1 / 256
        for group in ("sbb", "mcafee"):
            add("1-1 near", (1, 1), liar, C([3 - e, 3, 3 + e, 4, 4 + e], 1, 3), C([-4, -3 - e, -3, -3 + e, -2], 1, 3), group=group)
            add("1-1 wide", (1, 1), liar, C([2, 3, 5], 12, 12) if liar == 0 else C([2, 5], 12, 12), C([-4, -1], 11, 11) if liar == 0 else C([-4, -2, -1], 11, 11), group=group)
            add("1-1 millions", (1, 1), liar, C([2 * 10**6, 2 * 10**6 + 1, 3 * 10**6], 1, 3), C([-10**6, -999999, -1], 1, 3), group=group)
        add("1-2 near", (1, 2), liar, C([4 - e, 4, 4 + e, 6 - e], 1, 2), C([-3, -2 - e, -2, -1], 2, 4))
        add("1-0-1", (1, 0, 1), 2 * liar, *[C([1, 3, 4], 1, 3), C([7], 1, 1), C([-3, -2, -1], 1, 3)])
        # larger recipes and longer lists
        add("1-14", (1, 14), liar, C([43, 60, 67], 1, 3) if liar == 0 else C([43, 67], 2, 2), C([-6, -3, -1], 30, 30) if liar == 0 else C([-60, -6, -3, -1], 30, 30))
        ones = [C([20, 33], 2, 3)] + [C([-1], 2, 2)] * 14 + [C([-2, -1], 1, 2), C([-2, -1], 2, 3)]
        ones[16 * liar] = C([20, 25, 33], 1, 3) if liar == 0 else C([-4, -2, -1, 0], 1, 3)
        add("seventeen ones", (1,) * 17, 16 * liar, *ones)
        add("1-8", (1, 8), liar, C([9, 12, 17], 1, 3), C([-2, -1.5, -1], 15, 18))
        add("5-1", (5, 1), liar, C([1, 2, 3], 5, 11), C([-8, -6, -5, -3], 1, 3))
        add("4-2", (4, 2), liar, C([1, 2, 3], 7, 9), C([-6, -3, -1], 2, 5))
        add("7-5", (7, 5), liar, C([1, 2, 3], 14, 15), C([-4, -2, -1], 10, 11))
        add("4-3", (4, 3), liar, C([3, 4, 6], 4, 9), C([-4, -3, -2], 3, 7))
        add("1-1 distinct", (1, 1), liar, C(R(1, 9), 6, 7, True), C(R(-8, 0), 6, 7, True))
        add("1-1 long and distinct", (1, 1), liar, C(R(10, 52), 41, 41, True) if liar == 0 else C(R(10, 51), 41, 41, True), C(R(-50, -10), 40, 40, True) if liar == 0 else C(R(-50, -9), 40, 40, True))
        add("1-2 long and distinct", (1, 2), liar, C(R(20, 52), 31 + liar, 31 + liar, True), C(R(-50, -8), 42 - liar, 42 - liar, True))
        add("1-1 cents", (1, 1), liar, C([x / 64 for x in (1, 2, 3, 5)], 1, 3), C([-x / 64 for x in (0, 2, 3, 4)], 1, 3))
        add("1-1 cents", (1, 1), liar, C([x / 64 for x in (1, 2, 3, 5)], 1, 3), C([-x / 64 for x in (0, 2, 3, 4)], 1, 3), group="mcafee")
        add("1-1 distinct", (1, 1), liar, C(R(1, 9), 6, 7, True), C(R(-8, 0), 6, 7, True), group="mcafee")
        add("1-1 long and distinct", (1, 1), liar, C(R(10, 52), 41, 41, True) if liar == 0 else C(R(10, 51), 41, 41, True), C(R(-50, -10), 40, 40, True) if liar == 0 else C(R(-50, -9), 40, 40, True), group="mcafee")
    for liar in (0, 1, 2):
        add("1-2-3", (1, 2, 3), liar, C([12, 14, 16], 1, 3), C([-3, -2, -1], 2, 5), C([-3, -1], 3, 7))
        add("2-2-3", (2, 2, 3), liar, C([6, 8], 2, 5), C([-3, -2, -1], 2, 4), C([-2, -1], 3, 7))
        add("4-1-2", (4, 1, 2), liar, C([2, 3], 4, 9), C([-3, -1], 1, 3), C([-3, -1], 2, 5))
        add("sellers in the middle", (1, 1, 1), liar, C([3, 5], 2, 3), C([-7, -6, -4], 2, 3), C([1, 2, 4], 2, 3))
    for liar in range(5):
        cats = [C([8, 10, 13], 2, 3)] + [C([-3, -1], 1, 2)] * 4
        cats[liar] = C([-4, -3, -2, -1], 1, 3) if liar else cats[0]
        add("1-1-1-1-1", (1,) * 5, liar, *cats)
        if liar < 4:
            add("1-2-1-2", (1, 2, 1, 2), liar, *[C([12, 15], 1, 2), C([-3, -2, -1], 2, 4), C([-3, -1], 1, 2), C([-2, -1], 2, 4)])
    if th:
        for group in ("sbb", "mcafee"):
            for liar in (0, 1):
                add("T 1-1", (1, 1), liar, C(R(1, 8), 0, 5), C(R(-7, 0), 0, 4), group=group)
                add("T 1-1 long", (1, 1), liar, C([1, 2, 4, 5], 5, 8), C([-5, -3, -2, -1], 5, 8), group=group)
        for liar in (0, 1, 2):
            add("T 1-1-1", (1, 1, 1), liar, *[C([2, 3, 4, 5, 7], 1, 4), C(R(-4, 0), 1, 3), C(R(-4, 0), 1, 3)])
            add("T 1-2-1", (1, 2, 1), liar, *[C([4, 6, 8, 9], 1, 3), C([-3, -2, -1], 2, 6), C([-3, -2, -1], 1, 3)])
            add("T 2-2-1", (2, 2, 1), liar, *[C([2, 4, 5], 3, 6), C([-2, -1, 0], 3, 6), C([-5, -3, 1], 1, 3)])
            add("T 2-2-3", (2, 2, 3), liar, *[C([6, 8, 9], 2, 5), C([-2, -1], 2, 5), C([-3, -2, -1], 3, 7)])
        for liar in (0, 1):
            add("T 2-3", (2, 3), liar, C([2, 3, 4, 6, 7], 2, 6), C([-4, -3, -2, -1], 3, 7))
            add("T 3-2", (3, 2), liar, C([1, 2, 3, 4], 3, 8), C([-6, -5, -3, -2], 2, 6))
            add("T 2-1", (2, 1), liar, C(R(1, 6), 2, 7), C([-9, -7, -5, -3, -2], 1, 4))
            add("T 1-2", (1, 2), liar, C(R(1, 8), 1, 4), C(R(-4, 0), 2, 7))
            add("T 3-3", (3, 3), liar, C([1, 3, 4], 3, 9), C([-4, -2, -1], 3, 9))
            add("T 4-1", (4, 1), liar, C([1, 2, 3], 4, 12), C([-9, -7, -5], 1, 3))
    return F


def shards(tier):
    out = []
    for f in families(tier):
        sizes = [dom.count(c) for c in f["cats"]]
        others = [i for i in range(len(sizes)) if i != f["liar"]]
        total = 1
        for s in sizes:
            total *= s
        big = max(others, key=lambda i: sizes[i])
        parts = max(1, min(sizes[big], round(total / 2000)))
        for p in range(parts):
            g = dict(f)
            g["part"], g["parts"], g["big"] = p, parts, big
            out.append(g)
    return out


def weak_utility(out, recipe, ci, report, true, reported):
    p = ref.probability(out, recipe, ci, report, list(reported))
    return 0.0 if p == 0 else (true - out.prices[ci]) * p


def explore(shard, ctx):
    from mc import auct
    import itertools
    recipe, liar = tuple(shard["recipe"]), shard["liar"]
    lists = [dom.expand(c) for c in shard["cats"]]
    lists[shard["big"]] = lists[shard["big"]][shard["part"]::shard["parts"]]
    reports = lists[liar]
    grid = shard["cats"][liar]["grid"]
    edges = []
    known = set(reports)
    for m in reports:
        for v in dict.fromkeys(m):
            rest = list(m)
            rest.remove(v)
            for w in grid:
                m2 = tuple(sorted(rest + [w], reverse=True))
                if w != v and m2 in known:
                    edges.append((m, v, m2, w))
    lists[liar] = [None]
    for others in itertools.product(*lists):
        for a in AUCTIONS[shard["group"]]:
            table = {}
            for m in reports:
                cats = others[:liar] + (m,) + others[liar + 1:]
                out = auct.play(a, cats, recipe)
                ctx.states += 1
                if isinstance(out, engine.Raised):
                    ctx.fail({"kind": "misreport", "auction": a, "recipe": list(recipe), "values": cats, "liar": liar, "true": None, "report": None},
                             "%s auction, recipe %s, values %s gives no result: %s" % (a, list(recipe), cats, out.text))
                table[m] = out
            for (m, v, m2, w) in edges:
                ctx.transitions += 1
                honest, lying = table[m], table[m2]
                if not isinstance(honest, auct.Outcome) or not isinstance(lying, auct.Outcome):
                    continue
                loses = honest.deals and recipe[liar] and v < honest.prices[liar] - ref.EPS and v in honest.traders[liar]
                u = weak_utility(lying, recipe, liar, w, v, m2) if lying.deals else 0.0
                if u <= ref.EPS and not loses:
                    continue             # an honest trader who does not lose is no worse off
                ctx.traces += 1
                u0 = weak_utility(honest, recipe, liar, v, v, m)
                if u > u0 + ref.EPS * max(1, abs(u)):
                    report(ctx, a, recipe, others[:liar] + (m,) + others[liar + 1:], liar, v, w, u0, u, honest, lying)
        if len(ctx.samples) < 2:
            ctx.sample({"recipe": list(recipe), "liar": liar, "others": [list(o) if o is not None else "all reports" for o in others]})


def report(ctx, a, recipe, cats, liar, v, w, u0, u, honest, lying):
    ctx.fail({"kind": "misreport", "auction": a, "recipe": list(recipe), "values": [list(c) for c in cats], "liar": liar, "true": v, "report": w},
             "%s auction, recipe %s, values %s: a trader of category %d with value %r gains %r when honest, but %r by reporting %r\n  honest: %s\n  lying:  %s"
             % (a, list(recipe), [list(c) for c in cats], liar, v, u0, u, w, honest, lying))


def replay(s, ctx):
    from mc import auct
    recipe, liar, cats = tuple(s["recipe"]), s["liar"], tuple(tuple(c) for c in s["values"])
    honest = auct.play(s["auction"], cats, recipe)
    if isinstance(honest, engine.Raised):
        ctx.fail(s, honest.text)
    if s["true"] is None:
        return
    l = list(cats[liar])
    l.remove(s["true"])
    m2 = tuple(sorted(l + [s["report"]], reverse=True))
    lying = auct.play(s["auction"], cats[:liar] + (m2,) + cats[liar + 1:], recipe)
    if isinstance(lying, engine.Raised):
        ctx.fail(s, lying.text)
    u0 = weak_utility(honest, recipe, liar, s["true"], s["true"], cats[liar])
    u = weak_utility(lying, recipe, liar, s["report"], s["true"], m2)
    if u > u0 + ref.EPS * max(1, abs(u)):
        report(ctx, s["auction"], recipe, cats, liar, s["true"], s["report"], u0, u, honest, lying)
