"""C06: in the ascending auctions (single recipe and recipe tree) the report of a trader decides only whether the
trader participates.  For every market and every unilateral change of one report:
 (a) if the trader surely participates under both reports, the prices, the participants and the number of deals are the same;
 (b) if the trader surely does not participate under the first report but may participate under the second, then the price
     after the change is at least the first report (up to ties).
Together: a trader who is left out cannot get in at a favourable price and a participant cannot influence the price."""
import itertools
from mc import dom, ref, engine

EPS = 1e-5


def families(tier):
    C, R = dom.C, range
    F = []
    def add(name, struct, counts, liar, cats, auctions):
        F.append({"family": name, "struct": struct, "counts": list(counts), "liar": liar, "cats": cats, "auctions": auctions})
    both, integer = ["tree", "integer-tree"], ["integer-tree"]
    th = tier == "thorough"
    for s in dom.all_structs(2):
        for liar in (0, 1):
            cats = [C(R(1, 6), 0, 3), C(R(-4, 0), 0, 3)] if s[0] == 0 else [C(R(-4, 0), 0, 3), C(R(1, 6), 0, 3)]
            add("pair", s, [1, 1], liar, cats, both)
            for c in ((1, 2), (2, 1), (2, 3), (3, 1)):
                cc = [C([3, 5, 8], 1, 2 * c[0] + 1), C([-4, -2, -1], 1, 2 * c[1] + 1)]
                add("pair %d:%d" % c, [0, [1, None]], c, liar, cc, integer)
    for s in dom.all_structs(3):
        for liar in range(3):
            cats = [C([-3, -2, -1], 0, 2)] * 3
            cats[s[0]] = C([2, 3, 5], 0, 3)
            add("three", s, [1] * 3, liar, cats, both)
            for c in ((1, 2, 1), (2, 1, 1), (1, 1, 2), (1, 2, 2)):
                cats = [C([-2, -1], 1, 3)] * 3
                cats[s[0]] = C([4, 6, 7], 1, 3)
                if th or s[0] == 0:
                    add("three %d:%d:%d" % c, s, c, liar, cats, integer)
    for s in dom.all_structs(4)[:: 1 if th else 2]:
        for liar in range(4):
            cats = [C([-3, -1], 0, 2, True)] * 4
            cats[s[0]] = C([3, 5, 7], 1, 3)
            cats[liar] = C([-4, -3, -2, -1], 0, 2) if liar != s[0] else cats[liar]
            add("four", s, [1] * 4, liar, cats, both)
    for liar in range(4):
        cats = [C([5, 8, 9], 2, 3), C([-2, -1], 2, 3), C([-3, -1], 1, 2), C([-2, -1], 2, 3)]
        add("four counted", dom.TWO_PATHS, (1, 2, 1, 2), liar, cats, integer)
    e = 1 / 256
    for liar in (0, 1, 2):
        cats = [C([5, 6 + e, 7], 2, 3), C([-3, -2 - e, -2], 1, 2), C([-3 - e, -3 + e, -2], 1, 2)]
        add("star near", [0, [1, None, 2, None]], [1] * 3, liar, cats, both)
        add("chain near", [0, [1, [2, None]]], [1] * 3, liar, cats, both)
    add("pair near", [0, [1, None]], [1, 1], 0, [C([3 - e, 3, 3 + e, 4], 1, 3), C([-4, -3 - e, -3 + e, -2], 1, 3)], both)
    add("pair near", [0, [1, None]], [1, 1], 1, [C([3 - e, 3, 3 + e, 4], 1, 3), C([-4, -3 - e, -3 + e, -2], 1, 3)], both)
    # higher counts, longer lists, other units
    for liar in (0, 1):
        for c in ((1, 4), (4, 1), (5, 2), (3, 4)):
            add("pair %d:%d" % c, [0, [1, None]], c, liar, [C([4, 9, 15], c[0], 2 * c[0] + 1), C([-4, -2, -1], c[1], 2 * c[1] + 1)], integer)
        add("pair of tens", [0, [1, None]], [1, 1], liar, [C(R(10, 42 - liar), 31, 31, True), C(R(-40, -9 - (1 - liar)), 30, 30, True)], both)
        add("pair of tens 1:2", [1, [0, None]], [2, 1], liar, [C(R(-50, -8 - liar), 41, 41, True), C(R(20, 51 + liar), 31, 31, True)], integer)
        add("pair distinct", [1, [0, None]], [1, 1], liar, [C(R(-8, 0), 5, 6, True), C(R(1, 9), 5, 6, True)], both)
        add("pair of millions", [0, [1, None]], [1, 1], liar, [C([2 * 10**6, 2 * 10**6 + 1, 3 * 10**6], 1, 3), C([-10**6, -999999, -1], 1, 3)], both)
    for liar in range(3):
        for c in ((2, 1, 3), (1, 3, 1), (3, 2, 1)):
            for s in ([0, [1, None, 2, None]], [0, [1, [2, None]]]):
                cats = [C([-3, -1], k, 2 * k) for k in c]
                cats[0] = C([5, 9, 12], c[0], 2 * c[0])
                if liar:
                    cats[liar] = C([-3, -2, -1], c[liar], 2 * c[liar])
                add("three %d:%d:%d" % c, s, c, liar, cats, integer)
    for liar in range(6):
        cats = [C([-3], 2, 2)] * 6
        cats[0] = C([14, 17, 21], 2, 3)
        cats[3] = C([-3, -1], 2, 3)
        if liar:
            cats[liar] = C([-5, -4, -2, -1], 2, 3)
        add("chain of 6", [0, [1, [2, [3, [4, [5, None]]]]]], [1] * 6, liar, cats, both)
        cats = [C([-3], 1, 1)] * 6
        cats[0] = C([4, 5, 7], 3, 4)
        cats[3] = C([-4, -1], 0, 2)
        if liar:
            cats[liar] = C([-5, -4, -2, -1], 0, 2)
        add("star of 5", [0, [1, None, 2, None, 3, None, 4, None, 5, None]], [1] * 6, liar, cats, both)
        cats = [C([-3, -1], 1, 1), C([-2], 2, 2), C([-3, -1], 1, 2), C([-1], 2, 2), C([-2], 1, 2), C([-2], 2, 3)]
        cats[0] = C([11, 14, 16], 2, 3)
        if liar:
            cats[liar] = C([-4, -3, -2, -1], 2, 3)
        add("two branches", [0, [1, [2, None], 3, [4, None, 5, None]]], [1, 1, 1, 1, 2, 1], liar, cats, integer)
    for liar in range(7):
        cats = [C([-3], 1, 2)] * 7
        cats[0] = C([9, 11, 14], 2, 3)
        if liar:
            cats[liar] = C([-5, -4, -3, -2], 1, 2)
        add("paper", dom.PAPER, [1] * 7, liar, cats, both)
        add("four paths", dom.FOUR_PATHS, [1] * 7, liar, cats, both)
    if th:
        for s in dom.all_structs(3):
            for liar in range(3):
                cats = [C([-4, -3, -2, -1], 1, 3)] * 3
                cats[s[0]] = C([2, 4, 5, 7], 1, 3)
                add("T three", s, [1] * 3, liar, cats, both)
        for s in dom.all_structs(5):
            for liar in range(5):
                cats = [C([-3, -1], 1, 2, True)] * 5
                cats[s[0]] = C([5, 7, 9], 1, 3)
                cats[liar] = C([-4, -3, -2, -1], 1, 2) if liar != s[0] else cats[liar]
                add("T five", s, [1] * 5, liar, cats, both)
    return F


def shards(tier):
    out = []
    for f in families(tier):
        sizes = [dom.count(c) for c in f["cats"]]
        others = [i for i in range(len(sizes)) if i != f["liar"]]
        total = 1
        for s in sizes:
            total *= s
        big = max(others, key=lambda i: sizes[i])
        parts = max(1, min(sizes[big], round(total / 800)))
        for p in range(parts):
            g = dict(f)
            g["part"], g["parts"], g["big"] = p, parts, big
            out.append(g)
    return out


def may(out, ci, report):
    """(may participate, surely participates)"""
    if out.deals == 0:
        return False, False
    n = out.traders[ci].count(report)
    return n > 0, n


def same(o1, o2):
    """Everything but the changed report itself."""
    if o1.deals != o2.deals:
        return "the number of deals changes from %d to %d" % (o1.deals, o2.deals)
    for i, (p, q) in enumerate(zip(o1.prices, o2.prices)):
        if abs(p - q) > EPS and o1.traders[i]:
            return "the price of category %d changes from %r to %r" % (i, p, q)
    if [len(t) for t in o1.traders] != [len(t) for t in o2.traders]:
        return "the participants change from %s to %s" % (o1.traders, o2.traders)
    return None


def judge(liar, m, v, m2, w, o1, o2):
    """v is the first report, w the second."""
    in1 = o1.deals > 0 and o1.traders[liar].count(v)
    in2 = o2.deals > 0 and o2.traders[liar].count(w)
    sure1 = in1 and in1 == m.count(v)
    sure2 = in2 and in2 == m2.count(w)
    if sure1 and sure2:
        msg = same(o1, o2)
        if msg:
            return "a trader participates with either report, but " + msg
    if not in1 and in2 and v > o2.prices[liar] + EPS:
        return "a trader with value %r does not participate, but gets in at the price %r with the report %r" % (v, o2.prices[liar], w)
    if sure1 and not in2 and v < o1.prices[liar] - EPS:
        return "a trader with value %r participates at the price %r, and escapes the loss with the report %r" % (v, o1.prices[liar], w)
    return None


def explore(shard, ctx):
    from mc import auct
    struct, counts, liar = shard["struct"], tuple(shard["counts"]), shard["liar"]
    lists = [dom.expand(c) for c in shard["cats"]]
    lists[shard["big"]] = lists[shard["big"]][shard["part"]::shard["parts"]]
    reports, grid = lists[liar], shard["cats"][liar]["grid"]
    edges = []
    known = set(reports)
    for m in reports:
        for v in dict.fromkeys(m):
            rest = list(m)
            rest.remove(v)
            for w in grid:
                m2 = tuple(sorted(rest + [w], reverse=True))
                if w != v and m2 in known:
                    edges.append((m, v, m2, w))
    lists[liar] = [None]
    for others in itertools.product(*lists):
        for a in shard["auctions"]:
            table = {}
            for m in reports:
                cats = others[:liar] + (m,) + others[liar + 1:]
                out = auct.play(a, cats, struct, counts)
                ctx.states += 1
                if isinstance(out, engine.Raised):
                    ctx.fail({"auction": a, "struct": struct, "counts": counts, "values": cats, "liar": liar, "first": None, "second": None},
                             "%s auction, tree %s, counts %s, values %s gives no result: %s" % (a, struct, counts, cats, out.text))
                table[m] = out
            for (m, v, m2, w) in edges:
                ctx.transitions += 1
                o1, o2 = table[m], table[m2]
                if not isinstance(o1, auct.Outcome) or not isinstance(o2, auct.Outcome):
                    continue
                ctx.traces += 1
                msg = judge(liar, m, v, m2, w, o1, o2)
                if msg:
                    fail(ctx, a, struct, counts, others[:liar] + (m,) + others[liar + 1:], liar, v, w, msg, o1, o2)
        ctx.sample({"tree": struct, "counts": list(counts), "liar": liar, "others": [list(o) if o is not None else "all reports" for o in others]})


def fail(ctx, a, struct, counts, cats, liar, v, w, msg, o1, o2):
    ctx.fail({"auction": a, "struct": struct, "counts": list(counts), "values": [list(c) for c in cats], "liar": liar, "first": v, "second": w},
             "%s auction, tree %s, counts %s, values %s; a trader of category %d changes the report from %r to %r: %s\n  first:  %s\n  second: %s"
             % (a, struct, list(counts), [list(c) for c in cats], liar, v, w, msg, o1, o2))


def replay(s, ctx):
    from mc import auct
    liar, cats = s["liar"], tuple(tuple(c) for c in s["values"])
    o1 = auct.play(s["auction"], cats, s["struct"], tuple(s["counts"]))
    if isinstance(o1, engine.Raised):
        ctx.fail(s, o1.text)
    if s["first"] is None:
        return
    l = list(cats[liar])
    l.remove(s["first"])
    m2 = tuple(sorted(l + [s["second"]], reverse=True))
    o2 = auct.play(s["auction"], cats[:liar] + (m2,) + cats[liar + 1:], s["struct"], tuple(s["counts"]))
    if isinstance(o2, engine.Raised):
        ctx.fail(s, o2.text)
    msg = judge(liar, cats[liar], s["first"], m2, s["second"], o1, o2)
    if msg:
        fail(ctx, s["auction"], s["struct"], s["counts"], cats, liar, s["first"], s["second"], msg, o1, o2)
