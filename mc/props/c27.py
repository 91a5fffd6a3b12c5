"""C27: the printed outcome says what the outcome is: for all outcomes (built directly from all participants in the bounds
and made by every auction) each printed line is compared with the numbers that follow from participants, recipe and
prices: who trades, how many are drawn at random out of how many, the price per category, the deals per node of a tree."""
import json
from mc import dom, ref, engine
from mc.dom import C, R


def families(tier):
    out = []
    def single(recipe, *cats):
        out.append({"kind": "single", "recipe": list(recipe), "cats": list(cats)})
    single((1, 1), C(R(-2, 4), 0, 4), C(R(-4, 0), 0, 4))
    single((1, 1), C([0.5, 2.25], 0, 5), C([-1, -0.25], 0, 6))
    single((1, 1), C([9000.25, 8000.25, 123456.5], 0, 4), C([-4000.5, -7999.75, -1234567.125], 0, 4))
    single((1, 2), C([90000.25, 2 ** 20 + 0.5], 0, 4), C([-4000.5, -7999.75, -0.0009765625], 0, 5))
    single((1, 1), C([0.0009765625, 0.5], 0, 4), C([-0.0009765625, -0.0078125], 0, 4))
    single((1, 1), C([9, 8, 1], 9, 12), C([-1, -7], 9, 12))
    single((1, 2), C([9, 8], 9, 12), C([-1, -3], 17, 21))
    single((1, 2), C([3, 5, 9], 0, 4), C([-3, -2, -1], 0, 6))
    single((2, 1), C([3, 5, 9], 0, 5), C([-3, -2, -1], 0, 4))
    single((2, 3), C([4, 9], 0, 6), C([-3, -2, -1], 0, 7))
    single((1, 1, 1), C([5, 9], 0, 4), C([-3, -1], 0, 4), C([-2, -1], 0, 3))
    single((1, 0, 1), C([5, 9], 0, 4), C([-3, 8], 0, 2), C([-2, -1, 0], 0, 4))
    single((0, 1, 2), C([5, 9], 0, 2), C([5, 8], 0, 3), C([-2, -1, 0], 0, 5))
    for n in (25, 51, 69, 101, 130, 301, 1100):
        single((1, 1), C(range(1, n + 1), n, n, True), C(range(-n - 3, 0), n + 3, n + 3, True))
    single((1, 40), C([90, 91], 2, 3), C([-1], 80, 125))
    single((1,) * 26, C([90, 91], 2, 3), *[C([-1], 2, 4 if i == 20 else 2) for i in range(25)])
    F = dom.enumerable_tree_families(tier)
    F = [f for i, f in enumerate(F) if tier == "thorough" or len(f["cats"]) <= 3 or i % 4 == 0]
    out += [dict(f, kind="tree") for f in F]
    out += [dict(f, kind="tree auction") for f in F[:: 1 if tier == "thorough" else 4]]
    return out


def shards(tier):
    return dom.split(families(tier), 1200)


ODD = ["{}", "%s %d", "{0} {name}", "", "a: 3 potential deals", "No trade", "Übermittler – 中", "\\n", "'q' \"q\""]


def names_for(variant, n):
    return [ODD[i % len(ODD)] for i in range(n)] if variant.endswith("odd names") else ["x"] * n if variant.endswith("same name") else ["c%d" % i for i in range(n)]


def single_text(cats, recipe, prices, names):
    k = ref.deals_possible([len(c) for c in cats], recipe)
    if k == 0:
        return "No trade"
    lines = []
    for i, (c, r) in enumerate(zip(cats, recipe)):
        if r:
            who = "all %d agents" % len(c) if len(c) == r * k else "random %d out of %d agents" % (r * k, len(c))
            lines.append("%s: %s: %s trade and pay %s" % (names[i], list(c), who, prices[i]))
    return "\n".join(lines)


def tree_lines(struct, cats, counts, prices, integer, names):
    unit = "deals" if integer else "traders"
    def node(i, kids):
        """-> (deals, lines)"""
        own = len(cats[i]) // counts[i]
        if kids is None:
            return own, ["%s: %d potential deals, price=%s" % (names[i], own, prices[i])]
        parts = [node(kids[j], kids[j + 1]) for j in range(0, len(kids), 2)]
        below = sum(p[0] for p in parts)
        k = min(own, below)
        lines = [l for p in parts for l in p[1]]
        lines.append("%s: %s traders selected, price=%s" % (names[i], "all %d" % len(cats[i]) if k * counts[i] == len(cats[i]) else "%d out of %d" % (k * counts[i], len(cats[i])), prices[i]))
        lines.append("%s: %s %s selected" % (" + ".join(names[kids[j]] for j in range(0, len(kids), 2)), "all %d" % below if k == below else "%d out of %d" % (k, below), unit))
        return k, lines
    k, lines = node(struct[0], struct[1])
    return k, lines + ["%d deals overall" % k]


def tree_text(*args):
    k, lines = tree_lines(*args)
    return "\n".join(lines) if k else "No trade"


PRICES = {"direct": [2.5 - 2 * i for i in range(40)],
          "direct, integers": [7, -7, 0, 3] * 10,
          "direct, large": [98765.4375, -123456789.125, 1000.5, -1e-05] * 10}


def judge(kind, variant, recipe, struct, counts, cats):
    from mc import auct
    import ascending_auction_recipetree_protocol as P, ascending_auction_recipetree_integer_protocol as PI
    import recipetree, recipetree_integer, trade
    prices = PRICES.get(variant, PRICES["direct"])[:len(cats)]
    names = names_for(variant, len(cats))
    def build():
        from agents import AgentCategory
        from markets import Market
        return Market([AgentCategory(n, list(c)) for n, c in zip(names, cats)])
    def go():
        if kind == "single":
            if variant.startswith("direct"):
                m = build()
                t = trade.TradeWithSinglePrice(m.categories, list(recipe), prices)
            else:
                t = auct.play(variant, cats, recipe)
                if isinstance(t, engine.Raised):
                    return t.text
                t = t.trade
            want = single_text([c.values for c in t.categories], recipe, t.prices, names)
        else:
            integer = variant.startswith("integer-tree")
            if kind == "tree":
                m = build()
                mod, pro = (recipetree_integer, PI) if integer else (recipetree, P)
                t = pro.TradeWithMultipleRecipes(m.categories, mod.RecipeTree(m.categories, struct, list(counts)), prices)
            else:
                t = auct.play(variant, cats, struct, counts)
                if isinstance(t, engine.Raised):
                    return t.text
                t = t.trade
            want = tree_text(struct, [c.values for c in t.categories], counts, t.prices, integer, names)
        for got in (repr(t), str(t)):
            if got != want:
                return "the outcome is printed as\n%s\ninstead of\n%s" % (got, want)
        if (want == "No trade") != (t.num_of_deals() == 0):
            return "%d deals are printed as %s" % (t.num_of_deals(), want)
        return None
    r = engine.run(go)
    return r.text if isinstance(r, engine.Raised) else r


def variants(shard):
    if shard["kind"] == "single":
        r = shard["recipe"]
        return list(PRICES) + ["direct, odd names", "direct, same name", "ascending"] + (["external-competition"] if all(r) else []) + (["mcafee"] if set(r) == {1} else [])
    out = ["integer-tree"] + (["tree"] if all(c == 1 for c in shard["counts"]) else [])
    return out + ([v + w for v in out for w in (", odd names", ", same name")] if shard["kind"] == "tree" and shard["part"] == 0 else [])


def explore(shard, ctx):
    for cats in dom.profiles(shard["cats"], shard["part"], shard["parts"]):
        ctx.states += 1
        for v in variants(shard):
            ctx.transitions += 1
            ctx.traces += 1
            msg = judge(shard["kind"], v, shard.get("recipe"), shard.get("struct"), shard.get("counts"), cats)
            if msg:
                ctx.fail({"kind": shard["kind"], "variant": v, "recipe": shard.get("recipe"), "struct": shard.get("struct"), "counts": shard.get("counts"), "values": cats},
                         "%s %s, recipe %s, counts %s, participants %s: %s" % (shard["kind"], v, shard.get("recipe") or shard.get("struct"), shard.get("counts"), cats, msg))
        ctx.outcome((json.dumps(shard.get("struct")), tuple(map(len, cats))))
    ctx.sample({k: shard.get(k) for k in ("kind", "recipe", "struct", "counts")})


def replay(s, ctx):
    msg = judge(s["kind"], s["variant"], s["recipe"], s["struct"], s["counts"], tuple(tuple(c) for c in s["values"]))
    if msg:
        ctx.fail(s, msg)
