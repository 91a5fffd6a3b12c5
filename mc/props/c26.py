"""C26: the unit of money and the zero point do not matter in the single-recipe auctions.  For every market in the bounds,
multiplying all values by a power of two multiplies the prices and changes nothing else; adding an amount s_i to all
values of category i with sum r_i*s_i = 0 adds s_i to the prices and changes nothing else (not in the double auction,
which distinguishes buyers and sellers by sign); adding a category outside the recipe,
anywhere, changes nothing."""
from mc import dom, engine
from mc.dom import C, R


def families(tier):
    F = [f for f in dom.single_families(tier) if not any(w in f["family"] for w in ("large", "millions", "nearer", "decimal"))]
    return F if tier == "thorough" else [f for f in F if dom.size(f["cats"]) <= 6500]


def shards(tier):
    F = families(tier)
    return dom.split(F, 700)


def shifts(recipe):
    """vectors s with sum r_i*s_i = 0"""
    n = len(recipe)
    out = []
    for i in range(n - 1):
        s = [0] * n
        s[i], s[i + 1] = recipe[i + 1], -recipe[i]
        out.append(s)
    s = [0] * n
    s[0], s[-1] = -3 * recipe[-1], 3 * recipe[0]
    return out + [s]


def move(cats, factor, shift):
    return tuple(tuple(v * factor + s for v in c) for c, s in zip(cats, shift))


def judge(name, recipe, cats, base, factor, shift, extra=None):
    """extra: position and values of an added category outside the recipe"""
    from mc import auct
    other = move(cats, factor, shift)
    r2, want_traders, want_prices = list(recipe), [move([t], factor, [s])[0] for t, s in zip(base.traders, shift)], [p * factor + s for p, s in zip(base.prices, shift)]
    if extra:
        pos, values = extra
        other = other[:pos] + (values,) + other[pos:]
        r2.insert(pos, 0)
    got = auct.play(name, other, r2)
    if isinstance(got, engine.Raised):
        return "the market %s gives %s" % (other, got)
    traders, prices = list(got.traders), list(got.prices)
    if extra and got.deals:
        del traders[pos], prices[pos]
    if got.deals != base.deals or (got.deals and (traders != want_traders or any(abs(p - q) > 1e-6 * max(1, abs(q)) for p, q in zip(prices, want_prices)))):
        return "the market %s with recipe %s gives %s, but participants %s and prices %s are expected from %s" % (other, r2, got, want_traders, want_prices, base)
    return None


def transformations(name, recipe):
    n = len(recipe)
    out = [(f, [0] * n, None) for f in (2, 0.25, 2.0**-10, 2**19)]
    if not name.startswith("mcafee"):
        out += [(1, s, None) for s in shifts(recipe)] + [(2, shifts(recipe)[0], None)]
    if not name.startswith("mcafee"):
        for pos in range(n + 1):
            for values in ((), (50, -60)) if pos in (0, n) or name == "ascending" else ((9,),):
                out.append((1, [0] * n, (pos, values)))
    return out


def check(recipe, cats, ctx, only=None):
    from mc import auct
    names = ["external-competition", "external-competition/positive-only", "ascending"] + (["mcafee", "mcafee/no-heuristic"] if recipe == (1, 1) else [])
    for name in names:
        base = auct.play(name, cats, recipe)
        if isinstance(base, engine.Raised):
            ctx.fail({"recipe": recipe, "values": cats}, "%s: %s" % (name, base))
            continue
        ctx.outcome((name, base.deals, tuple(map(len, base.traders))))
        largest = max((abs(v) for c in cats for v in c), default=0)
        for factor, shift, extra in transformations(name, recipe):
            if factor * largest > 5 * 10**7:        # the price clocks start at -10**8
                continue
            ctx.transitions += 1
            ctx.traces += 1
            msg = judge(name, recipe, cats, base, factor, shift, extra)
            if msg:
                ctx.fail({"recipe": recipe, "values": cats}, "%s auction, recipe %s, values %s: %s" % (name, recipe, cats, msg))


def explore(shard, ctx):
    recipe = tuple(shard["recipe"])
    for i, cats in enumerate(dom.profiles(shard["cats"], shard["part"], shard["parts"])):
        ctx.states += 1
        check(recipe, cats, ctx)
    ctx.sample({"recipe": recipe, "values": cats, "shifts": shifts(recipe)})


def replay(s, ctx):
    check(tuple(s["recipe"]), tuple(tuple(c) for c in s["values"]), ctx)
