"""C24: the external-competition auctions and the double auction follow their published protocols step by step: for every market in the bounds the
outcome of the code is the one of an explicit-state reference model of the protocol (mc/clock.py) in exact arithmetic."""
from mc import dom, engine, clock


def families(tier):
    F = dom.single_families(tier) + dom.tiny_families(tier)
    return [dict(f, zero=False) for f in F] + [dict(f, zero=True) for f in dom.zero_entry_families(tier)]


def shards(tier):
    return dom.split(families(tier), 2500)


def models(recipe, zero):
    out = [("external-competition", lambda c: clock.external_competition(c, recipe)),
           ("external-competition/positive-only", lambda c: clock.external_competition(c, recipe, False))]
    if recipe == (1, 1):
        out += [("mcafee", lambda c: clock.double_auction(c, True)), ("mcafee/no-heuristic", lambda c: clock.double_auction(c, False))]
    return out


def differs(got, want, recipe):
    deals, price, traders, _ = want
    if isinstance(got, engine.Raised):
        return True
    if got.deals != deals:
        return True
    if deals == 0:
        return False
    return [tuple(t) for t in got.traders] != traders or any(abs(float(p) - q) > 1e-6 * max(1, abs(float(p))) for p, q, r in zip(price, got.prices, recipe) if r)       # a category outside the recipe has no price


def check(shard, cats, ctx, wanted=None):
    from mc import auct
    recipe = tuple(shard["recipe"])
    for name, model in models(recipe, shard["zero"]):
        if wanted and name != wanted:
            continue
        want = model(cats)
        got = auct.play(name, cats, recipe)
        ctx.transitions += want[3]
        ctx.traces += 1
        ctx.outcome((name, want[0], tuple(map(len, want[2]))))
        if differs(got, want, recipe):
            ctx.fail({"recipe": list(recipe), "zero": shard["zero"], "values": cats, "auction": name},
                     "%s auction, recipe %s, values %s: the outcome is %s, but the protocol gives %d deals, participants %s, prices %s" % (
                         name, list(recipe), cats, got, want[0], want[2], want[1] and [float(p) for p in want[1]]))


def explore(shard, ctx):
    for cats in dom.profiles(shard["cats"], shard["part"], shard["parts"]):
        ctx.states += 1
        check(shard, cats, ctx)
    ctx.sample({"recipe": shard["recipe"], "values": cats})


def replay(s, ctx):
    check(s, tuple(tuple(c) for c in s["values"]), ctx, s["auction"])
