"""Shared enumeration drivers: every profile of every family x every auction, one predicate per property."""
from . import dom, ref, engine


class SingleAudit:
    """families: function(tier) -> family list; auctions: function(recipe) -> auction names;
       predicate(auction, recipe, cats, outcome, optimum) -> None or a message."""
    def __init__(self, families, auctions, predicate, target=2500, runner=None):
        self.families, self.auctions, self.predicate, self.target = families, auctions, predicate, target
        self.runner = runner

    def shards(self, tier):
        return dom.split(self.families(tier), self.target)

    def check(self, auction, recipe, cats, ctx, opt=None):
        from . import auct
        out = (self.runner or auct.play)(auction, cats, recipe)
        ctx.transitions += 1
        if isinstance(out, engine.Raised):
            msg = "the auction gives no result: " + out.text
        else:
            if opt is None:
                opt = ref.optimum(cats, recipe)
            ctx.traces += 1
            ctx.outcome((auction, out.deals, tuple(map(len, out.traders))))
            if out.deals:
                ctx.note("with trade")
            msg = self.predicate(auction, recipe, cats, out, opt)
            if not msg and out.deals and len(ctx.samples) < 2:
                ctx.sample({"auction": auction, "recipe": list(recipe), "values": [list(c) for c in cats], "outcome": repr(out)})
        if msg:
            ctx.fail({"kind": "single", "auction": auction, "recipe": list(recipe), "values": [list(c) for c in cats]},
                     "%s auction, recipe %s, values %s: %s\n  outcome: %s" % (auction, list(recipe), [list(c) for c in cats], msg, out))

    def explore(self, shard, ctx):
        recipe = tuple(shard["recipe"])
        auctions = self.auctions(recipe)
        for cats in dom.profiles(shard["cats"], shard["part"], shard["parts"]):
            ctx.states += 1
            opt = ref.optimum(cats, recipe)
            for a in auctions:
                self.check(a, recipe, cats, ctx, opt)

    def replay(self, scenario, ctx):
        self.check(scenario["auction"], tuple(scenario["recipe"]), tuple(tuple(c) for c in scenario["values"]), ctx)


class TreeAudit:
    """families(tier) -> list of {"struct", "counts", "cats"}; predicate(auction, struct, counts, cats, outcome, optimum)"""
    def __init__(self, families, predicate, target=600, need_optimum=False, auctions=None):
        self.families, self.predicate, self.target, self.need_optimum = families, predicate, target, need_optimum
        self.auctions = auctions or (lambda counts: ["tree", "integer-tree"] if all(c == 1 for c in counts) else ["integer-tree"])

    def shards(self, tier):
        return dom.split(self.families(tier), self.target)

    def check(self, auction, struct, counts, cats, ctx, opt=None):
        from . import auct
        if opt is None and self.need_optimum:
            opt = ref.tree_optimum(struct, cats, counts)
        out = auct.play(auction, cats, struct, counts)
        ctx.transitions += 1
        if isinstance(out, engine.Raised):
            msg = "the auction gives no result: " + out.text
        else:
            ctx.traces += 1
            ctx.outcome((auction, out.deals, tuple(map(len, out.traders))))
            if out.deals:
                ctx.note("with trade")
            msg = self.predicate(auction, struct, counts, cats, out, opt)
            if not msg and out.deals and len(ctx.samples) < 2:
                ctx.sample({"auction": auction, "tree": struct, "counts": list(counts), "values": [list(c) for c in cats], "outcome": repr(out)})
        if msg:
            ctx.fail({"kind": "tree", "auction": auction, "struct": struct, "counts": list(counts), "values": [list(c) for c in cats]},
                     "%s auction, tree %s, counts %s, values %s: %s\n  outcome: %s" % (auction, struct, list(counts), [list(c) for c in cats], msg, out))

    def explore(self, shard, ctx):
        struct, counts = shard["struct"], shard["counts"]
        auctions = self.auctions(counts)
        for cats in dom.profiles(shard["cats"], shard["part"], shard["parts"]):
            ctx.states += 1
            opt = ref.tree_optimum(struct, cats, counts) if self.need_optimum else None
            for a in auctions:
                self.check(a, struct, counts, cats, ctx, opt)

    def replay(self, scenario, ctx):
        self.check(scenario["auction"], scenario["struct"], tuple(scenario["counts"]), tuple(tuple(c) for c in scenario["values"]), ctx)


class Both:
    """Several audits under one property."""
    def __init__(self, *audits):
        self.audits = audits
    def shards(self, tier):
        out = []
        for i, a in enumerate(self.audits):
            for s in a.shards(tier):
                s = dict(s)
                s["audit"] = i
                out.append(s)
        return out
    def explore(self, shard, ctx):
        before = len(ctx.fails)
        try:
            self.audits[shard["audit"]].explore(shard, ctx)
        finally:
            for f in ctx.fails[before:]:
                f["scenario"]["audit"] = shard["audit"]
    def replay(self, scenario, ctx):
        self.audits[scenario["audit"]].replay(scenario, ctx)
