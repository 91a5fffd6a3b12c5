"""C03: McAfee's auction never runs a deficit, and the surplus it reports is the sum of the payments."""
from mc import dom, ref
from mc.audit import SingleAudit

def surplus(auction, recipe, cats, out, opt):
    if out.deals == 0:
        total = 0
    else:
        total = sum(p * r for p, r in zip(out.prices, recipe) if r)
    if total < -ref.EPS:
        return "the payments in one deal sum to %r: the auctioneer pays" % total
    reported = out.trade.gain_from_trade(including_auctioneer=True) - out.trade.gain_from_trade(including_auctioneer=False)
    if abs(reported - total * out.deals) > ref.EPS * max(1, out.deals, abs(total)):
        return "the auctioneer receives %r for the %d deals but the two gains from trade differ by %r" % (total * out.deals, out.deals, reported)
    return None

def families(tier):
    R, C = range, dom.C
    F = [f for f in dom.single_families(tier) if set(f["recipe"]) == {1}]      # pairs, and longer recipes of ones
    def add(name, *cats):
        F.append({"family": name, "recipe": [1, 1], "cats": list(cats)})
    add("wide sellers first", C([-9, -7, -4, -2, -1], 0, 5), C([1, 3, 5, 8], 0, 5))
    add("nonnegative buyers, nonpositive sellers", C(R(0, 5), 0, 5), C(R(-4, 1), 0, 5))
    add("zero values", C([0, 1, 2], 0, 6), C([-2, -1, 0], 0, 6))
    add("fractions", C([0.5, 1.25, 2, 3.75], 0, 4), C([-3.5, -1.5, -0.25, 0], 0, 4))
    add("millions, all can trade", C([3 * 10**6, 2 * 10**6 + 1, 2 * 10**6], 0, 5), C([-10**6, -999999, -1], 0, 5))
    add("large", C([9 * 10**7, 5 * 10**7, 10**7], 0, 4), C([-8 * 10**7, -4 * 10**7, -1], 0, 4))
    return F

A = SingleAudit(families, lambda recipe: ["mcafee", "mcafee/no-heuristic"], surplus)
shards, explore, replay = A.shards, A.explore, A.replay
