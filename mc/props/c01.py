"""C01: the single-recipe budget-balanced auctions are strongly budget balanced."""
from mc import dom, ref
from mc.audit import SingleAudit, Both

def balance(auction, recipe, cats, out, opt):
    if out.deals == 0:
        return None
    total = sum(p * r for p, r in zip(out.prices, recipe) if r)
    if abs(total) > ref.EPS:
        return "the payments in one deal sum to %r, not 0" % total
    surplus = out.trade.gain_from_trade(including_auctioneer=True) - out.trade.gain_from_trade(including_auctioneer=False)
    if abs(surplus) > ref.EPS * max(1, out.deals):
        return "the auctioneer is left with %r" % surplus
    return None

def bounded(recipe):
    from mc import auct
    return auct.BOUNDED

A = Both(
    SingleAudit(lambda t: dom.single_families(t) + dom.zero_entry_families(t) + dom.tenths_families(t),
                lambda recipe: ["ascending", "external-competition", "external-competition/positive-only"], balance),
    SingleAudit(lambda t: dom.compact(dom.single_families(t) + dom.zero_entry_families(t) + dom.tenths_families(t)), bounded, balance))
shards, explore, replay = A.shards, A.explore, A.replay
