"""C07: the single-recipe auctions lose at most one deal, and at most 1/k of the optimal gain."""
from mc import dom, ref
from mc.audit import SingleAudit, Both

def efficient(auction, recipe, cats, out, opt):
    k, kz, best = opt
    if auction.endswith("positive-only"):
        k = kz if out.deals < kz else k      # the losses are relative to the deals with positive gain only
        low = kz
    else:
        low = k
    if out.deals > opt[0]:
        return "%d deals, but an optimal trade has at most %d" % (out.deals, opt[0])
    if out.deals < low - 1:
        return "%d deals, but the optimal trade has %d" % (out.deals, low)
    gain = out.trade.gain_from_trade()
    eps = ref.EPS * max(1, abs(best))
    if gain > best + eps:
        return "gain-from-trade %r is above the optimum %r" % (gain, best)
    if low > 0 and gain < best * (1 - 1 / low) - eps:
        return "gain-from-trade %r is below (1-1/%d) of the optimum %r" % (gain, low, best)
    return None

def mcafee_families(tier):
    from mc.props import c03
    return c03.families(tier)

A = Both(
    SingleAudit(lambda t: dom.single_families(t) + dom.zero_entry_families(t),
                lambda recipe: ["ascending", "external-competition", "external-competition/positive-only"], efficient),
    SingleAudit(mcafee_families, lambda recipe: ["mcafee", "mcafee/no-heuristic"], efficient))
shards, explore, replay = A.shards, A.explore, A.replay
