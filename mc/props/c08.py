"""C08: efficiency of the recipe-tree auctions against the exact optimum by brute force.
In every market, ties included: at least k-L and at most k deals (k = deals of the largest optimal trade, L = number of
recipes of the tree), and at most the optimal gain from trade.  In markets in generic position (no two traders reach
the threshold at the same price) whose recipes use one trader per category: at least (1-L/k) of the optimal gain."""
from mc import dom, ref
from mc.audit import TreeAudit, Both

def efficient(auction, struct, counts, cats, out, opt, generic=False):
    k, best = opt[0], opt[1]
    eps = ref.EPS * max(1, abs(best))
    if out.deals > k:
        return "%d deals, but an optimal trade has at most %d" % (out.deals, k)
    gain = out.trade.gain_from_trade()
    if gain > best + eps:
        return "gain-from-trade %r is above the optimum %r" % (gain, best)
    L = len(ref.tree_paths(struct))
    if out.deals < k - L:
        return "%d deals, but the optimal trade has %d and the tree has %d recipes" % (out.deals, k, L)
    if generic and k > 0 and all(c == 1 for c in counts) and gain < best * (1 - L / k) - eps:
        return "gain-from-trade %r is below (1-%d/%d) of the optimum %r" % (gain, L, k, best)
    return None

def efficient_generic(*args):
    return efficient(*args, generic=True)

def families(tier):
    return dom.generic_tree_families(tier)[:: 2 if tier == "quick" else 1]

A = Both(TreeAudit(dom.enumerable_tree_families, efficient, need_optimum=True), TreeAudit(families, efficient_generic, need_optimum=True))
shards, explore, replay = A.shards, A.explore, A.replay
