"""C02: the recipe-tree auctions are strongly budget balanced on every recipe of the tree."""
from mc import dom, ref
from mc.audit import TreeAudit

EPS = 1e-5

def balance(auction, struct, counts, cats, out, opt):
    if out.deals == 0:
        return None
    for path in ref.tree_paths(struct):
        total = sum(out.prices[i] * counts[i] for i in path)
        if abs(total) > EPS:
            return "the payments in one deal of the recipe %s sum to %r, not 0" % (list(path), total)
    return None

A = TreeAudit(lambda t: dom.tree_families(t) + dom.tenths_tree_families(t), balance)
shards, explore, replay = A.shards, A.explore, A.replay
BOUNDS = "all ordered trees of 1-5 categories (selected trees of 6 and 7), 0-8 agents per category, small value grids; thorough: more agents and values, all trees of 6"
