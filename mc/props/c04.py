"""C04: no auction makes a participant pay more than the reported value (individual rationality)."""
from mc import dom, ref
from mc.audit import SingleAudit, TreeAudit, Both

def rational(auction, recipe, cats, out, opt, eps=ref.EPS):
    if out.deals == 0:
        return None
    for i, (values, price) in enumerate(zip(out.traders, out.prices)):
        if recipe[i] and values and min(values) < price - eps:
            return "a participant of category %d with value %r pays %r" % (i, min(values), price)
    return None

def tree_rational(auction, struct, counts, cats, out, opt):
    used = set(ref.tree_nodes(struct))
    return rational(auction, [counts[i] if i in used else 0 for i in range(len(counts))], cats, out, opt, 1e-5)

def mcafee_families(tier):
    from mc.props import c03
    return c03.families(tier)

def bounded(recipe):
    from mc import auct
    return auct.BOUNDED

A = Both(
    SingleAudit(lambda t: dom.compact(dom.single_families(t) + dom.zero_entry_families(t) + dom.tenths_families(t)), bounded, rational),
    SingleAudit(lambda t: dom.single_families(t) + dom.zero_entry_families(t) + dom.tenths_families(t),
                lambda recipe: ["ascending", "external-competition", "external-competition/positive-only"], rational),
    SingleAudit(mcafee_families, lambda recipe: ["mcafee", "mcafee/no-heuristic"], rational),
    TreeAudit(lambda t: dom.tree_families(t) + dom.tenths_tree_families(t), tree_rational))
shards, explore, replay = A.shards, A.explore, A.replay
