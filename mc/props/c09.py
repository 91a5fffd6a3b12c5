"""C09: the participants are real, they are the highest of their category, and there are enough of them."""
from mc import dom, ref
from mc.audit import SingleAudit, TreeAudit, Both

def well_formed(cats, out, used):
    if not isinstance(out.deals, int) or out.deals < 0:
        return "the number of deals is %r" % (out.deals,)
    if len(out.traders) != len(cats):
        return "%d categories in the outcome, %d in the market" % (len(out.traders), len(cats))
    if out.names != ["c%d" % i for i in range(len(cats))]:
        return "the categories of the outcome are %s" % out.names
    if out.deals == 0:
        return None
    for i in used:
        if out.traders[i] != cats[i][:len(out.traders[i])]:
            return "the participants %s of category %d are not the highest of its traders %s" % (list(out.traders[i]), i, list(cats[i]))
    return None

def feasible(auction, recipe, cats, out, opt):
    msg = well_formed(cats, out, [i for i in range(len(recipe)) if recipe[i]])
    if msg or out.deals == 0:
        return msg
    for i, r in enumerate(recipe):
        if len(out.traders[i]) < r * out.deals:
            return "%d deals need %d traders of category %d but only %d participate" % (out.deals, r * out.deals, i, len(out.traders[i]))
    if not any(r and len(t) < (out.deals + 1) * r for r, t in zip(recipe, out.traders)):
        return "the participants suffice for more than the %d deals" % out.deals
    return None

def tree_feasible(auction, struct, counts, cats, out, opt):
    msg = well_formed(cats, out, ref.tree_nodes(struct))
    if msg or out.deals == 0:
        return msg
    most = ref.tree_max_deals(struct, counts, [len(t) for t in out.traders])
    if out.deals != most:
        return "%d deals are announced, but the participants suffice for at most %d" % (out.deals, most)
    return None

def mcafee_families(tier):
    from mc.props import c03
    return c03.families(tier)

A = Both(
    SingleAudit(lambda t: dom.single_families(t) + dom.zero_entry_families(t) + dom.tenths_families(t),
                lambda recipe: ["ascending", "external-competition", "external-competition/positive-only"], feasible),
    SingleAudit(mcafee_families, lambda recipe: ["mcafee", "mcafee/no-heuristic"], feasible),
    TreeAudit(lambda t: dom.tree_families(t) + dom.tenths_tree_families(t), tree_feasible))
shards, explore, replay = A.shards, A.explore, A.replay
