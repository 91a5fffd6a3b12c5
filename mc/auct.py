"""Access to the auctions of /repo through their public interface."""
from agents import AgentCategory
from markets import Market
import trade_reduction_protocol, ascending_auction_protocol, mcafee_protocol
import ascending_auction_recipetree_protocol, ascending_auction_recipetree_integer_protocol
from . import engine


def market(cats, names=None):
    return Market([AgentCategory(names[i] if names else "c%d" % i, list(c)) for i, c in enumerate(cats)])


def snapshot(m):
    return tuple((c.name, tuple(c.values)) for c in m.categories)


# single-recipe auctions: name -> function(market, recipe)
def TR(m, r):
    return trade_reduction_protocol.budget_balanced_trade_reduction(m, r)
def TR0(m, r):
    return trade_reduction_protocol.budget_balanced_trade_reduction(m, r, including_gft_0=False)
def AS(m, r):
    return ascending_auction_protocol.budget_balanced_ascending_auction(m, r)
def ASB(k):      # the optimum computed for comparison only is bounded to k deals
    return lambda m, r: ascending_auction_protocol.budget_balanced_ascending_auction(m, r, max_iterations=k)
def MC(m, r):
    return mcafee_protocol.mcafee_trade_reduction(m, r)
def MCN(m, r):
    return mcafee_protocol.mcafee_trade_reduction(m, r, price_heuristic=False)

SINGLE = {"external-competition": TR, "external-competition/positive-only": TR0, "ascending": AS,
          "mcafee": MC, "mcafee/no-heuristic": MCN}
BOUNDED = ["ascending/compared with at most %d deals" % k for k in (0, 1, 2)]
SINGLE.update(zip(BOUNDED, map(ASB, (0, 1, 2))))

# recipe-tree auctions: name -> function(market, struct, counts)
def RT(m, s, counts):
    return ascending_auction_recipetree_protocol.budget_balanced_ascending_auction(m, s)
def RI(m, s, counts):
    return ascending_auction_recipetree_integer_protocol.budget_balanced_ascending_auction(m, s, list(counts) if counts else None)

TREE = {"tree": RT, "integer-tree": RI}


class Outcome:
    """What an auction announced, as plain data."""
    __slots__ = ("deals", "prices", "traders", "trade", "names")
    def __init__(self, trade):
        self.trade = trade
        self.deals = trade.num_of_deals()
        self.prices = list(trade.prices) if trade.prices is not None else []
        self.traders = [tuple(c.values) for c in trade.categories]
        self.names = [c.name for c in trade.categories]
    def key(self):
        return (self.deals, tuple(self.prices), tuple(self.traders))
    def __repr__(self):
        return "%s deals, participants %s, prices %s" % (self.deals, self.traders, self.prices)


def play(name, cats, recipe_or_struct, counts=None):
    """-> Outcome or engine.Raised"""
    def go():
        m = market(cats)
        if name in SINGLE:
            return Outcome(SINGLE[name](m, list(recipe_or_struct)))
        return Outcome(TREE[name](m, recipe_or_struct, counts))
    return engine.run(go)
