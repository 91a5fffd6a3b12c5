"""C14: auctions are functions of the market and the recipe only.  Every sequence of operations (run an auction, compute
an optimum, print, clone, change an earlier outcome, switch logging) up to the depth bound is executed on shared market
objects in one process; after every operation the markets, recipes and trees are unchanged, earlier outcomes are
unchanged, and the result is the one that a fresh process state gives."""
import itertools, logging, copy, os, pickle
from mc import engine

# (values, recipe, tree, counts) - the markets of one history share nothing, the operations of a history share the markets
WORLDS = [
    [(((9, 8, 7), (-1, -2, -3)), (1, 1), [0, [1, None]], [1, 1]),
     (((6, 5, 5, 2), (-4, -3)), (1, 1), [1, [0, None]], [1, 1])],
    [(((17, 14, 13, 9, 6), (-1, -2, -3, -4, -5, -7)), (1, 2), [0, [1, None]], [1, 2]),
     (((3, 3), (-4, -4)), (1, 1), [0, [1, None]], [2, 1])],
    [(((20, 18, 16), (-1, -3, -4), (-2, -2, -5)), (1, 1, 1), [0, [1, None, 2, None]], [1, 1, 1]),
     (((20, 18), (), (-2, -5)), (1, 0, 1), [0, [2, None]], [1, 1, 1])],
    [(((19, 18, 17), (-1, -2, -3, -4), (-5, -6, -7)), (1, 1, 1), [0, [1, None, 2, None]], [1, 2, 1]),
     (((8, 6, 4, 4), (-2, -1), (-1, -1, -3)), (2, 1, 1), [0, [1, [2, None]]], [2, 1, 1])],
]
EXTRA_WORLDS = [
    [(((27, 21, 17, 11), (-4, -5, -11), (-2, -3, -11), (-1, -2, -8)), (1, 1, 1, 1), [0, [1, None, 2, [3, None]]], [1, 1, 1, 1]),
     (((7, 7), (-7, -7)), (1, 1), [0, [1, None]], [1, 1])],
    # two markets that have nearly everything in common: sizes, names, recipes, totals, or the shape of the tree
    [(((20, 18, 15), (-3, -4), (-1, -2), (-2, -3)), (1, 1, 0, 0), [0, [1, None, 2, [3, None]]], [1, 1, 1, 1]),
     (((20, 18, 15), (-1, -2), (-3, -4), (-2, -3)), (1, 0, 1, 0), [0, [2, None, 1, [3, None]]], [1, 1, 1, 1])],
    [(((9, 8, 7), (-1, -2, -3)), (1, 1), [0, [1, None]], [1, 1]),
     (((9, 8, 4), (-1, -2, -6)), (1, 1), [0, [1, None]], [1, 1])],
    [(((19, 18, 17, 16), (-1, -2, -3, -4), (-5, -6, -7, -8)), (2, 1, 2), [0, [1, None, 2, None]], [2, 1, 2]),
     (((19, 18, 17, 16), (-1, -2, -3, -4), (-5, -6, -7, -8)), (1, 2, 2), [0, [1, None, 2, None]], [2, 2, 1])],
    [(((9, 8, 7), (-1, -2, -3), (-1, -2, -9)), (1, 1, 1), [0, [1, [2, None]]], [1, 1, 1]),
     (((-1, -2, -3), (9, 8, 7), (-1, -2, -9)), (1, 1, 1), [1, [0, [2, None]]], [1, 1, 1])],
    [(((9, 8), ()), (1, 1), [0, [1, None]], [1, 1]),
     (((3,), (-4,)), (1, 1), [0, [1, None]], [1, 1])],
    [(((2.5, 2), (0, -2.5)), (1, 1), [0, [1, None]], [1, 1]),
     (((0, 0, 0), (0, 0, 0)), (1, 1), [1, [0, None]], [1, 1])],
    # many traders, many categories
    [((tuple(range(80, 0, -1)), tuple(range(-1, -76, -1))), (1, 1), [0, [1, None]], [1, 1]),
     ((tuple(range(130, 29, -1)), tuple(range(-1, -121, -1))), (1, 2), [0, [1, None]], [1, 2])],
    [((tuple(range(1100, 50, -1)), tuple(range(-1, -1041, -1))), (1, 1), [0, [1, None]], [1, 1]),
     (((40, 30, 20),) + ((-1, -2, -4),) * 11, (1,) * 12, [0, [x for i in range(1, 12) for x in (i, None)]], [1] * 12)],
    [(((140, 120, 90, 80),) + tuple((-1, -2 - i, -9) for i in range(9)), (1,) * 10, [0, [1, None, 2, [3, [4, None, 5, None]], 6, [7, None], 8, None, 9, None]], [1] * 10),
     (((140, 120, 90, 80),) + tuple((-1, -2 - i, -9, -9) for i in range(9)), (1, 2) + (1,) * 8, [0, [1, None, 2, [3, [4, None, 5, None]], 6, [7, None], 8, None, 9, None]], [1, 1, 1, 2, 1, 1, 1, 1, 2, 2])],
]
EXTRA_WORLDS += [
    # all the traders of large categories take part in the optimal trade
    [(((90,) * 13, (-1,) * 13), (1, 1), [0, [1, None]], [1, 1]),
     (((90,) * 30, (-1,) * 60), (1, 2), [0, [1, None]], [1, 2])],
    [(((90,) * 60, (-1,) * 60, (-2,) * 60), (1, 1, 1), [0, [1, [2, None]]], [1, 1, 1]),
     (((90,) * 24, (-1,) * 12, (-2,) * 12), (2, 1, 1), [0, [1, None, 2, None]], [1, 1, 1])],
]
LOGGERS = ["ascending_auction_protocol", "trade_reduction_protocol", "mcafee_protocol", "prices", "prices_integer",
           "ascending_auction_recipetree_protocol", "ascending_auction_recipetree_integer_protocol", "recipetree", "recipetree_integer"]


def alphabet(world):
    ops = []
    for i, (cats, recipe, struct, counts) in enumerate(world):
        for a in ("TR", "TR0", "AS") + (("MC", "MCN") if all(r == 1 for r in recipe) else ()):
            if all(recipe) or a == "AS":
                ops.append((a, i))
        if all(c == 1 for c in counts):
            ops.append(("RT", i))
        ops += [("RI", i), ("OPT", i), ("TREE", i), ("STR", i), ("CLONE", i)]
    ops += [("SPOIL", None), ("LOG", None)]
    return ops


def shards(tier):
    out = []
    for world in WORLDS + EXTRA_WORLDS:
        expectations(world)        # before anything else is executed in this process; the workers inherit them
    worlds = WORLDS + EXTRA_WORLDS
    for w, world in enumerate(worlds):
        depth = (4 if w < 6 else 3) if tier == "thorough" else 3 if w < 9 else 2
        for first in alphabet(world):
            out.append({"world": w, "depth": depth, "first": list(first)})
    return out


class Optimum:
    """The optimal trade and the remaining market, with the interface of an outcome."""
    prices = None
    def __init__(self, trade, rest):
        self.trade, self.rest, self.categories = trade, rest, rest.categories
        self.num_of_deals = trade.num_of_deals
    def gain_from_trade(self):
        return self.trade.gain_from_trade()
    def __repr__(self):
        return "%s %s" % (tuple(map(tuple, self.trade.procurement_sets)), self.rest)


def perform(op, markets, world):
    """-> (comparable result, outcome object or None)"""
    from mc import auct
    name, i = op
    cats, recipe, struct, counts = world[i]
    m = markets[i]
    if name in ("TR", "TR0", "AS", "MC", "MCN"):
        o = getattr(auct, name)(m[0], m[1])
        return ("auction", o.num_of_deals(), tuple(o.prices or ()), tuple(tuple(c.values) for c in o.categories), o.gain_from_trade(), repr(o)), o
    if name in ("RT", "RI"):
        o = getattr(auct, name)(m[0], m[2], m[3])
        return ("auction", o.num_of_deals(), tuple(o.prices or ()), tuple(tuple(c.values) for c in o.categories), o.gain_from_trade(), repr(o)), o
    if name == "OPT":
        t, rest = m[0].optimal_trade(m[1])
        return ("opt", tuple(map(tuple, t.procurement_sets)), str(rest)), Optimum(t, rest)
    if name == "TREE":
        import recipetree, recipetree_integer
        r = ["tree"]
        for mod, q in [(recipetree_integer, m[3])] + ([(recipetree, None)] if all(x == 1 for x in m[3]) else []):
            t = mod.RecipeTree(m[0].categories, m[2], q)
            r += [repr(t.optimal_trade()), repr(t.optimal_trade_GFT()), repr(t.optimal_trade_with_counters()), t.num_of_deals(), repr(t.largest_categories(indices=True)), repr(t.paths_to_leaf()), repr(t.recipes())]
        return tuple(r), None
    if name == "STR":
        return ("str", str(m[0])), None
    if name == "CLONE":
        c = m[0].clone()
        r = ("clone", str(c))
        for cat in c.categories:            # changing the clone must not change the market
            cat.append(5)
            cat.remove_highest_agent()
            cat.remove_lowest_agent() if cat.size() else None
        return r, None


def fresh(world):
    from mc import auct
    return [(auct.market(cats), list(recipe), copy.deepcopy(struct), list(counts)) for cats, recipe, struct, counts in world]


def state(markets):
    from mc import auct
    return [(auct.snapshot(m[0]), m[0].num_categories, list(m[1]), repr(m[2]), list(m[3])) for m in markets]


def outcome_state(o):
    return (o.num_of_deals(), tuple(o.prices or ()), tuple(tuple(c.values) for c in o.categories), o.gain_from_trade(), repr(o))


def set_log(level):
    for n in LOGGERS + [n for n in list(logging.root.manager.loggerDict) if os.path.exists(os.path.join(engine.REPO, n + ".py")) and n not in LOGGERS]:
        logging.getLogger(n).setLevel(level)


def history(ops, world, expected, ctx=None):
    """Executes one history; returns a message if it shows a dependence on the history."""
    markets = fresh(world)
    before = state(markets)
    outcomes = []
    set_log(logging.WARNING)
    try:
        for step, op in enumerate(ops):
            name, i = op
            if ctx:
                ctx.transitions += 1
            if name == "LOG":
                set_log(logging.DEBUG)
                continue
            if name == "SPOIL":
                # the owner of the latest outcome does with it what he wants
                for o, _ in outcomes[-1:]:
                    for c in o.categories:
                        c.append(123456)
                    try:
                        for j in range(len(o.prices or ())):
                            o.prices[j] = 777
                    except TypeError:
                        pass
                outcomes = outcomes[:-1]
            else:
                r = engine.run(perform, op, markets, world)
                if isinstance(r, engine.Raised):
                    return "step %d, %s: %s" % (step + 1, op, r.text)
                result, o = r
                if result != expected[op]:
                    return "step %d, %s: the result is %s, but without the history it is %s" % (step + 1, op, result, expected[op])
                if o is not None:
                    outcomes.append((o, outcome_state(o)))
            if state(markets) != before:
                return "step %d, %s has changed the markets or recipes to %s" % (step + 1, op, state(markets))
            for o, s in outcomes:
                if outcome_state(o) != s:
                    return "step %d, %s has changed an earlier outcome from %s to %s" % (step + 1, op, s, outcome_state(o))
    finally:
        set_log(logging.WARNING)
    return None


_expected = {}

def expectations(world):
    """The result of every operation, each in a process of its own that has executed nothing before."""
    key = repr(world)
    if key not in _expected:
        exp = {}
        for op in alphabet(world):
            if op[1] is None:
                continue
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    x = engine.run(perform, op, fresh(world), world)
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(x.text if isinstance(x, engine.Raised) else x[0], f)
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            exp[op] = pickle.loads(data) if data else "no result"
        _expected[key] = exp
    return _expected[key]


def explore(shard, ctx):
    world = (WORLDS + EXTRA_WORLDS)[shard["world"]]
    exp = expectations(world)
    ops = alphabet(world)
    first = tuple(shard["first"])
    for rest in itertools.product(ops, repeat=shard["depth"] - 1):
        h = (first,) + rest
        ctx.states += 1
        msg = history(h, world, exp, ctx)
        ctx.traces += 1
        if msg:
            ctx.fail({"world": shard["world"], "history": h}, "markets %s, history %s: %s" % (world, list(h), msg))
    for v in exp.values():
        ctx.outcome(repr(v))
    ctx.sample({"world": repr(world), "history": repr(h)})


def replay(s, ctx):
    world = (WORLDS + EXTRA_WORLDS)[s["world"]]
    msg = history([tuple(o) for o in s["history"]], world, expectations(world))
    if msg:
        ctx.fail(s, msg)
