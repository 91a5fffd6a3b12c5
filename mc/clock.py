"""Explicit reference models of the auctions: plain lists, exact rational arithmetic, no code in common with /repo.
Each function returns (number of deals, prices, participants) or None when rounding in floating point decides the run."""
from fractions import Fraction as Fr
from . import ref

BIG = 100000000
TOL = Fr(1, 10**6)


def ascending(cats, recipe):
    """One clock per category.  The category with the most remaining traders per place in the recipe (the first such one)
    raises its price to its lowest remaining value, and that trader leaves; when the price-sum would reach zero, the
    price stops where the sum is zero.  -> (deals, prices, participants, number of clock steps)"""
    left = [list(c) for c in cats]
    price = [Fr(-BIG)] * len(cats)
    part = [i for i in range(len(cats)) if recipe[i] > 0]
    steps = 0
    while True:
        steps += 1
        best = part[0]
        for i in part:
            if len(left[i]) * recipe[best] > len(left[best]) * recipe[i]:
                best = i
        if not left[best]:
            return 0, None, [tuple(x) for x in left], steps
        rest = sum(recipe[i] * price[i] for i in part if i != best)
        target = Fr(left[best][-1])
        if rest + recipe[best] * target >= 0:
            price[best] = -rest / recipe[best]
            break
        price[best] = target
        left[best].pop()
    return ref.deals_possible([len(x) for x in left], recipe), price, [tuple(x) for x in left], steps


def external_competition(cats, recipe, with_zero=True):
    """Deals of the optimal trade in ascending order of their gain, preceded by the best deal of the remaining traders.
    Traders of a deal are examined category by category, lowest value first.  A trader with external competition (a deal
    of r_i copies of the best remaining traders of the other categories and r_c copies of the trader has a positive gain;
    or zero, if allowed) fixes all prices; the earlier ones join the remaining traders; all later ones trade."""
    n = len(cats)
    k, kz, _ = ref.optimum(cats, recipe)
    if k == 0:
        return 0, None, [() for _ in cats], 0
    total = min(len(c) // r for c, r in zip(cats, recipe) if r)
    deals = [[list(c[d * r:(d + 1) * r]) for c, r in zip(cats, recipe)] for d in range(min(k + 1, total))]
    deals.reverse()
    rest = [list(c[r * len(deals):]) for c, r in zip(cats, recipe)]
    for c in rest:
        if not c:
            c.append(-BIG)
    price = None
    traders = [[] for _ in cats]
    steps = 0
    for deal in deals:
        for c in range(n):
            for value in reversed(deal[c]):
                steps += 1
                if price is not None:
                    traders[c].append(value)
                    continue
                others = [max(x) for x in rest]
                gain = sum(Fr(others[i]) * recipe[i] for i in range(n) if i != c) + Fr(value) * recipe[c]
                if gain > 0 or (with_zero and gain == 0):
                    price = [Fr(x) for x in others]
                    price[c] = -sum(Fr(others[i]) * recipe[i] for i in range(n) if i != c) / recipe[c]
                    traders[c].append(value)
                else:
                    rest[c].append(value)
    traders = [sorted(t, reverse=True) for t in traders]
    if price is None:
        return 0, None, [tuple(t) for t in traders], steps
    # whoever strictly prefers to trade at the price takes part in the lottery
    for c in range(n):
        for value in cats[c][len(traders[c]):]:
            if recipe[c] and value > price[c]:
                traders[c].append(value)
    return ref.deals_possible([len(t) for t in traders], recipe), price, [tuple(t) for t in traders], steps


def double_auction(cats, heuristic):
    """One buyer and one seller per deal (values of sellers are not positive, in one of the two categories)."""
    k, kz, _ = ref.optimum(cats, (1, 1))
    if k == 0:
        return 0, None, [(), ()], 1
    last = [cats[0][k - 1], cats[1][k - 1]]
    nxt = [c[k] if len(c) > k else -BIG for c in cats]
    def seller(i):
        return last[i] < 0 or (last[i] == 0 and max(last) > 0)
    if heuristic:
        p = Fr(abs(Fr(nxt[0])) + abs(Fr(nxt[1]))) / 2
        if all((-p <= last[i]) if seller(i) else (p <= last[i]) for i in (0, 1)):
            return k, [-p if seller(i) else p for i in (0, 1)], [tuple(c[:k]) for c in cats], 1
    return k - 1, [Fr(x) for x in last], [tuple(c[:k - 1]) for c in cats], 1


def initial_prices(recipes):
    """All prices at the lower bound, except that the last category which is in one recipe only makes up for its length."""
    depth = [sum(r) for r in recipes]
    p = [Fr(-BIG)] * len(recipes[0])
    for i, r in enumerate(recipes):
        for j in reversed(range(len(r))):
            if r[j] and not any(o[j] for k, o in enumerate(recipes) if k != i):
                p[j] = Fr(-BIG) * (max(depth) - depth[i] + r[j]) / r[j]
                break
    return p


def tree_auction(struct, cats, counts, initial=None):
    """One clock per category of the tree.  A category raises its own price if it has more potential deals than all its
    children together (or if they have none); otherwise its children decide.  All chosen prices rise such that the
    price-sums of all recipes stay equal, until the first of them reaches the lowest remaining value of its category,
    whose traders at the price leave one at a time, or until the sums reach zero."""
    left = [list(c) for c in cats]
    recipes = ref.tree_recipes(struct, counts)
    price = [Fr(p) for p in initial] if initial else initial_prices(recipes)
    kids = {}
    def walk(s):
        for i in range(0, len(s), 2):
            kids[s[i]] = [] if s[i + 1] is None else [s[i + 1][j] for j in range(0, len(s[i + 1]), 2)]
            if s[i + 1] is not None:
                walk(s[i + 1])
    walk(struct)
    def chosen(i):
        below = sum(-(-len(left[j]) // counts[j]) for j in kids[i])
        if below == 0 or len(left[i]) > below * counts[i]:
            return [i]
        return [x for j in kids[i] for x in chosen(j)]
    steps = 0
    def dyadic(x):
        return x.denominator & (x.denominator - 1) == 0
    exact = all(dyadic(p) for p in price)       # as long as all prices were binary fractions, floating point has no error
    while True:
        steps += 1
        if not left[struct[0]]:
            return 0, None, [tuple(x) for x in left], steps
        up = chosen(struct[0])
        room = -sum(r * p for r, p in zip(recipes[0], price))
        need = [((Fr(left[i][-1]) - price[i]) * counts[i] if left[i] else None) for i in up]
        least = min(x for x in need if x is not None)
        if not exact and (abs(least - room) < TOL or sum(1 for x in need if x is not None and abs(x - least) < TOL) > 1):
            return None
        stop = least >= room
        for i in up:
            price[i] += (room if stop else least) / counts[i]
            exact = exact and dyadic(price[i]) and counts[i] & (counts[i] - 1) == 0
        if stop:
            break
        for i in up:
            if left[i] and left[i][-1] <= price[i]:
                left[i].pop()
    return ref.tree_max_deals(struct, counts, [len(x) for x in left]), price, [tuple(x) for x in left], steps
