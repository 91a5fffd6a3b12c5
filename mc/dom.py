"""
Bounded domains.  A "profile" is a tuple with one tuple of values per category; every tuple is in descending order.
Profiles are multisets, because the market keeps only a sorted list of values; the order in which agents are
listed is explored separately (property C15).
"""
import itertools


def multisets(grid, lo, hi):
    """All multisets over the grid with lo..hi elements, as descending tuples; smallest first."""
    g = sorted(grid, reverse=True)
    for n in range(lo, hi + 1):
        yield from itertools.combinations_with_replacement(g, n)


def subsets(grid, lo, hi):
    """All sets over the grid with lo..hi elements, as descending tuples; smallest first."""
    g = sorted(grid, reverse=True)
    for n in range(lo, hi + 1):
        yield from itertools.combinations(g, n)


def expand(spec):
    """spec = {"grid": [...], "lo":, "hi":, "distinct": bool} -> list of value tuples"""
    f = subsets if spec.get("distinct") else multisets
    return list(f(spec["grid"], spec["lo"], spec["hi"]))


def count(spec):
    return len(expand(spec))


def profiles(cats, part=0, parts=1):
    """All profiles of the product domain; part/parts selects every parts-th tuple of the first non-trivial category."""
    lists = [expand(c) for c in cats]
    big = max(range(len(lists)), key=lambda i: len(lists[i]))
    lists[big] = lists[big][part::parts]
    return itertools.product(*lists)


def size(cats):
    n = 1
    for c in cats:
        n *= count(c)
    return n


def C(grid, lo, hi, distinct=False):
    return {"grid": list(grid), "lo": lo, "hi": hi, "distinct": distinct}


def split(families, target):
    """families: list of dicts with "cats"; returns shards with part/parts such that each has ~target profiles."""
    out = []
    for f in families:
        n = size(f["cats"])
        biggest = max(count(c) for c in f["cats"])
        parts = max(1, min(biggest, round(n / target)))
        for p in range(parts):
            g = dict(f)
            g["part"], g["parts"] = p, parts
            out.append(g)
    return out


R = range
# --- the single-recipe market families -------------------------------------------------------------------
R = range

def single_families(tier):
    """(recipe, category domains).  Buyers/sellers of every sign, sizes from empty, integral recipes, zero entries."""
    th = tier == "thorough"
    F = []
    def add(name, recipe, *cats):
        F.append({"family": name, "recipe": list(recipe), "cats": list(cats)})
    add("1-1 sellers negative", (1, 1), C(R(1, 6), 0, 4), C(R(-5, 0), 0, 4))
    add("1-1 sellers first", (1, 1), C(R(-4, 0), 0, 4), C(R(1, 5), 0, 4))
    add("1-1 any sign", (1, 1), C(R(-2, 3), 0, 4), C(R(-2, 3), 0, 4))
    add("1-1 distinct", (1, 1), C(R(1, 8), 0, 7, True), C(R(-7, 0), 0, 7, True))
    add("1-1 many agents", (1, 1), C([2, 3, 5], 5, 8), C([-1, -3, -4], 5, 8))
    add("1-1 halves", (1, 1), C([0.5, 1.25, 2, 2.5], 0, 4), C([-2.25, -1.5, -0.5, 0], 0, 4))
    add("1-1-1", (1, 1, 1), C([2, 3, 4, 5, 7], 0, 3), C([-3, -2, -1], 0, 3), C([-4, -2, -1], 0, 3))
    add("1-1-1 any sign", (1, 1, 1), C([-1, 0, 2], 0, 3), C([-1, 0, 2], 0, 3), C([-2, 0, 1], 0, 3))
    add("1-1-1 long", (1, 1, 1), C([4, 6, 9], 3, 5), C([-3, -1], 2, 6), C([-4, -2], 2, 6))
    add("1-1-1-1", (1, 1, 1, 1), C([4, 7, 9], 0, 2), C([-2, -1], 0, 3), C([-3, -1], 0, 3), C([-4, -2], 0, 2))
    add("1-1-1-1 buyers last", (1, 1, 1, 1), C([-2, -1], 2, 3), C([-3, 1], 2, 3), C([-4, -1], 1, 3), C([4, 6, 9], 2, 4))
    add("1-2", (1, 2), C([1, 2, 4, 5, 7], 0, 3), C([-4, -3, -2, -1], 0, 5))
    add("1-2 many", (1, 2), C([3, 6, 9], 3, 4), C([-4, -2, -1], 6, 9))
    add("2-1", (2, 1), C([1, 2, 3, 5], 0, 5), C([-7, -5, -3, -2, -1], 0, 3))
    add("2-1 sellers first", (2, 1), C([-3, -2, -1], 2, 7), C([2, 4, 5, 9], 1, 3))
    add("2-2", (2, 2), C([1, 2, 4], 0, 6), C([-3, -2, -1], 0, 6))
    add("1-3", (1, 3), C([3, 5, 8, 9], 0, 3), C([-4, -2, -1], 0, 8))
    add("3-1", (3, 1), C([1, 2, 4], 0, 8), C([-8, -5, -4, -1], 0, 3))
    add("2-3", (2, 3), C([3, 4, 6], 2, 6), C([-4, -2, -1], 3, 8))
    add("3-2", (3, 2), C([1, 2, 4], 3, 8), C([-6, -3, -2], 2, 6))
    add("1-2-1", (1, 2, 1), C([5, 8, 9], 0, 3), C([-2, -1, 1], 0, 5), C([-3, -1], 0, 3))
    add("2-1-1", (2, 1, 1), C([2, 4, 5], 2, 6), C([-3, -1], 1, 3), C([-4, -2], 1, 3))
    add("1-1-2", (1, 1, 2), C([5, 8, 9], 1, 3), C([-3, -1], 1, 3), C([-2, -1], 2, 6))
    add("2-2-1", (2, 2, 1), C([2, 4], 3, 6), C([-2, -1], 3, 6), C([-5, -3, 1], 1, 3))
    add("3-3", (3, 3), C([1, 2, 4], 3, 7), C([-3, -2, -1], 3, 7))
    add("4-2", (4, 2), C([1, 3], 4, 12), C([-6, -3, -2, -1], 2, 6))
    add("2-2-3", (2, 2, 3), C([6, 8], 2, 5), C([-2, -1], 2, 5), C([-3, -2, -1], 3, 7))
    add("1-2-1 mixed", (1, 2, 1), C([-1, 2, 3], 0, 3), C([-2, 0, 1], 0, 5), C([-2, 1], 0, 2))
    add("5-1", (5, 1), C([1, 2], 4, 15), C([-8, -6, -5, -3], 1, 3))
    add("1-1 large values", (1, 1), C([10**6, 10**6 + 1, 3 * 10**6], 0, 3), C([-3 * 10**6, -10**6, -999999], 0, 3))
    # values that differ by little, and small units of money (exact binary fractions)
    e = 1 / 256
    add("1-1 near", (1, 1), C([3, 3 + e, 4, 4 + e], 0, 3), C([-4, -3 - e, -3, -2], 0, 3))
    add("1-2 near", (1, 2), C([4, 4 + e, 6 - e], 0, 2), C([-3, -2 - e, -2, -1], 0, 4))
    add("2-1 near", (2, 1), C([1, 2, 2 + e, 3], 0, 4), C([-5, -4 - e, -4, -3 + e], 0, 2))
    add("1-1-1 near", (1, 1, 1), C([4, 5 + e, 5], 0, 2), C([-3, -2], 0, 2), C([-3, -2 - e, -2], 0, 2))
    add("1-1 cents", (1, 1), C([1 / 1024, 2 / 1024, 3 / 1024, 5 / 1024], 0, 3), C([-4 / 1024, -3 / 1024, -2 / 1024, 0], 0, 3))
    add("1-2 cents", (1, 2), C([3 / 1024, 5 / 1024], 0, 3), C([-3 / 1024, -2 / 1024, -1 / 1024], 0, 5))
    t = 2.0 ** -20      # about a millionth; all sums are still exact
    add("1-1 nearer", (1, 1), C([3, 3 + t, 4], 0, 3), C([-4, -3 - t, -3, -3 + t], 0, 3))
    add("1-2 nearer", (1, 2), C([4, 4 + t, 6 - t], 1, 3), C([-3, -2 - t, -2], 1, 5))
    add("2-1 nearer", (2, 1), C([1, 2, 2 + t], 1, 4), C([-5, -4 - t, -4 + t], 1, 3))
    add("1-1-1 nearer", (1, 1, 1), C([5, 5 + t], 1, 3), C([-3, -3 - t, -2], 1, 3), C([-2 - t, -2 + t], 1, 2))
    # many traders
    add("1-1 wide", (1, 1), C([2, 5], 13, 13), C([-4, -1], 12, 12))
    add("1-1 wider", (1, 1), C([2, 5], 33, 33), C([-4, -1], 33, 33))
    add("1-2 wide", (1, 2), C([3, 9], 12, 12), C([-4, -1], 25, 25))
    add("3-1 wide", (3, 1), C([1, 3], 31, 31), C([-8, -2], 11, 11))
    add("1-1-1 wide", (1, 1, 1), C([3, 9], 10, 10), C([-4, -1], 11, 11), C([-4, -1], 10, 10))
    add("7-5", (7, 5), C([1, 3], 29, 29), C([-4, -1], 21, 21))
    add("1-1 crowd", (1, 1), C([3], 110, 111), C([-4, -1], 112, 112))
    add("1-1 tens of millions", (1, 1), C([10**7, 10**7 + 1, 3 * 10**7], 0, 3), C([-3 * 10**7, -10**7, -9999999], 0, 3))
    M = 10**6
    add("1-1 millions", (1, 1), C([M * x for x in (1, 3, 6, 8, 9)], 0, 3), C([-M * x for x in (1, 2, 4, 7, 9)], 0, 3))
    add("1-2 millions", (1, 2), C([M * x for x in (3, 5, 9)], 1, 3), C([-M * x for x in (1, 2, 4, 9)], 2, 4))
    # larger recipes, more categories, many different values
    add("1-4", (1, 4), C([5, 9, 13], 1, 3), C([-3, -2, -1], 4, 9))
    add("4-1", (4, 1), C([1, 2, 3], 4, 9), C([-11, -7, -5], 1, 3))
    add("1-8", (1, 8), C([9, 17], 2, 3), C([-2, -1], 16, 25))
    add("1-16", (1, 16), C([33, 40], 2, 2), C([-2, -1], 31, 33))
    add("6-4", (6, 4), C([1, 3], 11, 13), C([-4, -2, -1], 7, 9))
    add("12-1", (12, 1), C([1, 2], 23, 25), C([-20, -13], 2, 3))
    add("1-2-3", (1, 2, 3), C([12, 16], 1, 3), C([-2, -1], 2, 5), C([-3, -1], 3, 8))
    add("2-2-2", (2, 2, 2), C([5, 7], 3, 5), C([-3, -1], 3, 5), C([-2, -1], 3, 5))
    add("1-2-3-4", (1, 2, 3, 4), C([18, 25], 2, 3), C([-2, -1], 3, 5), C([-3, -1], 6, 7), C([-2], 7, 9))
    add("3-1-2", (3, 1, 2), C([4, 6], 5, 7), C([-5, -3], 2, 3), C([-3, -2, -1], 3, 5))
    add("1-1-1-1-1", (1, 1, 1, 1, 1), C([6, 9, 12], 2, 3), C([-2, -1], 1, 3), C([-3, -1], 1, 2), C([-2, -1], 2, 2), C([-3, -2], 1, 2))
    add("six ones", (1,) * 6, C([8, 13], 2, 3), *[C([-2 - i % 3, -1], 1 + i % 2, 2) for i in range(4)], C([-1], 2, 2))
    add("nine ones", (1,) * 9, C([13, 19], 2, 3), *[C([-2 - i % 3, -1], 1 + i % 2, 2) if i < 4 else C([-1], 2, 2) for i in range(8)])
    add("seventeen ones", (1,) * 17, C([20, 33], 2, 3), *[C([-1], 2, 2)] * 14, C([-2, -1], 1, 2), C([-2, -1], 2, 3))
    add("twenty ones, buyers last", (1,) * 20, C([-3, -1], 2, 3), *[C([-1], 2, 2)] * 17, C([-2, -1], 1, 2), C([24, 33], 2, 3))
    add("10-2-3-4", (10, 2, 3, 4), C([3, 4], 20, 20), C([-4], 4, 4), C([-2, -1], 6, 7), C([-2], 7, 9))
    add("14-1", (14, 1), C([-6, -3, -1], 29, 29), C([40, 67], 2, 2))
    add("1-14", (1, 14), C([43, 67], 2, 2), C([-6, -3, -2], 30, 30))
    add("buyers in the middle", (1, 2, 1, 1), C([-3, -2], 1, 2), C([5, 6, 8], 3, 5), C([-4, -2], 2, 3), C([-2, -1], 2, 2))
    add("two kinds of buyers", (1, 1, 1), C([2, 3, 5], 1, 3), C([1, 4], 2, 3), C([-7, -6, -4, -2], 1, 3))
    add("1-1 long and distinct", (1, 1), C(R(10, 30), 18, 19, True), C(R(-27, -10), 16, 16, True))
    add("1-2 long and distinct", (1, 2), C(R(21, 37), 15, 16, True), C(R(-30, -10), 19, 20, True))
    add("1-1 hundreds", (1, 1), C(R(1, 300), 299, 299, True), C(R(-280, 0), 279, 279, True))
    add("1-1-1 hundreds", (1, 1, 1), C(R(100, 221), 121, 121, True), C(R(-130, 0), 129, 130, True), C(R(-125, 0), 125, 125, True))
    add("2-3 hundreds", (2, 3), C(R(50, 251), 201, 201, True), C(R(-299, 0), 299, 299, True))
    # thousands of traders
    add("1-1 thousands", (1, 1), C(R(601, 1901), 1299, 1300, True) if th else C(R(601, 1901), 1300, 1300, True), C(R(-1300, 0), 1300, 1300, True))
    add("1-1 thousands alike", (1, 1), C([5], 2100, 2100), C([-4], 2099, 2101))
    add("1-2 thousands", (1, 2), C(R(1500, 2601), 1101, 1101, True), C(R(-2400, 0), 2400, 2400, True))
    add("1-1-1 thousands", (1, 1, 1), C(R(1500, 2601), 1101, 1101, True), C(R(-1200, 0), 1200, 1200, True), C(R(-1100, 0), 1100, 1100, True))
    # large recipes whose numbers of potential deals differ in the third digit
    add("171-160", (171, 160), C([100], 171, 173), C([-1], 160, 162))
    add("30-31-29", (30, 31, 29), C([9], 30, 31), C([-3, -1], 32, 32), C([-2], 29, 30))
    add("30-31-29 twice", (30, 31, 29), C([9, 8], 61, 61), C([-3], 62, 63), C([-2], 58, 59))
    # prices as on a stock exchange: decimal fractions that are not exact in binary, without deals of gain zero
    add("1-1 decimal", (1, 1), C([52.72, 44.8, 33.37, 12.31, 2.05], 0, 4), C([-0.1523, -3.1406, -11.3, -33.36], 0, 4))
    add("1-2 decimal", (1, 2), C([52.72, 44.8, 33.37, 6.31], 0, 3), C([-0.1523, -3.1406, -11.3, -22.39], 0, 5))
    add("2-1 decimal", (2, 1), C([52.72, 33.37, 6.31, 0.17], 0, 4), C([-0.1523, -11.2, -66.71], 0, 3))
    add("1-4 decimal", (1, 4), C([52.72, 44.8, 33.37], 1, 3), C([-0.1523, -2.6875, -11.3], 3, 9))
    add("3-2 decimal", (3, 2), C([0.1, 0.7, 3.3], 3, 6), C([-0.11, -0.96, -4.9], 2, 5))
    add("1-1-1 decimal", (1, 1, 1), C([52.72, 33.37, 6.31], 0, 3), C([-0.1523, -3.1406, -21.9], 0, 3), C([-0.31, -2.6875, -30.7], 0, 3))
    add("2-1-3 decimal", (2, 1, 3), C([9.99, 7.1], 2, 5), C([-0.33, -4.1], 1, 3), C([-1.13, -2.17, -3.71], 3, 7))
    if th:
        add("T 1-1 near", (1, 1), C([3, 3 + e, 4, 4 + e, 5], 0, 4), C([-4, -3 - e, -3, -3 + e, -2], 0, 4))
        add("T 1-2 wide", (1, 2), C([3, 6, 9], 12, 12), C([-4, -1], 25, 25))
        add("T 1-1 wide", (1, 1), C([2, 3, 5], 13, 13), C([-4, -2, -1], 12, 12))
        add("T 1-1 crowd", (1, 1), C([2, 5], 150, 150), C([-4, -1], 151, 151))
        add("T 1-1 fine", (1, 1), C(R(1, 8), 0, 5), C(R(-7, 0), 0, 4))
        add("T 1-1 any sign", (1, 1), C(R(-3, 4), 0, 4), C(R(-3, 4), 0, 5))
        add("T 1-1-1", (1, 1, 1), C(R(1, 9), 0, 3), C(R(-4, 0), 0, 3), C(R(-4, 0), 0, 3))
        add("T 1-1-1-1", (1, 1, 1, 1), C([3, 5, 7, 9], 1, 3), C([-3, -2, -1], 1, 2), C([-3, -2, -1], 1, 2), C([-4, -2, -1], 1, 2))
        add("T 1-2", (1, 2), C(R(1, 10), 0, 3), C(R(-5, 0), 0, 6))
        add("T 2-1", (2, 1), C(R(1, 6), 0, 6), C(R(-9, 0), 0, 3))
        add("T 2-3", (2, 3), C([2, 3, 4, 6], 2, 6), C([-4, -3, -2, -1], 3, 8))
        add("T 3-2", (3, 2), C([1, 2, 3, 4], 3, 8), C([-6, -4, -3, -1], 2, 6))
        add("T 2-2", (2, 2), C(R(1, 6), 2, 6), C(R(-5, 0), 2, 6))
        add("T 1-2-1", (1, 2, 1), C([4, 6, 8, 9], 1, 3), C([-3, -2, -1], 2, 6), C([-3, -2, -1], 1, 3))
        add("T 2-1-1", (2, 1, 1), C([2, 3, 5, 6], 2, 6), C([-3, -2, -1], 1, 3), C([-4, -2, -1], 1, 3))
        add("T 2-3-2", (2, 3, 2), C([6, 8, 9], 2, 5), C([-3, -2, -1], 3, 6), C([-4, -1], 2, 6))
        add("T 1-1-1-1-1", (1, 1, 1, 1, 1), C([6, 8], 1, 3), C([-2, -1], 1, 2), C([-3, -1], 1, 2), C([-2, -1], 1, 2), C([-2, -1], 1, 2))
        add("T 1-1 long", (1, 1), C([1, 2, 4, 5], 6, 9), C([-5, -3, -2, -1], 6, 8))
    return F


def zero_entry_families(tier):
    """Recipes in which some category takes no part."""
    F = []
    def add(name, recipe, *cats):
        F.append({"family": name, "recipe": list(recipe), "cats": list(cats)})
    add("1-0-1", (1, 0, 1), C([1, 3, 4, 6], 0, 3), C([-2, 5], 0, 2), C([-5, -3, -2, -1], 0, 3))
    add("0-1-1", (0, 1, 1), C([-2, 5], 0, 2), C([1, 3, 4, 6], 0, 3), C([-5, -3, -2, -1], 0, 3))
    add("2-0-1", (2, 0, 1), C([1, 3, 4], 0, 5), C([-2, 5], 0, 2), C([-5, -3, -2], 0, 3))
    add("1-2-0", (1, 2, 0), C([3, 4, 6], 0, 3), C([-2, -1], 0, 5), C([-5, 7], 0, 2))
    add("1-0", (1, 0), C([-2, 0, 1, 3], 0, 4), C([-5, 7], 0, 3))
    return F


def compact(families, most=3000):
    """The families with at most that many markets."""
    return [f for f in families if size(f["cats"]) <= most]


def tenths_families(tier):
    """Decimal fractions whose sums are zero in arithmetic but not in floating point; for properties that do not depend
    on whether a deal of gain zero is seen as one."""
    F = []
    def add(name, recipe, *cats):
        F.append({"family": name, "recipe": list(recipe), "cats": list(cats)})
    add("1-1 tenths", (1, 1), C([0.1, 0.2, 0.3, 0.7, 1.1], 0, 4), C([-0.1, -0.2, -0.3, -0.7], 0, 4))
    add("1-2 tenths", (1, 2), C([0.2, 0.3, 0.6, 0.9, 1.4], 0, 3), C([-0.1, -0.2, -0.3, -0.7], 0, 5))
    add("2-1 tenths", (2, 1), C([0.1, 0.2, 0.35, 0.7], 0, 4), C([-0.2, -0.3, -0.7, -1.4], 0, 3))
    add("2-3 tenths", (2, 3), C([0.3, 0.6, 0.9], 2, 5), C([-0.1, -0.2, -0.4], 3, 7))
    add("3-1 thirds", (3, 1), C([1 / 3, 2 / 3, 0.1], 3, 7), C([-1, -2, -0.3], 1, 3))
    add("1-1-1 tenths", (1, 1, 1), C([0.3, 0.6, 0.9], 0, 3), C([-0.1, -0.2, -0.3], 0, 3), C([-0.1, -0.2, -0.6], 0, 3))
    add("1-1-1-1 tenths", (1, 1, 1, 1), C([0.6, 0.9], 1, 3), C([-0.1, -0.2], 1, 2), C([-0.1, -0.3], 1, 3), C([-0.3, -0.4], 1, 2))
    add("1-2-1 thirds", (1, 2, 1), C([4 / 3, 5 / 3, 2], 1, 3), C([-1 / 3, -2 / 3], 2, 5), C([-2 / 3, -1 / 3], 1, 3))
    return F


def tenths_tree_families(tier):
    F = []
    def add(name, struct, counts, *cats):
        F.append({"family": name, "struct": struct, "counts": counts, "cats": list(cats)})
    for s in all_structs(2):
        for c in ((1, 1), (1, 2), (2, 1), (3, 2)):
            d = [C([0.3, 0.6, 0.9, 1.4], 0, 4), C([-0.1, -0.2, -0.3, -0.7], 0, 4)]
            add("pair tenths", s, c, *(d if s[0] == 0 else d[::-1]))
    for s in all_structs(3):
        for c in ((1, 1, 1), (1, 2, 1), (2, 1, 3)):
            d = [C([-0.1, -0.2, -0.3], 0, 2), C([-0.1, -0.2, -0.7], 1, 3), C([-1 / 3, -0.2], 1, 3)]
            d[s[0]] = C([0.3, 0.6, 0.9], 2, 3)
            add("three tenths", s, c, *d)
    add("two paths tenths", TWO_PATHS, (1, 1, 1, 1), C([0.6, 0.9, 1.3], 2, 4), C([-0.1, -0.7], 1, 2), C([-0.1, -0.2], 1, 2), C([-0.3, -0.4], 1, 3))
    add("two paths tenths", TWO_PATHS, (1, 2, 1, 3), C([0.6, 0.9, 1.3], 2, 3), C([-0.1, -0.7], 1, 3), C([-0.1, -0.2], 1, 2), C([-0.1, -0.3], 2, 4))
    return F


def tiny_families(tier):
    """Gains of a trillionth next to values of a few units; for the code that only adds and compares values."""
    u = 2.0 ** -40
    F = []
    def add(name, recipe, *cats):
        F.append({"family": name, "recipe": list(recipe), "cats": list(cats)})
    add("1-1 tiny gains", (1, 1), C([3, 3 + u, 4], 0, 3), C([-4 - u, -4, -3 - u, -3, -3 + u], 0, 3))
    add("1-2 tiny gains", (1, 2), C([4, 4 + u], 1, 3), C([-3, -2 - u, -2, -2 + u], 1, 5))
    add("2-1 tiny gains", (2, 1), C([2, 2 + u, 3], 1, 4), C([-4 - u, -4, -4 + u], 1, 3))
    add("1-1-1 tiny gains", (1, 1, 1), C([5, 5 + u], 1, 3), C([-3, -3 - u], 1, 3), C([-2 - u, -2, -2 + u], 1, 2))
    add("1-1 tiny values", (1, 1), C([u, 2 * u, 3 * u], 0, 3), C([-3 * u, -2 * u, -u, 0], 0, 3))
    return F


def tiny_tree_families(tier):
    u = 2.0 ** -40
    F = []
    def add(name, struct, counts, *cats):
        F.append({"family": name, "struct": struct, "counts": counts, "cats": list(cats)})
    add("tiny gains", [0, [1, None, 2, None]], [1, 1, 1], C([3, 3 + u, 4], 1, 3), C([-3 - u, -3, -3 + u], 0, 2), C([-4, -3 - u, -3], 0, 2))
    add("tiny gains 2", [0, [1, [2, None]]], [1, 2, 1], C([8, 8 + u], 1, 3), C([-3, -3 - u], 2, 5), C([-2 - u, -2, -2 + u], 1, 3))
    add("tiny values", [0, [1, None, 2, None]], [1, 1, 2], C([u, 2 * u, 5 * u], 1, 3), C([-3 * u, -2 * u], 0, 2), C([-2 * u, -u], 0, 4))
    add("long branch", [0, [1, None, 2, None]], [1, 5, 1], C([9, 12], 2, 3), C([-3, -2, -1], 5, 11), C([-12, -10, -5], 1, 2))
    add("long branches", [0, [1, [2, None], 3, [4, [5, None]]]], [1, 3, 2, 1, 2, 2], C([20, 30], 2, 3), C([-3, -1], 3, 6), C([-5, -1], 2, 4), C([-4], 1, 1), C([-1], 2, 2), C([-6, -1], 2, 3))
    return F


# --- the recipe-tree families ----------------------------------------------------------------------------

def _forests(n):
    """All ordered forests with n nodes, as nested tuples."""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for kids in _forests(k - 1):
            for rest in _forests(n - k):
                yield (kids,) + rest


def shapes(n):
    """All ordered rooted trees with n nodes (each is the tuple of the children of the root)."""
    return list(_forests(n - 1))


def label(shape, order):
    """A recipe structure with the given labels in preorder."""
    it = iter(order)
    def node(kids):
        i = next(it)
        if not kids:
            return [i, None]
        out = []
        for k in kids:
            out += node(k)
        return [i, out]
    return node(shape)


def _leaves(struct):
    out = []
    for i in range(0, len(struct), 2):
        if struct[i + 1] is None:
            out.append(struct[i])
        else:
            out += _leaves(struct[i + 1])
    return out


def all_structs(n):
    """Every ordered tree with n nodes, with preorder labels and with reversed labels."""
    out = []
    for s in shapes(n):
        out.append(label(s, range(n)))
        out.append(label(s, reversed(range(n))))
    return out


PAPER = [0, [6, [2, None], 3, [4, [5, None]]]]            # leaves category 1 unused
TWO_PATHS = [0, [1, None, 2, [3, None]]]
FOUR_PATHS = [0, [1, [2, None, 3, None], 4, [5, None, 6, None]]]

def _nest(k, width):
    shape = ()
    for _ in range(k):
        shape = (shape,) * width
    return shape


BINARY = label(_nest(3, 2), range(15))
BROOM = [10, [2, [9, [7, [0, None, 3, None, 11, None]], 1, None], 4, [5, [6, None]], 8, None]]
CHAIN12 = label(_nest(11, 1), [7, 3, 11, 0, 5, 9, 1, 4, 10, 2, 8, 6])


def tree_families(tier, counts_only=False):
    """(struct, counts, category domains)"""
    th = tier == "thorough"
    F = []
    def add(name, struct, counts, root, other, special=None):
        n = len(counts)
        r = struct[0]
        cats = [dict(root) if i == r else dict(other) for i in range(n)]
        for i, d in (special or {}).items():
            cats[i] = d
        if counts_only and all(c == 1 for c in counts):
            return
        F.append({"family": name, "struct": struct, "counts": list(counts), "cats": cats})
    add("one category", [0, None], [1], C(R(-2, 4), 0, 4), None)
    add("one category in pairs", [0, None], [2], C(R(-2, 4), 0, 5), None)
    for s in all_structs(2):
        add("pair", s, [1, 1], C(R(1, 6), 0, 4), C(R(-4, 0), 0, 3))
        add("pair any sign", s, [1, 1], C(R(-2, 3), 0, 3), C(R(-2, 3), 0, 3))
        add("pair many", s, [1, 1], C([2, 3, 5], 4, 7), C([-1, -3], 4, 8))
        add("pair halves", s, [1, 1], C([0.5, 1.25, 2], 0, 3), C([-2.25, -1.5, -0.5], 0, 3))
        for c in ((1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)):
            a, b = c[s[0]], c[1 - s[0]]
            add("pair %d:%d" % c, s, c, C([3, 5, 8], 0, 2 * a + 1), C([-4, -2, -1], 0, 2 * b + 1))
    add("pair and a stranger", [0, [2, None]], [1, 1, 1], C(R(1, 5), 0, 3), C([-3, -2, -1], 0, 3), {1: C([-7, 9], 0, 2)})
    for s in all_structs(3):
        add("three", s, [1, 1, 1], C([2, 4, 7], 0, 3), C([-3, -1], 0, 3))
        add("three any sign", s, [1, 1, 1], C([-1, 0, 2], 0, 3), C([-1, 0, 2], 0, 2))
        add("three, sellers at the root", s, [1, 1, 1], C([-3, -1], 0, 3), C([2, 5], 0, 3))
        for c in ((2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (1, 2, 2), (2, 1, 2), (2, 2, 2), (1, 3, 1), (1, 2, 3)):
            add("three %d:%d:%d" % c, s, c, C([4, 7], 1, 4), C([-2, -1], 1, 3))
    for s in all_structs(4):
        add("four", s, [1] * 4, C([3, 6, 9], 0, 3), C([-3, -1], 0, 2) if th else C([-3, -1], 0, 2, True))
        add("four any sign", s, [1] * 4, C([-1, 2], 0, 2), C([-1, 2], 0, 2))
    for c in ((1, 2, 1, 2), (2, 1, 1, 2), (1, 1, 2, 1), (2, 2, 1, 1)):
        for s in (TWO_PATHS, [3, [0, None, 1, [2, None]]], [0, [1, None, 2, None, 3, None]], [0, [1, [2, None, 3, None]]], [1, [3, [0, None], 2, None]]):
            add("four %s" % (c,), s, c, C([5, 9], 2, 4), C([-2, -1], 1, 2), {j: C([-2, -1], 2, 3) for j in range(4) if c[j] > 1 and j != s[0]})
    add("two paths, more agents", TWO_PATHS, [1] * 4, C([8, 12, 15], 3, 4), C([-4, -2], 2, 3, False), {1: C([-4, -2], 2, 2)})
    for s in all_structs(5):
        add("five", s, [1] * 5, C([5, 9], 1, 3), C([-3, -1], 0, 2, True))
    one = lambda a, b: C([a, b], 1, 1)
    for sh in shapes(6):
        for order in ((0, 1, 2, 3, 4, 5), (4, 1, 5, 0, 3, 2)):
            add("six", label(sh, order), [1] * 6, C([9, 14], 2, 2), one(-3, -1), {2: C([-4, -2], 1, 2)})
        add("six counted", label(sh, [2, 0, 5, 1, 4, 3]), [1, 2, 1, 3, 1, 2], C([12, 17], 3, 3), C([-2, -1], 1, 2, True), {1: C([-2, -1], 2, 3, False), 3: C([-1], 3, 4), 5: C([-1], 3, 3)})
    for sh in shapes(7):
        add("seven", label(sh, [3, 0, 6, 2, 5, 1, 4]), [1] * 7, C([9, 14], 3, 3), C([-2], 1, 1), {0: one(-3, -1), 1: one(-4, -1), 4: C([-3, -1], 0, 2, True)})
    add("paper", PAPER, [1] * 7, C([9, 14], 1, 3), C([-3, -2], 1, 2, True), {1: C([-5], 0, 1)})
    add("paper counts", PAPER, [1, 1, 2, 1, 2, 1, 1], C([9, 14], 2, 3), C([-3, -2, -1], 1, 2, True), {1: C([-5], 1, 1), 2: C([-2, -1], 2, 4), 3: C([-3], 2, 2), 5: C([-2], 2, 2)})
    add("four paths", FOUR_PATHS, [1] * 7, C([9, 14], 2, 3), C([-3, -2], 1, 2, True), {5: C([-1], 1, 1)})
    add("large values", TWO_PATHS, [1] * 4, C([3 * 10**6, 5 * 10**6 + 1], 0, 3), C([-10**6, -999999], 0, 2))
    e = 1 / 256
    for s in all_structs(2):
        add("pair near", s, [1, 1], C([3, 3 + e, 4, 4 + e], 0, 2), C([-4, -3 - e, -3, -2], 0, 2))
        add("pair near 1:2", s, [1, 2], C([4, 4 + e, 6 - e], 0, 3), C([-3, -2 - e, -2, -1], 0, 3))
        add("pair wide", s, [1, 1], C([2, 5], 13, 13), C([-4, -1], 12, 12))
        add("pair cents", s, [1, 1], C([1 / 1024, 3 / 1024], 0, 3), C([-3 / 1024, -2 / 1024, 0], 0, 3))
    add("star near", [0, [1, None, 2, None]], [1] * 3, C([5, 6 + e, 7], 2, 4), C([-3, -2 - e, -2], 1, 2), {2: C([-3 - e, -3 + e, -2], 1, 2)})
    add("star near 1:2:1", [0, [1, None, 2, None]], [1, 2, 1], C([7, 8, 9], 2, 3), C([-2 - e, -2, -1], 2, 3), {2: C([-3 + e, -2 + e, -1], 1, 2)})
    add("chain near", [0, [1, [2, None]]], [1] * 3, C([5, 6 + e, 7], 2, 3), C([-3, -2 - e, -2], 1, 2), {2: C([-3 - e, -3 + e, -2], 1, 2)})
    add("two paths near", TWO_PATHS, [1] * 4, C([6, 6 + e, 7], 2, 2), C([-3, -3 - e], 1, 2))
    t = 2.0 ** -18
    add("three nearer", [0, [1, None, 2, None]], [1, 1, 1], C([3, 3 + t, 4], 1, 3), C([-3 - t, -3, -2], 1, 3))
    add("two paths nearer", TWO_PATHS, [1] * 4, C([6, 6 + t, 7], 2, 2), C([-3, -3 - t], 1, 2))
    add("chain nearer", [0, [1, None]], [1, 2], C([6, 6 + t, 6 - t], 1, 3), C([-3 + t, -3, -3 - t], 2, 5))
    add("two paths wide", TWO_PATHS, [1] * 4, C([5, 12], 9, 9), C([-4, -1], 5, 5))
    add("star wide", [0, [1, None, 2, None, 3, None]], [1] * 4, C([3, 8], 12, 12), C([-4, -1], 4, 4))
    add("chain of 8", [7, [6, [5, [4, [3, [2, [1, [0, None]]]]]]]], [1] * 8, C([9, 30], 2, 3), C([-4, -1], 2, 2, True), {0: C([-4, -1], 2, 3), 4: C([-4, -2], 1, 2)})
    add("star of 7", [0, [i if j == 0 else None for i in range(1, 8) for j in (0, 1)]], [1] * 8, C([3, 9], 5, 5), C([-4], 1, 1), {3: C([-5, -1], 0, 2), 6: C([-3, -2], 0, 2)})
    star18 = [0, [i if j == 0 else None for i in range(1, 18) for j in (0, 1)]]
    add("star of 18", star18, [1] * 18, C([3, 9], 13, 13), C([-4], 1, 1), {3: C([-5, -1], 0, 2), 17: C([-3, -2], 0, 2)})
    add("star of 18 counted", star18, [1] * 16 + [3, 2], C([3, 9], 13, 13), C([-4], 1, 1), {16: C([-2, -1], 2, 3), 17: C([-3, -2], 2, 4)})
    add("tens of millions", TWO_PATHS, [1] * 4, C([3 * 10**7, 5 * 10**7 + 1], 0, 3), C([-10**7, -9999999], 0, 2))
    # higher agent counts, deeper and broader trees, many different values
    add("pair 1:9", [0, [1, None]], (1, 9), C([17, 95], 1, 3), C([-4, -1], 9, 19))
    add("pair 11:2", [0, [1, None]], (11, 2), C([3, 8], 11, 23), C([-4, -1], 2, 5))
    for c in ((1, 4), (4, 1), (5, 2), (2, 7)):
        for s in all_structs(2)[:: 2 if c[0] == 1 else 1]:
            a, b = c[s[0]], c[1 - s[0]]
            add("pair %d:%d" % c, s, c, C([7, 15], a, 2 * a + 1), C([-4, -1], b, 2 * b + 1))
    add("three 4:1:2", [0, [1, [2, None]]], (4, 1, 2), C([3, 4], 7, 9), C([-4, -1], 2, 3), {2: C([-3, -1], 3, 5)})
    add("three 1:4:5", [0, [1, None, 2, None]], (1, 4, 5), C([11, 16], 2, 3), C([-4, -1], 4, 6), {2: C([-3, -1], 4, 6)})
    add("three 2:4:3", [2, [0, None, 1, None]], (2, 4, 3), C([6, 7], 5, 7), C([-4, -1], 2, 4), {1: C([-3, -2], 4, 5)})
    add("binary tree of 15", BINARY, [1] * 15, C([9, 14], 3, 4), C([-2], 1, 1), {1: C([-3, -1], 1, 2), 6: C([-3, -1], 1, 2), 14: C([-4, -1], 0, 2), 9: C([-1], 0, 1)})
    add("broom", BROOM, [1] * 12, C([11, 16], 3, 4), C([-2], 2, 2), {0: C([-2, -1], 2, 3), 8: C([-1, -3], 1, 1), 6: C([-3, -1], 0, 2), 3: C([-4, -2], 1, 2)})
    add("chain of 12", CHAIN12, [1] * 12, C([15, 25], 2, 3), C([-1], 2, 2), {1: C([-3, -1], 2, 3), 4: C([-2, -1], 1, 2), 11: C([-2, -1], 2, 3)})
    add("chain of 12 counted", CHAIN12, [1, 2, 1, 1, 3, 1, 1, 2, 1, 1, 1, 1], C([15, 25], 2, 3), C([-1], 2, 2), {1: C([-3, -1], 3, 4), 4: C([-2, -1], 5, 6), 7: C([-1], 3, 4), 0: C([-2, -1], 2, 2)})
    add("two paths of hundreds", TWO_PATHS, [1] * 4, C(R(60, 181), 121, 121, True), C(R(-70, 0), 70, 70, True), {1: C(R(-31, 0), 30, 30, True), 3: C(R(-50, 0), 50, 50, True)})
    add("pair of hundreds", [0, [1, None]], [1, 1], C(R(1, 152), 150, 151, True), C(R(-140, 0), 140, 140, True))
    add("pair 1:2 of hundreds", [0, [1, None]], [1, 2], C(R(1, 152), 151, 151, True), C(R(-140, 0), 139, 140, True))
    add("pair of thousands", [0, [1, None]], [1, 1], C(R(601, 1901), 1300, 1300, True), C(R(-1300, 0), 1300, 1300, True))
    add("pair 2:1 of thousands", [1, [0, None]], [2, 1], C(R(-2400, 0), 2400, 2400, True), C(R(1500, 2601), 1101, 1101, True))
    add("star of hundreds", [0, [1, None, 2, None]], [1] * 3, C(R(800, 1701), 901, 901, True), C(R(-450, 0), 450, 450, True), {2: C(R(-470, 0, 2), 235, 235, True)})
    for s in all_structs(2):
        add("pair decimal", s, [1, 1], C([52.72, 44.8, 33.37, 12.31], 0, 4), C([-0.1523, -3.1406, -11.3, -33.36], 0, 4))
        if s[0] == 0:
            add("pair 1:3 decimal", s, [1, 3], C([52.72, 44.8, 33.37], 1, 3), C([-0.1523, -3.1406, -11.3, -16.3], 1, 6))
            add("pair 2:3 decimal", s, [2, 3], C([2.61, 4.8, 3.37], 2, 5), C([-0.1523, -3.1406, -1.2], 3, 6))
    for s in all_structs(3):
        add("three decimal", s, [1, 1, 1], C([52.72, 33.37, 9.91], 2, 3), C([-0.1523, -3.1406, -21.9], 1, 3), {2 if s[0] != 2 else 0: C([-0.31, -2.6875, -30.7], 1, 2)})
    add("two paths decimal", TWO_PATHS, [1] * 4, C([52.72, 33.37, 26.31], 2, 4), C([-0.1523, -11.2], 1, 2), {1: C([-0.31, -14.39], 1, 2), 2: C([-1.07, -8.83], 1, 2)})
    add("two paths decimal counts", TWO_PATHS, [1, 3, 2, 1], C([52.72, 33.37, 26.31], 2, 3), C([-0.1523, -11.2], 1, 2), {1: C([-0.31, -14.39], 3, 4), 2: C([-1.07, -8.83], 2, 3)})
    if th:
        for s in all_structs(2):
            add("T pair wide", s, [1, 1], C([2, 3, 5], 13, 13), C([-4, -2, -1], 12, 12))
        add("T two paths wide", TWO_PATHS, [1] * 4, C([5, 12, 13], 9, 9), C([-4, -1], 6, 6))
        for s in all_structs(5):
            add("T five", s, [1] * 5, C([5, 9], 2, 4), C([-3, -1], 1, 2))
        for sh in shapes(6):
            add("T six", label(sh, [2, 0, 5, 1, 4, 3]), [1] * 6, C([8, 13], 2, 3), C([-3, -1], 1, 2, True))
        for s in all_structs(3):
            add("T three", s, [1, 1, 1], C([2, 4, 5, 7], 0, 4), C([-3, -2, -1], 0, 3))
            for c in ((2, 1, 1), (1, 2, 1), (1, 1, 2), (1, 2, 2), (2, 2, 2), (3, 1, 2), (1, 3, 2)):
                add("T three %d:%d:%d" % c, s, c, C([4, 6, 9], 2, 6), C([-3, -2, -1], 1, 4))
        for c in ((1, 2, 1, 2), (2, 1, 1, 2), (1, 3, 1, 2)):
            for s in (TWO_PATHS, [0, [1, None, 2, None, 3, None]], [0, [1, [2, None, 3, None]]]):
                add("T four %s" % (c,), s, c, C([5, 8, 11], 2, 5), C([-3, -1], 2, 4))
        add("T two paths", TWO_PATHS, [1] * 4, C([6, 9, 12, 15], 3, 5), C([-4, -3, -2], 2, 3))
    return F


# --- generic position: no two traders leave a clock at the same time ------------------------------------------

_G = [(i * i * 7919 + i * 104729 + 12345) % 99991 for i in range(200)]


def generic(cat, values):
    """Distinct values near the given ones, with no small linear relation between values of different categories."""
    return [v * 100000 + _G[17 * cat + j] for j, v in enumerate(values)]


def enumerable_tree_families(tier):
    """The tree families whose vectors of deals per path are few enough to be enumerated."""
    return [f for f in tree_families(tier) if not f["family"].startswith("star of 18")]


def generic_tree_families(tier):
    th = tier == "thorough"
    F = []
    def add(name, struct, counts, root, other, lo_hi, special=None):
        cats = []
        for i in range(len(counts)):
            if i == struct[0]:
                vals, (lo, hi) = root, lo_hi[0]
            else:
                vals, (lo, hi) = other, lo_hi[1]
            if special and i in special:
                vals, (lo, hi) = special[i]
            cats.append(C(generic(i, vals), lo, hi, True))
        F.append({"family": name, "struct": struct, "counts": list(counts), "cats": cats})
    for s in all_structs(2):
        add("G pair", s, [1, 1], [8, 7, 6, 5, 4, 3, 2], [-1, -2, -3, -4, -5, -6, -7], ((1, 7), (1, 7)))
        add("G pair 1:2", s, [1, 2], [8, 7, 6, 5, 4] if s[0] == 0 else [20, 18, 15, 13, 11, 9, 8], [-1, -2, -3, -4, -5, -6, -2] if s[0] == 0 else [-3, -9, -13, -17], ((1, 7), (1, 7)))
    for s in all_structs(3):
        add("G three", s, [1] * 3, [12, 11, 9, 7, 6], [-1, -2, -4, -5], ((2, 5), (0, 4)))
        add("G three any sign", s, [1] * 3, [5, 2, -1, -2], [3, 1, -2, -3], ((1, 4), (0, 3)))
        for c in ((2, 1, 1), (1, 2, 1), (1, 1, 2)):
            add("G three %s" % (c,), s, c, [14, 13, 11, 9, 8], [-1, -2, -3, -4], ((2, 5), (1, 4)))
    for s in all_structs(4):
        add("G four", s, [1] * 4, [14, 12, 11, 9], [-1, -3, -4], ((3, 4), (0, 3)))
    for c in ((1, 2, 1, 2), (2, 1, 1, 2)):
        add("G two paths %s" % (c,), TWO_PATHS, c, [25, 23, 20, 19, 17], [-1, -2, -3, -4], ((3, 5), (2, 4)))
    add("G two paths", TWO_PATHS, [1] * 4, [14, 12, 11, 9, 8], [-1, -3, -4, -6], ((4, 5), (2, 4)))
    add("G star", [0, [1, None, 2, None, 3, None]], [1] * 4, [9, 8, 6, 5, 4, 3], [-1, -3, -4], ((5, 6), (1, 3)))
    for s in all_structs(5):
        add("G five", s, [1] * 5, [15, 13, 11, 10], [-1, -3], ((3, 4), (0, 2)))
    add("G paper", PAPER, [1] * 7, [20, 18, 15, 14], [-1, -3], ((3, 4), (1, 2)), {1: ([-5], (0, 0))})
    if th:
        for s in all_structs(4):
            add("T G four", s, [1] * 4, [14, 12, 11, 9, 8], [-1, -3, -4, -5], ((3, 5), (1, 4)))
        for s in all_structs(5):
            add("T G five", s, [1] * 5, [15, 13, 11, 10, 7], [-1, -3, -4], ((4, 5), (1, 3)))
        for c in ((1, 2, 1, 2), (2, 1, 1, 2), (2, 2, 1, 1), (1, 1, 2, 1), (2, 2, 2, 2)):
            for s in all_structs(4)[::2]:
                add("T G four %s" % (c,), s, c, [25, 23, 20, 19, 17, 16], [-1, -2, -3, -4], ((3, 6), (2, 4)))
    return F
