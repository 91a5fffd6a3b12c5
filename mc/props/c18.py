"""C18: a single ascending price vector.  All sequences of increases (category, target, bound on the price-sum) up to the
depth bound, for all recipes with entries 0..3 in the bounds and all agent counts, next to an exact reference in
rational arithmetic, in both price modules.  The first or second step may be to set a price outright (up or down, also
above the balance)."""
import itertools
from fractions import Fraction as Fr
from mc import engine

RECIPES = [r for n in (1, 2, 3) for r in itertools.product(range(3), repeat=n) if any(r)] + [(3, 1), (1, 3), (2, 3), (3, 2, 1), (1, 1, 1, 1), (1, 0, 2, 1), (2, 1, 0, 0), (5, 4)]
TARGETS = [-20, -3, -0.5, 0, 4, 7.25]       # with three or more categories -3, 0, 7.25
NEAR = Fr(1, 2048)
BOUNDS = [0, -5, 2.5]


def worlds(tier):
    out = []
    for r in RECIPES:
        n = len(r)
        for init in (-100, [-40.0 - 7 * i for i in range(n)]):
            out.append({"recipe": list(r), "init": init, "counts": None})
        for counts in {(1,) * n, (2,) * n, tuple(1 + i % 3 for i in range(n)), tuple(3 - i % 3 for i in range(n))}:
            out.append({"recipe": list(r), "init": -100, "counts": list(counts)})
    return out


def shards(tier):
    return [dict(w, depth=(5 if tier == "thorough" else 3) if len(w["recipe"]) <= 2 else 4 if tier == "thorough" else 3) for w in worlds(tier)]


def create(world, module):
    import prices, prices_integer
    init = list(world["init"]) if isinstance(world["init"], list) else world["init"]
    if module == "prices":
        return prices.AscendingPriceVector(list(world["recipe"]), init)
    if world["counts"] is None:
        return prices_integer.AscendingPriceVector(list(world["recipe"]), init)
    return prices_integer.AscendingPriceVector(list(world["recipe"]), init, list(world["counts"]))


def close(a, b):
    return abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(b)))


class Reference:
    def __init__(self, world):
        n = len(world["recipe"])
        self.w = [Fr(r) * (world["counts"][i] if world["counts"] else 1) for i, r in enumerate(world["recipe"])]
        self.p = [Fr(x) for x in (world["init"] if isinstance(world["init"], list) else [world["init"]] * n)]
        self.status = None
        self.history = []
        self.rounding = False       # the latest target was so close to the balance that rounding decides the status

    def sum(self):
        return sum(w * p for w, p in zip(self.w, self.p))

    def enabled(self):
        out = []
        big = len(self.p) > 2
        for b in BOUNDS[:2] if big else BOUNDS:
            if self.sum() > b:
                continue
            for i in range(len(self.p)):
                for t in TARGETS[1::2] if big else TARGETS:
                    if t < self.p[i]:
                        continue
                    if self.w[i] == 0 and self.sum() >= b:
                        continue        # the price of a category outside the recipe is not defined at the balance
                    out.append((i, t, b))
        if len(self.history) < (1 if big else 2) and not any(op[2] is None for op in self.history):
            for i in range(len(self.p)):
                for t in (self.p[i] - 8, 9):
                    if Fr(float(t)) == t:
                        out.append((i, float(t), None))
        if len(self.history) < 2:
            for i in range(len(self.p)):            # just below, at and just above the balance
                if self.w[i] == 0:
                    continue
                at = self.p[i] - self.sum() / self.w[i]
                for d in (-NEAR, 0, NEAR):
                    t = at + d
                    if self.sum() <= 0 and t >= self.p[i] and Fr(float(t)) == t:
                        out.append((i, float(t), 0))
        return out

    def apply(self, op):
        i, t, b = op
        self.history.append(op)
        if b is None:
            self.p[i] = Fr(t)
            return
        rest = self.sum() - self.w[i] * self.p[i]
        exact = all(p.denominator & (p.denominator - 1) == 0 for p in self.p)      # no rounding in binary
        self.rounding = not exact and abs(rest + self.w[i] * Fr(t) - b) < 1e-9
        if rest + self.w[i] * Fr(t) >= b:
            self.p[i] = (Fr(b) - rest) / self.w[i]
            self.status = "STOPPED_AT_ZERO_SUM"
        else:
            self.p[i] = Fr(t)
            self.status = "STOPPED_AT_AGENT_VALUE"


def compare(v, ref):
    n = len(ref.p)
    for i in range(n):
        if not close(v[i], ref.p[i]):
            return "price %d is %r instead of %s" % (i, v[i], float(ref.p[i]))
    if not close(v.price_sum(), ref.sum()):
        return "price_sum() is %r instead of %s" % (v.price_sum(), float(ref.sum()))
    got = None if v.status is None else v.status.name
    if got != ref.status and not (ref.rounding and got is not None):
        return "the status is %s instead of %s" % (got, ref.status)
    for i in range(n):
        rest = ref.sum() - ref.w[i] * ref.p[i]
        if not close(v.price_sum_without_category(i), rest):
            return "price_sum_without_category(%d) is %r instead of %s" % (i, v.price_sum_without_category(i), float(rest))
        if not close(v.price_sum_after_increase(i, 11), rest + 11 * ref.w[i]):
            return "price_sum_after_increase(%d, 11) is %r instead of %s" % (i, v.price_sum_after_increase(i, 11), float(rest + 11 * ref.w[i]))
    for i in range(n):
        if not close(v[i], ref.p[i]):
            return "a query has changed price %d to %r" % (i, v[i])
    return None


def execute(world, module, ops):
    def go():
        v, ref = create(world, module), Reference(world)
        msg = compare(v, ref)
        if msg:
            return "initially, " + msg
        for k, (i, t, b) in enumerate(ops):
            if b is None:
                v[i] = t
            elif b == 0:
                v.increase_price_up_to_balance(i, t, "category")
            else:
                v.increase_price_up_to_balance(i, t, "category", sum_upper_bound=b)
            ref.apply((i, t, b))
        return compare(v, ref)
    r = engine.run(go)
    return r.text if isinstance(r, engine.Raised) else r


def explore(shard, ctx):
    modules = (["prices"] if shard["counts"] is None else []) + ["prices_integer"]
    seen = set()
    level = [[]]
    for depth in range(shard["depth"] + 1):
        following = []
        for ops in level:
            ref = Reference(shard)
            for op in ops:
                ref.apply(op)
            key = (tuple(ref.p), ref.status)
            ctx.outcome(key)
            for m in modules:
                ctx.transitions += 1
                ctx.traces += 1
                msg = execute(shard, m, ops)
                if msg:
                    ctx.fail({"world": {k: shard[k] for k in ("recipe", "init", "counts")}, "module": m, "ops": ops},
                             "%s: recipe %s, initial price %s, agent counts %s, increases (category, target, bound; without a bound: set) %s: %s" % (m, shard["recipe"], shard["init"], shard["counts"], ops, msg))
            if key not in seen:
                seen.add(key)
                ctx.states += 1
            elif depth >= 2:
                continue            # beyond length 2: one shortest sequence per price vector, with every increase that is possible there
            if depth < shard["depth"]:
                following += [ops + [op] for op in ref.enabled()]
        level = following
    ctx.sample({"recipe": shard["recipe"], "counts": shard["counts"], "depth": shard["depth"]})


def replay(s, ctx):
    msg = execute(s["world"], s["module"], [tuple(o) for o in s["ops"]])
    if msg:
        ctx.fail(s, msg)
