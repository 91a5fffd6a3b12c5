"""C17: categories and markets are sorted multisets.  All sequences of operations up to the depth bound on a market and
on its clone are executed on the real objects next to a reference of plain sorted lists; after every operation every
query is compared.  Then, from every multiset of up to 5 (thorough 6) values, every single operation is executed."""
import itertools
from mc import dom, engine

VALUES = [2, -1, 2.5]


def named(naming, i):
    """The name of category i: names of their own, or one and the same name for all (as in the experiments)."""
    return "c%d" % i if naming == "own" else "agent"


def reference(values):
    return sorted(values, reverse=True)


class System:
    """Live real markets and their references."""
    def __init__(self, cats, naming="own"):
        from agents import AgentCategory
        from markets import Market
        self.naming = naming
        self.inputs = [list(c) for c in cats]
        self.given = [list(c) for c in cats]
        self.real = [Market([AgentCategory(named(naming, i), c) for i, c in enumerate(self.given)])]
        self.ref = [[reference(c) for c in cats]]
        self.aside = []                  # lists that were handed over to the code, and their contents

    def ops(self):
        """All enabled operations."""
        out = []
        for t in range(len(self.real)):
            for c, ref in enumerate(self.ref[t]):
                for v in VALUES:
                    out.append(("append", t, c, v))
                out.append(("append_list", t, c, (0, 3)))
                out.append(("append_list", t, c, ()))
                if ref:
                    out += [("remove_highest", t, c), ("remove_lowest", t, c)]
                for k in (0, 2, 3):
                    if len(ref) >= k:
                        out.append(("remove_highest_agents", t, c, k))
            n = len(self.ref[t])
            out.append(("append_trader", t, n - 1, 1))
            out.append(("append_PS", t, tuple(range(n))))
            out.append(("append_PS_bad", t, (7,) * (n + 1)))
            out.append(("append_PS_bad", t, (7,) * (n - 1)))
            for r in ((1,) * n, (0,) * (n - 1) + (2,), (2,) + (1,) * (n - 1)):
                if all(len(c) >= k for c, k in zip(self.ref[t], r)):
                    out.append(("remove_recipe", t, r))
        if len(self.real) < 2:
            out.append(("clone", 0))
        out.append(("empty", 0))
        return out

    def apply(self, op):
        """-> message or None"""
        name, t = op[0], op[1]
        m, ref = self.real[t], self.ref[t]
        if name == "append":
            m.categories[op[2]].append(op[3]); ref[op[2]] = reference(ref[op[2]] + [op[3]])
        elif name == "append_list":
            given = list(op[3])
            self.aside.append((given, list(op[3])))
            m.categories[op[2]].append(given); ref[op[2]] = reference(ref[op[2]] + list(op[3]))
        elif name == "remove_highest":
            m.categories[op[2]].remove_highest_agent(); ref[op[2]] = ref[op[2]][1:]
        elif name == "remove_lowest":
            m.categories[op[2]].remove_lowest_agent(); ref[op[2]] = ref[op[2]][:-1]
        elif name == "remove_highest_agents":
            m.categories[op[2]].remove_highest_agents(op[3]); ref[op[2]] = ref[op[2]][op[3]:]
        elif name == "append_trader":
            m.append_trader(op[2], op[3]); ref[op[2]] = reference(ref[op[2]] + [op[3]])
        elif name == "append_PS":
            m.append_PS(list(op[2]))
            for i, v in enumerate(op[2]):
                ref[i] = reference(ref[i] + [v])
        elif name == "append_PS_bad":
            try:
                m.append_PS(list(op[2]))
                return "a PS with %d values is accepted by a market with %d categories" % (len(op[2]), len(ref))
            except ValueError:
                pass
        elif name == "remove_recipe":
            m.remove_highest_agents(list(op[2]))
            for i, k in enumerate(op[2]):
                ref[i] = ref[i][k:]
        elif name == "clone":
            self.real.append(m.clone()); self.ref.append([list(c) for c in ref])
        elif name == "empty":
            e = m.empty_agent_categories()
            if [(c.name, list(c.values)) for c in e] != [(named(self.naming, i), []) for i in range(len(ref))]:
                return "empty_agent_categories() gives %s" % e
            for c in e:
                c.append(9)                    # must not reach the market
        return None

    def compare(self):
        for t, (m, ref) in enumerate(zip(self.real, self.ref)):
            which = "the market" if t == 0 else "the clone"
            n = len(ref)
            if len(m.categories) != n or m.num_categories != n:
                return "%s has %d categories instead of %d" % (which, len(m.categories), n)
            for i, want in enumerate(ref):
                c = m.categories[i]
                if list(c.values) != want:
                    return "category %d of %s is %s instead of %s" % (i, which, c.values, want)
                if c.size() != len(want) or len(c) != len(want):
                    return "category %d of %s has size %r, %r instead of %d" % (i, which, c.size(), len(c), len(want))
                if c.name != named(self.naming, i) or str(c) != "%s: %s" % (named(self.naming, i), want) or repr(c) != str(c):
                    return "category %d of %s is printed as %s" % (i, which, c)
                if want and (c.highest_agent_value() != want[0] or c.lowest_agent_value() != want[-1]):
                    return "category %d of %s has highest value %r and lowest value %r instead of %s" % (i, which, c.highest_agent_value(), c.lowest_agent_value(), want)
                for k in range(len(want) + 2):
                    got = c.highest_agent_values(k)
                    if list(got) != want[:k]:
                        return "the highest %d values of category %d of %s are %s instead of %s" % (k, i, which, got, want[:k])
                    if isinstance(got, list):
                        got.append(1000)       # the caller owns the result
                k = c.clone()
                if list(k.values) != want or k.name != c.name:
                    return "the clone of category %d of %s is %s" % (i, which, k)
                k.append(1001)
                if list(c.values) != want:
                    return "changing a clone or a query result has changed category %d of %s to %s" % (i, which, c.values)
            if str(m) != "Traders: [%s]" % ", ".join("%s: %s" % (named(self.naming, i), w) for i, w in enumerate(ref)):
                return "%s is printed as %s" % (which, m)
            if bool(m.has_empty_category()) != any(not c for c in ref):
                return "has_empty_category() of %s is %r for %s" % (which, m.has_empty_category(), ref)
            for r in itertools.product(range(3), repeat=n):
                want = None if any(len(c) < k for c, k in zip(ref, r)) else tuple(v for c, k in zip(ref, r) for v in c[:k])
                got = m.get_highest_agents(list(r))
                if got != want:
                    return "get_highest_agents(%s) of %s is %s instead of %s" % (r, which, got, want)
            for i in range(n):
                if all(c for j, c in enumerate(ref) if j != i):
                    got = m.best_containing_PS(i, 77)
                    if tuple(got) != tuple(77 if j == i else ref[j][0] for j in range(n)):
                        return "best_containing_PS(%d, 77) of %s is %s" % (i, which, got)
        if self.given != self.inputs:
            return "the lists given to the constructor have changed to %s" % self.given
        for given, want in self.aside:
            if given != want:
                return "the list %s given to append has changed to %s" % (want, given)
        return None


def step(system, op):
    r = engine.run(lambda: system.apply(op) or system.compare())
    return r.text if isinstance(r, engine.Raised) else r


def crowds(tier):
    """Markets with many values per category, and with many categories."""
    out = [[list(range(n, 0, -1)), [-v for v in range(n + 1)]] for n in (7, 11, 26, 33, 51, 65, 70, 101, 130)]
    t = 2.0 ** -40
    out += [[[1.001, 1.002, 1.004, 1.0005, 1.00049], [-0.3, -0.1 - 0.2, -0.30000001, -0.2999]], [[1 + t, 1, 1 + 2 * t, 1 - t, 1 + 3 * t], [-1, -1 - t, -1 + t, 0.5, 0.5 + t / 2]],
            [[10 ** 7, 10 ** 7 + 1, 10 ** 7 - 1, 10 ** 7 + 0.5], [-10 ** 9 - 1, -10 ** 9, -10 ** 9 + 1, 10 ** 15, 10 ** 15 + 1]]]
    out += [[[3] * 40 + [2] * 35, [1] * 30 + [0] * 31 + [-2] * 9], [[v / 8 for v in range(150)], [(v * 37) % 101 for v in range(101)]]]
    if tier == "thorough":
        out += [[list(range(500)), [-(v % 7) for v in range(400)]], [list(range(1100)), [2] * 1030]]
    return out


def wide(tier):
    return [[[i, -i, 2] for i in range(n)] for n in (4, 6, 9, 10, 12, 18, 33)]


def counts_of(n):
    return sorted({k for k in (0, 1, 2, 3, 5, 10, 20, 21, 25, 26, 32, 33, 50, 51, 60, 64, 65, 99, 100, n // 2, n - 1, n, n + 1, 2 * n, 1000) if k >= 0})


def crowded(cats, ctx, naming="own"):
    """Every single operation, with every number of agents in the list, on one large market and on its clone."""
    from agents import AgentCategory
    from markets import Market
    def build():
        return Market([AgentCategory(named(naming, i), list(c)) for i, c in enumerate(cats)])
    def values(m):
        return [list(c.values) for c in m.categories]
    want = [reference(c) for c in cats]
    n = len(cats)
    def changed(i, new):
        return [new if j == i else w for j, w in enumerate(want)]
    def check(what, action):
        """action(market) -> (market that was changed or None, expected values of it) or a message"""
        ctx.transitions += 1
        ctx.traces += 1
        def go():
            m = build()
            if values(m) != want:
                return "the market is %s" % m
            k = m.clone()
            for target, other in ((m, k), (k, m)):
                r = action(target)
                if isinstance(r, str):
                    return r
                if values(target) != r:
                    return "the values are %s instead of %s" % (values(target), r)
                if values(other) != (want if other is k else first):
                    return "the market and its clone influence each other: %s, %s" % (target, other)
                first = values(target)
                if str(target) != "Traders: [%s]" % ", ".join("%s: %s" % (named(naming, i), w) for i, w in enumerate(r)):
                    return "it is printed as %s" % target
                if [len(c) for c in target.categories] != [len(w) for w in r] or [c.size() for c in target.categories] != [len(w) for w in r]:
                    return "the sizes are wrong"
                if target.has_empty_category() != any(not w for w in r) or target.num_categories != n:
                    return "has_empty_category() or num_categories is wrong"
            return None
        r = engine.run(go)
        msg = r.text if isinstance(r, engine.Raised) else r
        ctx.outcome((what, tuple(map(len, cats))))
        if msg:
            ctx.fail({"crowd": cats, "naming": naming}, "large market with sizes %s, %s: %s" % ([len(c) for c in cats], what, msg))
    def queries(m):
        for i, c in enumerate(m.categories):
            for k in counts_of(len(want[i])):
                if list(c.highest_agent_values(k)) != want[i][:k]:
                    return "the highest %d values of category %d are %s" % (k, i, c.highest_agent_values(k))
            if want[i] and (c.highest_agent_value() != want[i][0] or c.lowest_agent_value() != want[i][-1]):
                return "highest or lowest value of category %d is wrong" % i
            k = c.clone()
            if list(k.values) != want[i]:
                return "the clone of category %d is %s" % (i, k)
            k.append(0)
            k.remove_highest_agent()
        for k in counts_of(max(map(len, want))):
            for r in ([k] * n, [1] * (n - 1) + [k], [k] + [0] * (n - 1), [(k + i) % 3 for i in range(n)]):
                w = None if any(len(c) < x for c, x in zip(want, r)) else tuple(v for c, x in zip(want, r) for v in c[:x])
                if m.get_highest_agents(list(r)) != w:
                    return "get_highest_agents(%s) is %s" % (r, m.get_highest_agents(list(r)))
        for i in range(n):
            if tuple(m.best_containing_PS(i, 77)) != tuple(77 if j == i else want[j][0] for j in range(n)):
                return "best_containing_PS(%d, 77) is wrong" % i
        e = m.empty_agent_categories()
        if [(c.name, list(c.values)) for c in e] != [(named(naming, i), []) for i in range(n)]:
            return "empty_agent_categories() gives %s" % e
        return want
    ctx.states += 1
    check("queries", queries)
    for i in {0, n // 2, n - 1}:
        w = want[i]
        def one(f, new):
            def action(m):
                f(m.categories[i])
                return changed(i, new)
            return action
        for v in (w[0] + 1, w[0], w[len(w) // 2], w[-1], w[-1] - 1, 0.5, w[len(w) // 2] + 2.0 ** -30, w[len(w) // 2] - 0.001):
            check("append %s to category %d" % (v, i), one(lambda c: c.append(v), reference(w + [v])))
            def trader(m, v=v):
                m.append_trader(i, v)
                return changed(i, reference(w + [v]))
            check("append trader %s to category %d" % (v, i), trader)
        for k in counts_of(60):
            for more in ([w[0] + j for j in range(k)], [(j * 7) % 11 - 5 for j in range(k)], [w[-1] + j / 1024 for j in range(k)]):
                check("append the list %s to category %d" % (more, i), one(lambda c: c.append(list(more)), reference(w + more)))
        for k in counts_of(len(w)):
            if k <= len(w):
                check("remove the highest %d of category %d" % (k, i), one(lambda c: c.remove_highest_agents(k), w[k:]))
                def recipe(m, k=k):
                    m.remove_highest_agents([k if j == i else 1 for j in range(n)])
                    return [x[k:] if j == i else x[1:] for j, x in enumerate(want)]
                check("remove %d of category %d and one of the others" % (k, i), recipe)
        def many(c):
            for j in range(len(w) - 1):
                c.remove_highest_agent() if j % 3 == 0 else c.remove_lowest_agent()
        a, b = sum(1 for j in range(len(w) - 1) if j % 3 == 0), sum(1 for j in range(len(w) - 1) if j % 3)
        check("remove all but one of category %d" % i, one(many, w[a:len(w) - b]))
    def ps(m):
        for j in range(40):
            m.append_PS([j + i for i in range(n)])
        return [reference(x + [j + i for j in range(40)]) for i, x in enumerate(want)]
    check("append 40 procurement sets", ps)


STARTS = [[[], []], [[3, 1, 2], [-4, -4]], [[2.5], [-1, 0, 5]], [[0, 0], [], [1]]]


FORMS = {"a list": list, "a tuple": tuple, "an iterator": iter, "a generator": lambda c: (v for v in c), "the values of a dictionary": lambda c: dict(enumerate(c)).values(),
         "a category's values": lambda c: __import__("agents").AgentCategory("y", list(c)).values}


def constructed(form, listing):
    from agents import AgentCategory
    def go():
        c = AgentCategory("x", FORMS[form](listing))
        if c.values != reference(listing) or c.size() != len(listing):
            return "a category made of %s with the values %s has the values %s" % (form, listing, c.values)
    r = engine.run(go)
    return "a category made of %s with the values %s: %s" % (form, listing, r.text) if isinstance(r, engine.Raised) else r


def shards(tier):
    out = []
    for i, s in enumerate(STARTS):
        for j in range(len(System_ops_of(s))):
            out.append({"kind": "sequences", "start": i, "first": j, "depth": 4 if tier == "thorough" else 3 - (i == 3)})
            out.append({"kind": "sequences", "start": i, "first": j, "depth": 3 if tier == "thorough" else 2, "naming": "same"})
    top = 6 if tier == "thorough" else 5
    for n in range(top + 1):
        out.append({"kind": "states", "size": n})
    for c in crowds(tier) + wide(tier):
        out.append({"kind": "crowd", "cats": c})
    for c in crowds(tier)[:2] + wide(tier)[:3]:
        out.append({"kind": "crowd", "cats": c, "naming": "same"})
    return out


def System_ops_of(start):
    """The operations enabled in a start state depend only on its sizes."""
    class Dummy(System):
        def __init__(self):
            self.real = [None]
            self.ref = [[reference(c) for c in start]]
    return Dummy().ops()


def explore(shard, ctx):
    if shard["kind"] == "crowd":
        return crowded(shard["cats"], ctx, shard.get("naming", "own"))
    if shard["kind"] == "states":
        for a in dom.multisets([-2, 0, 1, 1.5], shard["size"], shard["size"]):
            for b in dom.multisets([-1, 3], 0, 3):
                for listing in {tuple(a), tuple(reversed(a)), a[1:] + a[:1]}:
                    for form in FORMS:
                        msg = constructed(form, listing)
                        if msg:
                            ctx.fail({"form": form, "listing": listing}, msg)
                    base = System([listing, b])
                    ctx.states += 1
                    msg = step(base, ("empty", 0))
                    if msg:
                        ctx.fail({"start": [listing, b], "ops": [["empty", 0]]}, "market %s: %s" % ([listing, b], msg))
                    for op in base.ops():
                        s = System([listing, b])
                        ctx.transitions += 1
                        ctx.traces += 1
                        msg = step(s, op)
                        ctx.outcome(repr(s.ref))
                        if msg:
                            ctx.fail({"start": [listing, b], "ops": [op]}, "market %s, after %s: %s" % ([listing, b], op, msg))
        return
    start, naming = STARTS[shard["start"]], shard.get("naming", "own")
    first = System_ops_of(start)[shard["first"]]
    def rec(prefix, depth):
        s = System(start, naming)
        for op in prefix[:-1]:
            s.apply(op)
        s.compare()              # the queries between two operations must not influence what follows
        ctx.states += 1
        ctx.transitions += 1
        ctx.traces += 1
        msg = step(s, prefix[-1])
        ctx.outcome(repr(s.ref))
        if msg:
            ctx.fail({"start": start, "ops": prefix, "naming": naming}, "market %s, after %s: %s" % (start, prefix, msg))
            return
        if depth > 1:
            for op in s.ops():
                rec(prefix + [op], depth - 1)
    rec([first], shard["depth"])
    ctx.sample({"start": start, "first operation": first, "depth": shard["depth"]})


def replay(s, ctx):
    if "crowd" in s:
        return crowded(s["crowd"], ctx, s.get("naming", "own"))
    if "form" in s:
        msg = constructed(s["form"], tuple(s["listing"]))
        if msg:
            ctx.fail(s, msg)
        return
    system = System(s["start"], s.get("naming", "own"))
    for op in s["ops"]:
        op = tuple(tuple(x) if isinstance(x, list) else x for x in op)
        msg = step(system, op)
        if msg:
            ctx.fail(s, msg)
            return
