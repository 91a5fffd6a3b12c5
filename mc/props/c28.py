"""C28: auctions that run at the same time do not disturb each other.  Stateless exploration of thread schedules on the
real code, with line granularity: for every pair of operations on a shared market (and a shared recipe tree), the first
is preempted at EVERY line it executes.  Preemption bound 1: the other one then runs to its end.  Bound 2, on
the smallest market: the other one is preempted in turn at every line (pairs of long operations: at about 60 of its
lines), the first one finishes, then the other (real threads under a controlled scheduler).  On the smallest markets the
first is also preempted before every single bytecode instruction.  In every schedule both give the results that they give alone and nothing else changes."""
import sys, os, threading, copy, importlib.machinery, importlib.util, logging
from mc import engine

# values, recipe, tree, agents per category; then another recipe, tree and agents per category for the same market
WORLDS = [
    (((9, 8), (-1, -2)), (1, 1), [0, [1, None]], [1, 1], (2, 1), [1, [0, None]], [1, 2]),
    (((19, 18, 17), (-1, -2, -3), (-5, -6)), (1, 1, 1), [0, [1, None, 2, None]], [1, 1, 1], (1, 1, 0), [0, [1, [2, None]]], [1, 2, 1]),
    (((17, 14, 13), (-1, -2, -3, -4, -5)), (1, 2), [0, [1, None]], [1, 2], (1, 1), [1, [0, None]], [1, 1]),
    (((27, 21, 17), (-4, -5), (-2, -3), (-1, -2)), (1, 1, 1, 1), [0, [1, None, 2, [3, None]]], [1, 1, 1, 1], (1, 0, 1, 1), [0, [2, [3, [1, None]]]], [1, 1, 1, 1]),
    (((6, 5, 5), (-4, -5)), (1, 1), [1, [0, None]], [1, 1], (2, 1), [0, [1, None]], [1, 1]),
    (((9,), (-1,)), (1, 1), [0, [1, None]], [1, 1], (1, 0), [1, None], [1, 1]),
]
TINY = 5
KINDS = {"": "the same request", "r": "another recipe or tree on the same market", "m": "another market"}


class CachedLoader(importlib.machinery.SourceFileLoader):
    code = {}
    def get_code(self, name):
        if name not in self.code:
            self.code[name] = super().get_code(name)
        return self.code[name]


class Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        f = os.path.join(engine.REPO, name + ".py")
        if path is None and "." not in name and os.path.isfile(f):
            return importlib.util.spec_from_file_location(name, f, loader=CachedLoader(name, f))
        return None


def fresh():
    """Import the library anew, as in a new process: no schedule sees what an earlier one has cached."""
    if Finder not in sys.meta_path:
        sys.meta_path.insert(0, Finder)
    for name in [n for n, m in sys.modules.items() if n == "mc.auct" or (getattr(m, "__file__", None) or "").startswith(engine.REPO + os.sep)]:
        if name in ("__main__", "__mp_main__"):
            continue
        del sys.modules[name]
        logging.getLogger(name).handlers.clear()
    import mc
    if hasattr(mc, "auct"):
        del mc.auct
    from mc import auct
    mc.auct = auct


def operations(world, kind=""):
    cats, recipe = world[0], world[4] if kind == "r" else world[1]
    ops = ["TR", "TR0", "AS", "RI", "OPT", "TREE-I"]
    if set(world[1]) == {1}:
        ops += ["RT", "TREE"]
    if set(recipe) == {1} and len(recipe) == 2:
        ops += ["MC", "MCN"]
    return ops


class View:
    """A market with a recipe and a tree."""
    def __init__(self, m, recipe, struct, counts):
        import recipetree, recipetree_integer
        self.m = m
        self.recipe, self.struct, self.counts = list(recipe), copy.deepcopy(struct), list(counts)
        self.tree = recipetree.RecipeTree(self.m.categories, self.struct)
        self.tree_i = recipetree_integer.RecipeTree(self.m.categories, self.struct, self.counts)

    def state(self):
        from mc import auct
        return auct.snapshot(self.m), self.recipe, repr(self.struct), self.counts

    def op(self, name):
        """The operation as a function; its result is plain data."""
        from mc import auct
        if name == "OPT":
            def f():
                t, rest = self.m.optimal_trade(self.recipe)
                return [list(map(tuple, t.procurement_sets)), str(rest)]
        elif name in ("TREE", "TREE-I"):
            t = self.tree if name == "TREE" else self.tree_i
            def f():
                c = t.optimal_trade_with_counters()
                return [repr(t.optimal_trade()), c[1:], t.num_of_deals(), t.largest_categories(indices=True), t.paths_to_leaf(), t.recipes(), t.optimal_trade_GFT()]
        elif name in ("RT", "RI"):
            def f():
                o = getattr(auct, name)(self.m, self.struct, self.counts)
                return [o.num_of_deals(), list(o.prices or ()), [list(c.values) for c in o.categories], o.gain_from_trade(), repr(o)]
        else:
            def f():
                o = getattr(auct, name)(self.m, self.recipe)
                return [o.num_of_deals(), list(o.prices or ()), [list(c.values) for c in o.categories], o.gain_from_trade(), repr(o)]
        return f


class Shared:
    def __init__(self, world, kind=""):
        fresh()
        from mc import auct
        cats, recipe, struct, counts, recipe2, struct2, counts2 = world
        self.first = View(auct.market(cats), recipe, struct, counts)
        self.second = (self.first if kind == "" else View(self.first.m, recipe2, struct2, counts2) if kind == "r"
                       else View(auct.market([[v + 2 for v in c] + [c[-1]] for c in cats]), recipe, struct, counts))

    def state(self):
        return self.first.state(), self.second.state()


_REPO = os.path.realpath(engine.REPO) + os.sep


def mine(frame):
    f = frame.f_code.co_filename
    return f.startswith(engine.REPO + os.sep) or f.startswith(_REPO)


def count_lines(f, unit="line"):
    n = [0]
    def local(frame, event, arg):
        if event == unit:
            n[0] += 1
        return local
    def call(frame, event, arg):
        if mine(frame):
            frame.f_trace_opcodes = unit == "opcode"
            return local
        return None
    sys.settrace(call)
    try:
        f()
    finally:
        sys.settrace(None)
    return n[0]


def run_inline(a, b, k, unit="line"):
    """a is stopped before its k-th line (or instruction) and b runs to its end."""
    n, out = [0], []
    def local(frame, event, arg):
        if event == unit:
            n[0] += 1
            if n[0] == k:
                sys.settrace(None)
                frame.f_trace = None
                out.append(engine.run(b))
        return local if not out else None
    def call(frame, event, arg):
        if mine(frame) and not out:
            frame.f_trace_opcodes = unit == "opcode"
            return local
        return None
    sys.settrace(call)
    try:
        ra = engine.run(a)
    finally:
        sys.settrace(None)
    if not out:
        out.append(engine.run(b))
    return ra, out[0]


def run_threads(a, b, k, j):
    """a runs k-1 lines, b runs j-1 lines, a runs to its end, b runs to its end."""
    go = [threading.Semaphore(0), threading.Semaphore(0)]
    done = threading.Semaphore(0)
    result = [None, None]
    finished = [False, False]
    def body(me, f, limit):
        other = 1 - me
        n = [0]
        def local(frame, event, arg):
            if event == "line":
                n[0] += 1
                if n[0] == limit:
                    go[other].release()
                    go[me].acquire()
                    sys.settrace(None)
                    return None
            return local
        go[me].acquire()
        sys.settrace(lambda frame, event, arg: local if mine(frame) and n[0] < limit else None)
        try:
            result[me] = f()
        except BaseException as e:
            result[me] = engine.Raised(e)
        finally:
            sys.settrace(None)
        finished[me] = True
        if finished[other]:
            done.release()
        else:
            go[other].release()
    ts = [threading.Thread(target=body, args=(0, a, k), daemon=True), threading.Thread(target=body, args=(1, b, j), daemon=True)]
    for t in ts:
        t.start()
    go[0].release()
    if not done.acquire(timeout=60):
        return engine.Raised(RuntimeError("the two operations block each other")), None
    for t in ts:
        t.join()
    return tuple(result)


def shards(tier):
    out = []
    for w in range(len(WORLDS)):
        if w == 3 and tier != "thorough":
            continue
        for kind in KINDS:
            if kind and w > 1 and tier != "thorough":
                continue
            for x in operations(WORLDS[w]):
                for y in operations(WORLDS[w], kind):
                    out.append({"world": w, "a": x, "b": y, "kind": kind, "bound": 1, "part": 0, "parts": 1})
                    # before every instruction: each operation with itself and the next kind of operation; thorough: all pairs
                    near = operations(WORLDS[w]).index(x), operations(WORLDS[w], kind).index(y) if y in operations(WORLDS[w]) else -9
                    if (w == TINY and not kind and near[1] - near[0] in (0, 1)) or (tier == "thorough" and w in (0, TINY) and kind != "r"):
                        for part in range(4):
                            out.append({"world": w, "a": x, "b": y, "kind": kind, "bound": "opcode", "part": part, "parts": 4})
                    if w == TINY and not kind and (tier == "thorough" or (x == "OPT" and y in ("OPT", "MC", "TREE"))):
                        for part in range(4):
                            out.append({"world": w, "a": x, "b": y, "kind": kind, "bound": 2, "part": part, "parts": 4})
    return out


def check(w, kind, x, y, k, j, alone, unit="line"):
    s = Shared(WORLDS[w], kind)
    before = repr(s.state())
    a, b = s.first.op(x), s.second.op(y)
    got = run_inline(a, b, k, unit) if j is None else run_threads(a, b, k, j)
    for who, name, r, want in (("first", x, got[0], alone[0]), ("second", y, got[1], alone[1])):
        if repr(r) != want:
            return "the %s operation %s gives %r, but alone it gives %s" % (who, name, r, want)
    if repr(s.state()) != before:
        return "the market or the recipe has changed to %s" % (s.state(),)
    return None


def solo(w, kind, x, y):
    return repr(engine.run(Shared(WORLDS[w], kind).first.op(x))), repr(engine.run(Shared(WORLDS[w], kind).second.op(y)))


def explore(shard, ctx):
    w, kind, x, y = shard["world"], shard["kind"], shard["a"], shard["b"]
    alone = solo(w, kind, x, y)
    unit = "opcode" if shard["bound"] == "opcode" else "line"
    count_lines(Shared(WORLDS[w], kind).first.op(x), unit)          # the first run of a function only switches the tracing of its instructions on
    na, nb = count_lines(Shared(WORLDS[w], kind).first.op(x), unit), count_lines(Shared(WORLDS[w], kind).second.op(y), unit)
    ctx.note("%ss of the first operations" % unit, na)
    ctx.outcome(alone[0])
    for k in range(1 + shard["part"], na + 1, shard["parts"]):
        # with the bound 2, pairs of long operations are preempted at about 60 evenly spaced lines of the second one
        js = [None] if shard["bound"] in (1, "opcode") else range(1, nb + 1, 1 if na * nb <= 40000 else max(1, nb // 60))
        for j in js:
            ctx.states += 1
            ctx.transitions += 2
            ctx.traces += 1
            msg = check(w, kind, x, y, k, j, alone, unit)
            if msg:
                ctx.fail({"world": w, "kind": kind, "a": x, "b": y, "k": k, "j": j, "unit": unit}, "market %s: %s preempted before its %s %d%s, the second is %s: %s" % (
                    WORLDS[w][0], x, unit, k, "" if j is None else ", and %s before its line %d" % (y, j), KINDS[kind], msg))
    ctx.sample({"world": w, "first": x, "second": y, "the second is": KINDS[kind], unit + "s of the first": na, unit + "s of the second": nb, "preemptions": shard["bound"]})


def replay(s, ctx):
    unit = s.get("unit", "line")
    count_lines(Shared(WORLDS[s["world"]], s["kind"]).first.op(s["a"]), unit)
    msg = check(s["world"], s["kind"], s["a"], s["b"], s["k"], s["j"], solo(s["world"], s["kind"], s["a"], s["b"]), unit)
    if msg:
        ctx.fail(s, msg)
