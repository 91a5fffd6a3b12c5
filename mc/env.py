"""
The environment of the experiment scripts as nondeterminism that is enumerated, not sampled:
random.uniform, random.shuffle and the other generators take their results from a Choices object, and the results table
(external package tee_table) is recorded in memory.  install() must run before the modules of the repository are imported.
"""
import random, itertools, math, os, sys, tempfile
from . import engine


class Choices:
    """One path through the tree of choices: follows the prefix, then always takes alternative 0."""
    def __init__(self, prefix=()):
        self.prefix, self.trace, self.log = list(prefix), [], []
    def pick(self, n, what=None):
        i = self.prefix[len(self.trace)] if len(self.trace) < len(self.prefix) else 0
        i = min(i, n - 1)
        self.trace.append((i, n))
        return i


def paths(execute, fixed=()):
    """Depth-first enumeration of all paths of choices below the fixed prefix: yields (choices made, result of execute)."""
    prefix = list(fixed)
    while True:
        c = Choices(prefix)
        result = execute(c)
        yield [i for i, _ in c.trace], result, c
        trace = c.trace
        while len(trace) > len(fixed) and trace[-1][0] + 1 >= trace[-1][1]:
            trace = trace[:-1]
        if len(trace) <= len(fixed):
            return
        prefix = [i for i, _ in trace[:-1]] + [trace[-1][0] + 1]


def deviations(execute, pattern, bound=1):
    """All paths that differ from a periodic base path in at most `bound` choices (for histories that are too long to
    enumerate completely): yields (choices made, result of execute)."""
    def base(length):
        return [pattern[i % len(pattern)] for i in range(length)]
    def below(fixed, first, left):
        n = max(2000, len(fixed))
        c = Choices(fixed + base(n)[len(fixed):])
        result = execute(c)
        made = [i for i, _ in c.trace]
        yield made, result, c
        if left:
            for k in range(first, len(c.trace)):
                for j in range(c.trace[k][1]):
                    if j != made[k]:
                        yield from below(made[:k] + [j], k + 1, left - 1)
    yield from below([], 0, bound)


current = None         # the Choices object of the run
grid = [0.0, 1.0]      # positions inside the interval of a uniform draw
tables = []


def uniform(a, b):
    t = grid[current.pick(len(grid))]
    v = a + (b - a) * t
    current.log.append(("uniform", (a, b), v))
    return v


def variate(name, values):
    def f(*args, **kwargs):
        v = values[current.pick(len(values))]
        current.log.append((name, tuple(args) + tuple(kwargs.values()), v))
        return v
    return f


def arrangements(n):
    """all permutations of up to 4 positions; of more: identity, reversal, rotations and all transpositions of neighbours"""
    base = list(range(n))
    if n <= 4:
        return list(itertools.permutations(base))
    out = [tuple(base), tuple(reversed(base))] + [tuple(base[k:] + base[:k]) for k in range(1, n)]
    for k in range(n - 1):
        p = base[:]; p[k], p[k + 1] = p[k + 1], p[k]
        out.append(tuple(p))
    return out


shuffle_limit = None


def shuffle(x):
    perms = arrangements(len(x))
    if shuffle_limit:
        perms = perms[:1] + perms[-(shuffle_limit - 1):]
    p = perms[current.pick(len(perms))]
    old = list(x)
    x[:] = [old[i] for i in p]
    current.log.append(("shuffle", tuple(old), tuple(x)))


class Table:
    """Stands for the external class TeeTable: keeps the rows in memory."""
    def __init__(self, columns, csvFileName):
        self.columns, self.csvFileName, self.rows, self.finished = list(columns), csvFileName, [], False
        tables.append(self)
    def add(self, dataRow):
        self.rows.append({c: dataRow.get(c) for c in self.columns})
    def done(self):
        self.finished = True


VARIATES = {"normalvariate": [0.0, -2.6, 2.6, 11.2], "gammavariate": [0.0, 0.7, 5.5], "paretovariate": [1.0, 1.7, 20.2]}


def install():
    import tee_table.tee_table
    tee_table.tee_table.TeeTable = Table
    random.uniform, random.shuffle = uniform, shuffle
    for name, values in VARIATES.items():
        setattr(random, name, variate(name, values))
    stock = os.path.join(engine.REPO, "stock")
    if stock not in sys.path:
        sys.path.append(stock)


def play(choices, fn):
    """Runs fn in an empty scratch directory with the given choices -> (result or Raised, tables)"""
    global current
    current = choices
    del tables[:]
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="mc-env-") as d:
        os.chdir(d)
        try:
            r = engine.run(lambda: fn(d))
        finally:
            os.chdir(cwd)
    return r, list(tables)


def near(value, exact, digits):
    """value is exact, up to one unit of the last digit that is shown"""
    try:
        return abs(float(value) - exact) <= 1.01 * 10 ** -digits + 1e-9 * abs(exact)
    except (TypeError, ValueError):
        return False
