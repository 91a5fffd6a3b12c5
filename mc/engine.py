"""
Bounded explicit-state exploration engine.

A property module (mc/props/cNN.py) provides

    LEVEL_NOTE, TECHNIQUE          texts for the manifest
    shards(tier)                   a list of JSON-able shard descriptors, simplest first
    explore(shard, ctx)            enumerates EVERY scenario of the shard on the real code
    replay(scenario, ctx)          re-executes one scenario (used by --replay)

The engine runs all shards on a process pool, merges the counters, and writes the evidence file.
Nothing is sampled: a shard either completes or the run fails.
"""
import os, sys, json, time, signal, traceback, importlib, multiprocessing, resource
import concurrent.futures, concurrent.futures.process

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
EXEC_CPU_LIMIT = 20.0      # CPU seconds that one execution of the code under test may take
MAX_FAIL_PER_SHARD = 3
PROCS = int(os.environ.get("MC_PROCS", "0")) or min(8, os.cpu_count() or 8)


class ExecutionTimeout(BaseException):
    pass


def _on_prof(signum, frame):
    raise ExecutionTimeout("no result after %.0f CPU seconds" % EXEC_CPU_LIMIT)


class Ctx:
    """Counters and violations of one shard."""
    def __init__(self, prop, shard):
        self.prop = prop
        self.shard = shard
        self.states = 0            # distinct configurations (market profiles, container states, price states ...)
        self.transitions = 0       # operations / executions / misreports applied to those states on the real code
        self.traces = 0            # reference-model results compared with a result of the real code
        self.outcomes = set()      # hashes of distinct observed outcomes
        self.fails = []
        self.samples = []
        self.notes = {}

    def fail(self, scenario, message):
        self.fails.append({"scenario": scenario, "message": message})
        if len(self.fails) >= MAX_FAIL_PER_SHARD or "ExecutionTimeout" in message:
            raise StopShard()          # another run without end costs as much again and tells nothing new

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def outcome(self, obj):
        if len(self.outcomes) < 5000:
            self.outcomes.add(hash(obj))

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n


class StopShard(Exception):
    pass


class Raised:
    """The result of an execution that raised an exception."""
    def __init__(self, exc):
        self.text = "%s: %s" % (type(exc).__name__, exc)
        self.type = type(exc).__name__
        self.exc = exc
    def __repr__(self):
        return "Raised(%s)" % self.text


def run(fn, *args, **kwargs):
    """Execute the code under test once; an exception or a run without end is returned as a Raised object."""
    signal.setitimer(signal.ITIMER_PROF, EXEC_CPU_LIMIT)
    try:
        return fn(*args, **kwargs)
    except ExecutionTimeout as e:
        return Raised(e)
    except StopShard:
        raise
    except (Exception, SystemExit, MemoryError, RecursionError) as e:
        return Raised(e)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def prepare():
    """Make the code of /repo importable, deterministic and quiet."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    signal.signal(signal.SIGPROF, _on_prof)
    # An unbounded loop that allocates must fail as MemoryError and not take the machine down.
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    _memoize_linprog()


def _memoize_linprog():
    """scipy's linprog is outside the code under test; identical calls get identical (copied) results."""
    import scipy.optimize as so, copy
    if getattr(so.linprog, "_mc", False):
        return
    orig, cache = so.linprog, {}
    def linprog(*args, **kwargs):
        key = repr((args, sorted(kwargs.items(), key=str)))
        if key not in cache:
            cache[key] = orig(*args, **kwargs)
        result = copy.copy(cache[key])
        try:
            result.x = result.x.copy()
        except Exception:
            pass
        return result
    linprog._mc = True
    so.linprog = linprog


_module = None
def _init_worker(prop):
    global _module
    devnull = open(os.devnull, "w")
    sys.stdout = devnull          # the modules of the repository print on import and while running
    prepare()
    try:
        _module = importlib.import_module("mc.props." + prop.lower())
    except BaseException:
        _module = traceback.format_exc()


def _work(item):
    index, shard = item
    ctx = Ctx(_prop, shard)
    error = None
    t0 = time.time()
    if isinstance(_module, str):
        return {"index": index, "error": _module, "ctx": None, "wall": 0}
    try:
        _module.explore(shard, ctx)
    except StopShard:
        pass
    except BaseException:
        error = traceback.format_exc()
    return {"index": index, "error": error, "wall": time.time() - t0,
            "ctx": {k: getattr(ctx, k) for k in ("states", "transitions", "traces", "outcomes", "fails", "samples", "notes")}}


_prop = None

def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path)).get("findings", [])


def main(prop, tier, replay=None):
    global _prop
    _prop = prop
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    if replay:
        return do_replay(prop, replay)
    real_stdout = sys.stdout
    sys.stdout = open(os.devnull, "w")
    prepare()
    import_error = None
    try:
        module = importlib.import_module("mc.props." + prop.lower())
        shards = module.shards(tier)
    except BaseException:
        import_error = traceback.format_exc()
    sys.stdout = real_stdout
    if import_error:
        return report_violation(prop, tier, seed, {"scenario": {"kind": "import"}, "message": "the code cannot be loaded:\n" + import_error}, None, t0)
    # VERIF_SEED is recorded only: every shard is explored completely, so there is no random choice to seed.
    mp = multiprocessing.get_context("fork")
    total = {"states": 0, "transitions": 0, "traces": 0}
    outcomes, fails, errors, samples, notes, done = set(), [], [], {}, {}, 0
    slow = []
    pool = concurrent.futures.ProcessPoolExecutor(PROCS, mp_context=mp, initializer=_init_worker, initargs=(prop,))
    try:
        futures = [pool.submit(_work, item) for item in enumerate(shards)]
        for future in concurrent.futures.as_completed(futures):
            r = future.result()
            done += 1
            if r["error"]:
                errors.append((r["index"], r["error"]))
                if r["ctx"] is None:
                    break
            c = r["ctx"]
            slow.append((r["wall"], r["index"]))
            for k in total:
                total[k] += c[k]
            outcomes |= c["outcomes"]
            for k, v in c["notes"].items():
                notes[k] = notes.get(k, 0) + v
            if c["samples"]:
                samples[r["index"]] = c["samples"]
            for f in c["fails"]:
                fails.append((r["index"], f))
            if len(fails) >= 6 or any("ExecutionTimeout" in f["message"] for index, f in fails):
                break
    except concurrent.futures.process.BrokenProcessPool as e:
        errors.append((0, "a worker process died while it executed the code: %s" % e))
    finally:
        for process in list((pool._processes or {}).values()):
            process.kill()
        pool.shutdown(wait=False, cancel_futures=True)
    if os.environ.get("MC_VERBOSE"):
        for w, i in sorted(slow, reverse=True)[:8]:
            print("   shard %d %.1fs %s" % (i, w, json.dumps(shards[i])[:150]))
    known = load_known()
    listed, new = [], []
    for index, f in sorted(fails, key=lambda x: (len(json.dumps(x[1]["scenario"], default=str)), x[0])):
        hit = [k for k in known if k.get("property") == prop and k.get("scenario") == json.loads(json.dumps(f["scenario"], default=str))]
        (listed if hit else new).append((index, f))
    coverage = {
        "states": total["states"], "transitions": total["transitions"],
        "traces_validated_against_impl": total["traces"],
        "distinct_outcomes": len(outcomes),
        "shards_completed": done, "shards_total": len(shards),
        "exhausted": done == len(shards) and not errors and not fails,
        "samples": [s for i in sorted(samples) for s in samples[i]][:8],
        "bounds": getattr(module, "BOUNDS", None) or (module.__doc__ or ""),
    }
    if notes:
        coverage["breakdown"] = dict(sorted(notes.items()))
    write_evidence(prop, tier, seed, coverage, t0)
    for index, f in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, f["message"].replace("\n", " ")[:300]))
    print("%s %s: states=%d transitions=%d model-vs-code comparisons=%d distinct outcomes=%d shards=%d/%d wall=%.1fs" % (
        prop, tier, total["states"], total["transitions"], total["traces"], len(outcomes), done, len(shards), time.time() - t0))
    if new:
        index, f = new[0]
        return report_violation(prop, tier, seed, f, shards[index], t0)
    if errors:
        index, text = errors[0]
        # The oracle tripped over a result it cannot even interpret (wrong type, missing attribute ...).
        return report_violation(prop, tier, seed, {"scenario": {"kind": "shard", "shard": shards[index]},
                                "message": "the result of the code cannot be interpreted:\n" + text}, shards[index], t0)
    return 0


def write_evidence(prop, tier, seed, coverage, t0):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path, "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
                   "coverage": coverage, "wall_s": round(time.time() - t0, 2)}, f, indent=1, default=str)


def report_violation(prop, tier, seed, f, shard, t0):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + ".json")
    with open(path, "w") as g:
        json.dump({"property": prop, "tier": tier, "seed": seed, "scenario": f["scenario"], "message": f["message"], "shard": shard,
                   "how": "bash /verif/check.sh %s replay %s" % (prop, path)}, g, indent=1, default=str)
    if not os.path.exists(os.path.join(VERIF, "evidence", prop + ".json")):
        write_evidence(prop, tier, seed, {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [f["scenario"]]}, t0)
    print("scenario: " + json.dumps(f["scenario"], default=str)[:2000])
    print("problem:  " + f["message"][:3000])
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def do_replay(prop, path):
    rec = json.load(open(path))
    real_stdout = sys.stdout
    sys.stdout = open(os.devnull, "w")
    prepare()
    try:
        module = importlib.import_module("mc.props." + prop.lower())
    except BaseException:
        sys.stdout = real_stdout
        traceback.print_exc()
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    ctx = Ctx(prop, rec.get("shard"))
    try:
        if rec["scenario"].get("kind") == "shard":
            module.explore(rec["scenario"]["shard"], ctx)
        else:
            module.replay(rec["scenario"], ctx)
            if not ctx.fails and rec.get("shard") is not None:
                # depends on what ran before it in the same process: run the whole shard
                module.explore(rec["shard"], ctx)
    except StopShard:
        pass
    except Exception:
        ctx.fails.append({"scenario": rec["scenario"], "message": traceback.format_exc()})
    sys.stdout = real_stdout
    for f in ctx.fails:
        print("scenario: " + json.dumps(f["scenario"], default=str)[:2000])
        print("problem:  " + f["message"][:3000])
    if ctx.fails:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("not reproduced")
    return 0
