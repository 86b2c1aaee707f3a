"""Auctions are pure functions of the market: repeatable, order-independent, free of side effects, safe to interleave."""
import copy, decimal, gc, locale, logging, os, random, signal, sys, threading, warnings
from fractions import Fraction as F
from .. import core, gen as G, sut, pristine

ID = "P12"
CASES = {"quick": 16000, "thorough": 500000}
FILES = ["ascending_auction_protocol.py", "trade_reduction_protocol.py", "mcafee_protocol.py", "ascending_auction_recipetree_protocol.py",
         "ascending_auction_recipetree_integer_protocol.py", "markets.py", "agents.py", "trade.py", "recipetree.py", "recipetree_integer.py", "prices.py", "prices_integer.py"]
RULE = "a case runs one auction at least six times under changed circumstances; non-trivial when at least one deal is made; distinct by mechanism, shape of the market and deals"
ASSUMPTIONS = ["Concurrent calls use separate market objects; the interpreter's switch interval is lowered to force interleavings."]
REQUIRED = {"recipe edited in place": 500, "surroundings compared": 500, "unusual settings": 500, "counts compared": 200, "after a failed request": 300, "audit events seen": 50, "repeat": 500, "order": 500, "log level": 300, "other names": 500, "after other auctions": 500, "outcome kept": 500, "threads": 50, "in a fresh process": 500, "after relatives in a fresh process": 500}


def gen(rng, i, tier):
    if rng.random() < .5: c = G.single_case(rng, tier, log=False, small=rng.random() < .3)
    else: c = G.tree_case(rng, tier, log=False, small=rng.random() < .3)
    c["sub"] = rng.randrange(1 << 30)
    if rng.random() < .3: c["prior"] = [relative(rng, c, tier) for _ in range(rng.randint(1, 3))]
    return c


def relative(rng, case, tier):
    """Another auction that shares something with this one: its recipes' lengths, its names, its number of categories, its market."""
    c = copy.deepcopy(case); c.pop("sub", None); c.pop("prior", None)
    n = len(c["vals"]); k = rng.random()
    if sut.is_tree(c):
        if k < .4:                                       # the same tree with its categories renumbered
            perm = list(range(n)); rng.shuffle(perm)
            def ren(x): return None if x is None else [perm[y] if j % 2 == 0 else ren(y) for j, y in enumerate(x)]
            c["struct"] = ren(c["struct"])
            if rng.random() < .5:
                v = [None] * n
                for j in range(n): v[perm[j]] = c["vals"][j]
                c["vals"] = v
                if c.get("counts"): c["counts"] = [c["counts"][perm.index(j)] for j in range(n)]
        elif k < .6:                                     # another tree over the same market
            c["struct"] = G.tree(rng, n, n)
        elif k < .75: c["vals"] = [[x + 1 for x in v] for v in c["vals"]]
        elif k < .85 and c["mech"] == "TI": c["counts"] = [rng.choice([1, 2, 3]) for _ in range(n)]
        else: c["vals"] = [v[:-1] for v in c["vals"]]
        if rng.random() < .2: c["mech"] = "TI" if c["mech"] == "TP" else "TP"
    else:
        if k < .3: c["recipe"] = c["recipe"][::-1]; c["vals"] = c["vals"][::-1] if rng.random() < .5 else c["vals"]
        elif k < .5: c["vals"] = [[x + 1 for x in v] for v in c["vals"]]
        elif k < .7: c["vals"] = [v[:-1] for v in c["vals"]]
        elif k < .85 and c["mech"] != "MC": c["recipe"] = [rng.choice([1, 1, 2, 3]) for _ in c["recipe"]]
        else: c["vals"] = [v + v[:1] for v in c["vals"]]
        if c["mech"] != "MC" and rng.random() < .3: c["mech"] = "AP" if c["mech"] == "TR" else "TR"; c["opts"] = {}
        if c["mech"] == "MC" and c["typ"] == "mixed": c["typ"] = "float"
    if c["typ"] in ("int", "npint") and any(x.denominator > 1 for v in c["vals"] for x in v): c["typ"] = "float"
    return c


def fresh(req):
    """Runs in a fork of a process that has only imported the code under test."""
    case, prior = req
    for c in prior:
        try: sut.call(c, sut.build_market(c))
        except Exception: pass
    return fingerprint(case, sut.call(case, sut.build_market(case)))


POOL = OTHER = None
# ---- what the code under test does to its surroundings
OUTSIDE = ("subprocess.", "os.system", "os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.chdir", "os.chmod", "os.chown", "os.link", "os.symlink", "os.truncate", "os.putenv", "os.unsetenv",
           "os.exec", "os.fork", "os.posix_spawn", "os.spawn", "os.kill", "shutil.", "socket.", "tempfile.", "urllib.", "ftplib.", "smtplib.", "sqlite3.", "signal.", "webbrowser.", "pty.", "fcntl.")
ARMED = None
AUDITED = 0


def audit(event, args):
    global AUDITED
    if ARMED is None: return
    AUDITED += 1
    if event == "open":
        path, mode, flags = (list(args) + [None] * 3)[:3]
        if (mode and any(c in str(mode) for c in "wax+")) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)):
            if not str(path).endswith(".pyc"): ARMED.append(f"opens {path!r} for writing")
    elif event.startswith(OUTSIDE): ARMED.append(f"{event}{args!r}"[:200])


def surroundings():
    """State of the process that is none of an auction's business."""
    root = logging.getLogger()
    return {"recursion limit": sys.getrecursionlimit(), "working directory": os.getcwd(), "numpy error mode": repr(sut.np.geterr()), "numpy print options": repr(sut.np.get_printoptions()),
            "decimal context": repr(decimal.getcontext()), "environment": dict(os.environ), "warning filters": repr(warnings.filters), "disabled logging": logging.root.manager.disable, "root logger": (root.level, len(root.handlers)),
            "loggers": tuple((l.name, l.level, len(l.handlers), l.disabled, l.propagate, tuple(h.level for h in l.handlers)) for l in sut.LOGGERS), "garbage collector": (gc.isenabled(), gc.get_threshold()), "locale": locale.setlocale(locale.LC_ALL),
            "threads": threading.active_count(), "standard output": (id(sys.stdout), id(sys.stderr), id(sys.stdin)), "import path": tuple(sys.path), "switch interval": sys.getswitchinterval(), "trace function": (sys.gettrace(), sys.getprofile()),
            "signal handlers": tuple(repr(signal.getsignal(x)) for x in (signal.SIGALRM, signal.SIGINT, signal.SIGTERM)), "exception hook": id(sys.excepthook), "integer digits": sys.get_int_max_str_digits(),
            "value bounds": (sut.agents.MAX_VALUE, sut.TR.MAX_VALUE, sut.MC.MAX_VALUE)}


def scramble(rng):
    """Unusual but harmless settings, so that whoever sets them to the usual ones is noticed; returns how to restore them."""
    old = (sys.getrecursionlimit(), sut.np.geterr(), sut.np.get_printoptions()["linewidth"], decimal.getcontext().prec, gc.isenabled(), gc.get_threshold(), sys.getswitchinterval(), list(warnings.filters), dict(os.environ))
    sys.setrecursionlimit(rng.randint(2500, 4000))
    sut.np.seterr(**{k: rng.choice(["ignore", "warn"]) for k in ("divide", "over", "under", "invalid")})
    sut.np.set_printoptions(linewidth=rng.randint(60, 200)); decimal.getcontext().prec = rng.randint(20, 60)
    gc.set_threshold(rng.randint(600, 2000), rng.randint(8, 15), rng.randint(8, 15))
    (gc.disable if rng.random() < .3 else gc.enable)()
    sys.setswitchinterval(rng.choice([.004, .006, .007]))
    warnings.resetwarnings(); warnings.filterwarnings("ignore", message="(?s)", category=Warning)
    for k in list(os.environ):
        if "THREADS" in k or k.startswith(("MKL", "OPENBLAS", "PYTHONWARN", "MPL")): del os.environ[k]
    def restore():
        sys.setrecursionlimit(old[0]); sut.np.seterr(**old[1]); sut.np.set_printoptions(linewidth=old[2]); decimal.getcontext().prec = old[3]
        (gc.enable if old[4] else gc.disable)(); gc.set_threshold(*old[5]); sys.setswitchinterval(old[6])
        warnings.filters[:] = old[7]
        if hasattr(warnings, "_filters_mutated"): warnings._filters_mutated()
        if dict(os.environ) != old[8]: os.environ.clear(); os.environ.update(old[8])
    return restore


def malformed(rng, case, m):
    """A request that is refused, or fails, on the same market; what it leaves behind must not matter."""
    n = m.num_categories; k = rng.randrange(6)
    try:
        if k == 0: sut.AP.budget_balanced_ascending_auction(m, [1] * (n + 1))
        elif k == 1: sut.TR.budget_balanced_trade_reduction(m, [1] * (n + 1))
        elif k == 2: sut.MC.mcafee_trade_reduction(m, [2] + [1] * (n - 1))
        elif k == 3: m.optimal_trade([1] * (n + 1))
        elif k == 4: sut.TP.budget_balanced_ascending_auction(m, [0, [n + 3, None]])
        else: sut.TI.budget_balanced_ascending_auction(m, [0, [n + 3, None]], [1] * n)
    except Exception: pass


def worker_init(wid):
    global POOL, OTHER
    import scipy.optimize, numpy                          # the code under test imports it on first use; not once per fork
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        scipy.optimize.linprog([1], A_eq=[[1]], b_eq=[1], method="revised simplex")      # (lazily loaded)
    POOL = pristine.Pristine(fresh)
    OTHER = pristine.Elsewhere("vmon.props.p12", "fresh", 1 + wid)
    sys.addaudithook(audit)


def fingerprint(case, t):
    return (t.num_of_deals(), None if t.prices is None else tuple(repr(p) for p in t.prices), tuple(tuple(repr(v) for v in c.values) for c in t.categories),
            str(t), repr(t.gain_from_trade()), repr(t.gain_from_trade(including_auctioneer=False)) if t.prices is not None else None,
            repr(t.optimal_trade()) if sut.is_tree(case) else None)


def same(a, b): return a == b


def snapshot(m): return [(c.name, [repr(v) for v in c.values]) for c in m.categories], m.num_categories


def first(case, ctx, m, arg, arg0, before):
    """The auction itself, with everything around it watched."""
    global ARMED
    random.seed(case["sub"]); st = random.getstate()
    filters = list(warnings.filters)
    around = surroundings(); ARMED = acts = []; a0 = AUDITED
    try: t0 = sut.call(case, m, arg); f0 = fingerprint(case, t0)
    finally: ARMED = None
    ctx.count("audit events seen", AUDITED - a0); ctx.count("surroundings compared")
    if acts: raise core.Violation("SIDE-EFFECT", f"during the auction: {acts[0]}")
    now = surroundings()
    for k in around:
        if around[k] != now[k] and k in ("warning filters", "environment"):       # not the work of a library that was loaded on first use
            warnings.filters[:] = filters; os.environ.clear(); os.environ.update(around["environment"])
            sut.call(case, m, arg); now = surroundings()
        if around[k] != now[k]: raise core.Violation("SIDE-EFFECT", f"the auction changed the {k}: {str(around[k])[:200]} -> {str(now[k])[:200]}")
    if snapshot(m) != before: raise core.Violation("MARKET-CHANGED", f"the auction changed the market it was given: {m}")
    if arg != arg0: raise core.Violation("ARGUMENT-CHANGED", f"the auction changed the recipe it was given: {arg}")
    if random.getstate() != st: raise core.Violation("RANDOM", "the auction consumed randomness")
    return t0, f0


def judge(case, ctx):
    rng = random.Random(case["sub"])
    m = sut.build_market(case)
    before = snapshot(m)
    arg = sut.recipe_obj(case) if not sut.is_tree(case) else copy.deepcopy(case["struct"])
    arg0 = copy.deepcopy(arg)
    if case.get("counts"):                               # the list of counts is the caller's
        k = list(case["counts"]); sut.TI.budget_balanced_ascending_auction(sut.build_market(case), copy.deepcopy(arg), k); ctx.count("counts compared")
        if k != list(case["counts"]): raise core.Violation("ARGUMENT-CHANGED", f"the auction changed the counts it was given, {case['counts']}, to {k}")
    restore = scramble(rng) if rng.random() < .5 else None
    try: t0, f0 = first(case, ctx, m, arg, arg0, before)
    finally:
        if restore: restore(); ctx.count("unusual settings")
    # the same question again, on the same object
    f1 = fingerprint(case, sut.call(case, m, arg)); ctx.count("repeat")
    if f1 != f0: raise core.Violation("NOT-REPEATABLE", f"two runs on the same market differ: {f0[3]!r} / {f1[3]!r}")
    # the order in which traders are listed does not matter
    c2 = copy.deepcopy(case)
    for v in c2["vals"]: rng.shuffle(v)
    if case["typ"] != "mixed":
        m2 = sut.build_market(c2)
        f2 = fingerprint(case, sut.call(c2, m2)); ctx.count("order")
        if f2 != f0: raise core.Violation("ORDER-DEPENDENT", f"listing the traders in another order changes the outcome: {f0[3]!r} / {f2[3]!r}")
    # what the categories are called does not matter
    if rng.random() < .4:
        names = G.names(rng, len(case["vals"])) or [rng.choice(["z", "a", "buyer", "seller", "mediator", "an importing wholesaler"]) + str(rng.choice([1, 1, 2])) for _ in case["vals"]]
        f6 = fingerprint(case, sut.call(case, sut.build_market({**case, "names": names}))); ctx.count("other names")
        if f6[:3] + f6[4:] != f0[:3] + f0[4:]: raise core.Violation("NAMES-MATTER", f"with categories called {names} the outcome differs: {f0[3]!r} / {f6[3]!r}")
    # nor does a request that failed
    if rng.random() < .3:
        malformed(rng, case, m); ctx.count("after a failed request")
        f7 = fingerprint(case, sut.call(case, m, arg))
        if f7 != f0: raise core.Violation("NOT-REPEATABLE", f"after a malformed request the outcome differs: {f0[3]!r} / {f7[3]!r}")
    # the recipe is what it says now, not what it said before
    if case["mech"] != "MC" and rng.random() < .3:
        a = list(copy.deepcopy(arg)); sut.call(case, m, a)
        if sut.is_tree(case): a[:] = G.tree(rng, len(case["vals"]), len(case["vals"]))
        else: a[:] = G.recipe(rng, len(a))
        if sut.is_tree(case) or any(a):
            f8 = fingerprint(case, sut.call(case, m, a)); f9 = fingerprint(case, sut.call(case, m, copy.deepcopy(a))); ctx.count("recipe edited in place")
            if f8 != f9: raise core.Violation("STALE", f"after the recipe list became {a} the outcome is {f8[3]!r}, with a new list {f9[3]!r}")
    # tracing does not matter
    if rng.random() < .3:
        sut.set_logging(rng.choice([logging.INFO, logging.DEBUG]))
        try: f3 = fingerprint(case, sut.call(case, sut.build_market(case)))
        finally: sut.set_logging(logging.WARNING)
        ctx.count("log level")
        if f3 != f0: raise core.Violation("TRACING-MATTERS", f"the outcome with tracing differs: {f0[3]!r} / {f3[3]!r}")
    # other calculations on the same market do not matter
    n = len(case["vals"])
    ones = [1] * n
    if not sut.is_tree(case): m.optimal_trade(sut.recipe_obj(case))
    m.optimal_trade(ones)
    sut.AP.budget_balanced_ascending_auction(m, ones)
    sut.TR.budget_balanced_trade_reduction(m, ones)
    if n == 2: sut.MC.mcafee_trade_reduction(m, ones)
    chain = None
    for j in reversed(range(n)): chain = [j, chain]
    if all(F(float(v)) == v for vs in case["vals"] for v in vs):       # the tree auctions' prices are floating-point numbers, and so must their values be
        sut.TP.budget_balanced_ascending_auction(m, chain)
        sut.TI.budget_balanced_ascending_auction(m, chain, [1 + (j % 2) for j in range(n)])
    for mod in (sut.recipetree, sut.recipetree_integer):
        tr = mod.RecipeTree(m.categories, chain)
        tr.optimal_trade(); tr.optimal_trade_with_counters(); tr.largest_categories(); tr.num_of_deals_explained([0] * n); tr.combined_values()
    str(m); m.clone(); m.get_highest_agents(ones); m.empty_agent_categories()
    if snapshot(m) != before: raise core.Violation("MARKET-CHANGED", f"auctions and optimal-trade calculations changed the market: {m}")
    t4 = sut.call(case, m, arg); f4 = fingerprint(case, t4); ctx.count("after other auctions")
    if f4 != f0: raise core.Violation("NOT-REPEATABLE", f"after other auctions the outcome differs: {f0[3]!r} / {f4[3]!r}")
    # an outcome, once returned, stays what it is: neither later auctions nor changes of the market reach it
    if fingerprint(case, t0) != f0: raise core.Violation("OUTCOME-CHANGED", f"an earlier outcome changed: {f0[3]!r} is now {str(t0)!r}")
    for c in m.categories: c.append(sut.conv(F(7), case["typ"] if case["typ"] != "mixed" else "float"))
    for c in m.categories:
        if c.size() > 1: c.remove_lowest_agent()
    ctx.count("outcome kept")
    if fingerprint(case, t0) != f0: raise core.Violation("OUTCOME-CHANGED", f"changing the market changed the outcome {f0[3]!r}")
    m5 = sut.build_market(case); t5 = sut.call(case, m5)
    for c in t5.categories: c.append(sut.conv(F(3), "float"))
    if snapshot(m5) != before: raise core.Violation("MARKET-CHANGED", "changing the outcome changed the market")
    if case.get("prior") and POOL is not None:
        kind, a = OTHER.ask((case, [])); kind2, b = POOL.ask((case, case["prior"]))
        if kind == "err" or kind2 == "err": raise core.Violation("CRASH", f"the auction fails in a fresh process: {a if kind == 'err' else b}")
        ctx.count("in a fresh process"); ctx.count("after relatives in a fresh process")
        if a != f0: raise core.Violation("HISTORY-MATTERS", f"in a fresh process (with another hash seed) the outcome is {a[3]!r}, here {f0[3]!r}")
        if a != b: raise core.Violation("HISTORY-MATTERS", f"in a fresh process the outcome is {a[3]!r}, after {len(case['prior'])} other auctions {b[3]!r}")
    if rng.random() < .03: threads(case, f0, ctx, rng)
    if f0[0]: ctx.sig(case["mech"], case["typ"], tuple(map(len, case["vals"])), f0[0], repr(arg0))


def threads(case, f0, ctx, rng):
    """The same auction from several threads at once, together with different ones."""
    others = [G.tree_case(rng, "quick", log=False, small=True) for _ in range(3)] + [G.single_case(rng, "quick", log=False, small=True) for _ in range(3)]
    jobs = [(case, f0)] * 2 + [(c, fingerprint(c, sut.call(c, sut.build_market(c)))) for c in others]
    bad = []; start = threading.Barrier(len(jobs))
    def detail(c):
        """What the data structures answer about the same market."""
        m = sut.build_market(c)
        if not sut.is_tree(c): t, r = m.optimal_trade(sut.recipe_obj(c)); return repr((t.procurement_sets, str(r)))
        mod = sut.recipetree if c["mech"] == "TP" else sut.recipetree_integer
        def make(): return mod.RecipeTree(m.categories, c["struct"]) if c["mech"] == "TP" else mod.RecipeTree(m.categories, c["struct"], sut.effective_counts(c))
        return repr((make().optimal_trade(), make().optimal_trade_with_counters(), make().recipes(), make().paths_to_leaf(), make().largest_categories(), make().num_of_deals_explained([F(1)] * len(c["vals"]))))
    jobs = [(c, f, detail(c)) for c, f in jobs]
    def work(c, f, d):
        try:
            start.wait(30)
            for _ in range(5):
                g = fingerprint(c, sut.call(c, sut.build_market(c)))
                if g != f: bad.append(f"{c['mech']}: {f[3]!r} / {g[3]!r}")
                for _ in range(4):
                    e = detail(c)
                    if e != d: bad.append(f"{c['mech']}: {d[:300]} / {e[:300]}")
        except Exception as e: bad.append(f"{type(e).__name__}: {e}")
    old = sys.getswitchinterval(); sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=j) for j in jobs]
        for t in ts: t.start()
        for t in ts: t.join(120)
        if any(t.is_alive() for t in ts): raise core.CaseTimeout()
    finally: sys.setswitchinterval(old)
    ctx.count("threads")
    if bad: raise core.Violation("THREADS", f"concurrent auctions disturb each other: {bad[0]}")


def smaller(case):
    for j in range(len(case.get("prior") or [])):
        c = copy.deepcopy(case); del c["prior"][j]; yield c
    yield from G.smaller(case)
