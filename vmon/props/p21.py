"""Experiment tables state the means of exactly the runs that were made, on markets of the requested size and range."""
import collections, copy, csv, importlib, os, random, re, shutil, sys, tempfile
from fractions import Fraction as F
from .. import core, gen as G, sut, refs

ID = "P21"
CASES = {"quick": 4000, "thorough": 60000}
FILES = ["experiment.py", "experiment_comparing_sbb.py", "experiment_ascending_auction_recipetree_random.py", "experiment_ascending_auction_recipetree_stock.py",
         "experiment_ascending_auction_recipetree_integer_random.py", "experiment_ascending_auction_recipetree_integer_stock.py", "stock/experiment_stock.py",
         "stock/experiment_compare_iterations_autions.py", "stock/experiment_compare_iterations_autions_without_mcafee.py", "stock/experiment_compare_sbb_shufled_stock.py"]
RULE = "a case is one experiment run to completion into a scratch file; distinct by experiment, recipe, sizes, iterations and resulting counts"
ASSUMPTIONS = ["The auctions called by the experiment are wrapped to record every market and trade; the optimum of each recorded market is recomputed independently (tree experiments: number of deals and gain; least and most deals per recipe come from the tree under test, judged by P08).",
               "Experiments on stock prices are run with at most as many traders as there are prices.", "Tables round or truncate; the last printed digit is tolerated."]
REQUIRED = {"experiment": 100, "comparing_sbb": 80, "recipetree_random": 80, "recipetree_integer_random": 80, "recipetree_stock": 80, "recipetree_integer_stock": 80, "stock": 60,
            "iterations": 80, "without_mcafee": 60, "stock exhausted": 20, "shuffled": 60, "rows judged": 2000, "auctions differ": 100, "auctions nearly equal": 100, "all prices trade": 100, "some external_wins_k": 20, "some ascending_wins_k": 20, "file existed": 100, "differences reported": 40, "a stock sits out": 200, "a shuffled stock sits out": 15}
MODS = {"experiment": "experiment", "comparing_sbb": "experiment_comparing_sbb", "recipetree_random": "experiment_ascending_auction_recipetree_random",
        "recipetree_stock": "experiment_ascending_auction_recipetree_stock", "recipetree_integer_random": "experiment_ascending_auction_recipetree_integer_random",
        "recipetree_integer_stock": "experiment_ascending_auction_recipetree_integer_stock", "stock": "experiment_stock", "iterations": "experiment_compare_iterations_autions",
        "without_mcafee": "experiment_compare_iterations_autions_without_mcafee", "shuffled": "experiment_compare_sbb_shufled_stock"}
AGAIN = ("comparing_sbb", "recipetree_random", "recipetree_integer_random", "recipetree_stock", "recipetree_integer_stock", "without_mcafee", "shuffled")      # run a second time into the same file
_m = {}; _tmp = None


def worker_init(wid):
    global _tmp
    if _m: return
    for d in (core.REPO, os.path.join(core.REPO, "stock")):
        if d not in sys.path: sys.path.append(d)
    real = sys.stdout; sys.stdout = core.SINK
    try:
        for k, v in MODS.items(): _m[k] = importlib.import_module(v)
    finally: sys.stdout = real
    _tmp = tempfile.mkdtemp(prefix="vmon-p21-"); os.chdir(_tmp)
    import atexit, multiprocessing.util
    pid = os.getpid()
    def clean():
        if os.getpid() == pid:
            os.chdir("/"); shutil.rmtree(_tmp, ignore_errors=True)
    atexit.register(clean); multiprocessing.util.Finalize(None, clean, exitpriority=1)


def tree0(rng):
    """A small tree in which category 0 is the root (the buyers)."""
    while True:
        n = rng.choice([2, 3, 3, 4, 4, 5])
        t = G.tree(rng, n, shuffle=0)
        return t, n


def gen(rng, i, tier):
    kind = list(MODS)[i % len(MODS)]
    c = {"kind": kind, "sub": rng.randrange(1 << 30), "iters": rng.choice([1, 2, 3, 5, 8])}
    c["ns"] = sorted(rng.sample([1, 2, 3, 4, 5, 6, 9, 14], rng.randint(1, 3)))
    size = rng.random()
    if size < .04: c["ns"], c["iters"] = [rng.choice([1, 2, 3])], rng.choice([20, 34, 65, 101])         # long and big studies
    elif size < .09: c["ns"], c["iters"] = sorted(rng.sample([1, 2, 7, 11, 20, 33, 50, 64, 101], rng.randint(1, 2))), rng.choice([1, 2, 3])
    elif size < .12: c["ns"], c["iters"] = sorted(rng.sample(range(1, 13), rng.choice([5, 8, 11]))), rng.choice([1, 2, 3])
    if rng.random() < .2: rng.shuffle(c["ns"])
    nstocks = rng.choice([4, 6, 12]) if rng.random() < .06 and size >= .12 else 0
    hi = rng.choice([3, 10, 1000])
    if kind.startswith("recipetree"):
        t, n = tree0(rng)
        c["tree"] = t
        c["share"] = [rng.choice([1, 1, 2, .5]) for _ in range(n)]
        if rng.random() < .08:                           # a share of a trader is no trader
            c["share"] = [rng.choice([.5, .4, .75]) for _ in range(n)]; c["ns"] = sorted({1, 2} | set(c["ns"]))
        c["mult"] = [rng.choice([1, 1, 2, 3] if rng.random() < .8 else [1.5, .5, 1]) for _ in range(n)]
        if kind == "recipetree_integer_random": c["counts"] = [rng.choice([1, 1, 2, 3]) for _ in range(n)]
        if kind.endswith("random"): c["ranges"] = [[1, hi * rng.choice([1, 2, 4])], [-hi, -1]]
        else:
            top = max(c["ns"])
            c["prices"] = [[[rng.randint(1, hi) * (2 if j == 0 else -1) for _ in range(max(top, int(top * c["share"][j])) + rng.choice([0, 0, 3, 3 * top]))] for j in range(n)] for _ in range(nstocks or rng.choice([1, 2, 3]))]
    else:
        k = rng.random()
        c["recipe"] = (1, 1) if k < .4 else tuple(rng.choice([1, 1, 2, 3]) for _ in range(rng.choice([2, 3, 4])))
        r = c["recipe"]
        c["ranges"] = [[rng.choice([1, 0, -2]), hi * rng.choice([1, 2, 3])]] + [[-hi, rng.choice([-1, 0, 1])] for _ in r[1:]]
        if kind == "comparing_sbb":
            c["recipes"] = [r] + [tuple(rng.choice([1, 2]) for _ in range(rng.choice([2, 3]))) for _ in range(rng.choice([0, 1, 2]))]
            w = max(map(len, c["recipes"])); c["ranges"] += [c["ranges"][-1]] * w
        mech = (["MC"] if r == (1, 1) and kind in ("experiment", "stock", "iterations", "without_mcafee", "shuffled") else []) + ["TR", "AP"]
        c["auctions"] = rng.sample(mech, rng.randint(1, len(mech)))
        if kind == "stock" or kind == "without_mcafee":
            top = max(c["ns"])
            c["prices"] = [[[rng.randint(1, hi) * (2 if j == 0 else -1) for _ in range(max(top, top * x) + rng.choice([0, 0, 1, 4]))] for j, x in enumerate(r)] for _ in range(nstocks or rng.choice([1, 2, 3]))]
            if kind == "stock" and rng.random() < .04:   # a long history
                for p in c["prices"]:
                    for j, x in enumerate(r): p[j] += [rng.randint(1, hi) * (2 if j == 0 else -1) for _ in range(600 * x)]
            if rng.random() < .2:                        # two stocks that differ in the last category only
                p = copy.deepcopy(c["prices"][0]); p[-1] = [x - rng.randint(0, 2 * hi) for x in p[-1]]; c["prices"].insert(rng.randint(0, len(c["prices"])), p)
        if kind in ("iterations", "shuffled"):
            need = max(c["ns"]) * sum(r)
            c["prices"] = [[rng.randint(1, hi * 10) for _ in range(need + rng.choice([0, 1, 7, 2 * need]) if kind == "shuffled" or rng.random() < .7 else max(1, need // 3))] for _ in range(nstocks or rng.choice([1, 2, 3]))]
            c["random"] = kind == "iterations" and rng.random() < .4
            c["diff"] = rng.random() < .3
        if rng.random() < .35: c["weak"] = [rng.choice(mech), rng.choice([1, 2, 3]), rng.choice([.3, .6, 1])]        # that auction serves fewer buyers, in that share of its runs
        elif rng.random() < .25: c["shade"] = [rng.choice(mech), rng.choice([.001, .01, .25, 1])]
        if kind == "comparing_sbb" and rng.random() < .4: c["ns"], c["iters"] = sorted(rng.sample(range(2, 20), rng.choice([3, 4, 6]))), rng.choice([1, 2])
    if kind in ("recipetree_stock", "recipetree_integer_stock", "without_mcafee") and rng.random() < .3:      # the last size asks for more traders than there are prices: then all prices trade
        c["ns"] = c["ns"] + [rng.choice([1, 2, 10**7]) + max(len(s[0]) for s in c["prices"])] if rng.random() < .6 else None
    if kind == "without_mcafee" and len(c["prices"]) > 1 and c["recipe"][0] == 1 and rng.random() < .5:      # some stocks have too few prices for some sizes
        for p in c["prices"]:
            k = min(len(x) // y for x, y in zip(p, c["recipe"]))
            if rng.random() < .5: k = rng.randint(1, k); p[:] = [x[:k * y] for x, y in zip(p, c["recipe"])]
            else: p[0] = p[0][:k]
        c["ns"] = sorted(set((c["ns"] or []) + [rng.randint(1, 2 + max(len(p[0]) for p in c["prices"])) for _ in range(3)]))
    if kind == "shuffled" and rng.random() < .2: c["ns"] = None if rng.random() < .5 else [10**7 if rng.random() < .5 else 1 + max(len(p) // sum(c["recipe"]) for p in c["prices"])]
    if kind == "shuffled" and c["ns"] and len(c["prices"]) > 1 and rng.random() < .5:      # some stocks have too few prices for some sizes
        for p in c["prices"]:
            if rng.random() < .6: del p[rng.randint(sum(c["recipe"]), len(p)):]
    if kind in ("recipetree_stock", "recipetree_integer_stock") and len(c["prices"]) > 1 and c["share"][0] == 1 and rng.random() < .6:      # some stocks have too few prices for some sizes
        few = c["prices"][1:] if rng.random() < .7 else c["prices"][:1]
        for p in c["prices"]:
            k = min([len(p[0])] + [int(len(x) / s) for x, s in zip(p, c["share"])])          # traders of every category for that many
            if p in few: k = rng.randint(1, max(1, k))
            p[:] = [x[:k] if j == 0 else x[:max(1, int(k * c["share"][j]))] if p in few else x for j, x in enumerate(p)]
        c["ns"] = sorted(set((c["ns"] or []) + [rng.randint(1, 2 + max(len(p[0]) for p in c["prices"])) for _ in range(3)]))
    if kind in ("experiment", "comparing_sbb", "recipetree_random", "recipetree_integer_random") and len(c["ns"]) < 6 and rng.random() < .15: c["ns"] = c["ns"] + [rng.choice(c["ns"])]      # a size twice
    c["exists"] = rng.random() < .25
    return c


def sizes_of(case):
    """The sizes an experiment runs; by default one run with all the prices."""
    return ([10**7], {}) if case["ns"] is None else (case["ns"], {"nums_of_agents": list(case["ns"])})


def traders(n, share, prices):
    """How many traders each category has in a run with n of them."""
    return [len(p) for p in prices] if n > len(prices[0]) else [int(n * x) for x in share]


# ------------------------------------------------------------------ recording
class Run:
    __slots__ = ("mech", "vals", "arg", "deals", "gain", "gain_market")


_weak = []; _shade = []; _coin = random.Random(0)


def weaker(market):
    """The market without its best buyers: an auction that happens to serve fewer of them, so that the compared auctions differ."""
    cs = [sut.agents.AgentCategory(c.name, list(c.values)) for c in market.categories]
    vs = sorted(cs[0].values, reverse=True)
    cs[0] = sut.agents.AgentCategory(cs[0].name, vs[_weak[1]:] or vs)
    return sut.markets.Market(cs)


class Shaded:
    """An outcome whose gain differs by a trifle: the compared auctions hardly differ."""
    def __init__(self, t, by): self._t, self._by = t, by
    def __getattr__(self, k): return getattr(self._t, k)
    def gain_from_trade(self, including_auctioneer=True): return self._t.gain_from_trade(including_auctioneer=including_auctioneer) + self._by


def recorder(mech, real, log):
    def f(market, *a, **k):
        r = Run(); r.mech = mech; r.vals = [[sut.exact(v) for v in c.values] for c in market.categories]; r.arg = copy.deepcopy((a, k))
        t = real(weaker(market) if _weak and mech == _weak[0] and _coin.random() < _weak[2] else market, *a, **k)
        if _shade and mech == _shade[0]: t = Shaded(t, _shade[1])
        r.deals = t.num_of_deals(); r.gain = sut.exact(t.gain_from_trade(including_auctioneer=True)); r.gain_market = sut.exact(t.gain_from_trade(including_auctioneer=False)) if not mech.startswith("T") or mech == "TR" else None
        log.append(r)
        return t
    return f


REAL = {"AP": sut.AP.budget_balanced_ascending_auction, "TR": sut.TR.budget_balanced_trade_reduction, "MC": sut.MC.mcafee_trade_reduction,
        "TP": sut.TP.budget_balanced_ascending_auction, "TI": sut.TI.budget_balanced_ascending_auction}


_orig = REAL                              # while an experiment is watched: the auctions themselves


class Patched:
    """Records every auction an experiment module runs."""
    def __init__(self, mod, log): self.log = log
    def __enter__(self):
        global _orig
        self.w = sut.Watch(REAL, lambda m, f: recorder(m, f, self.log)); _orig = self.w.orig
        return self
    def __exit__(self, *a):
        global _orig
        _orig = REAL; self.w.__exit__()


_before = []


def rows_of(path):
    """The rows the last experiment added to the file; whatever was there before must still be there."""
    with open(path, newline="") as f: rows = list(csv.DictReader(f))
    kept(_before, rows)
    return rows[len(_before):]


def num(x, what):
    try: return F(x)
    except Exception: pass
    try: return F(float(x))
    except Exception: raise core.Violation("TABLE", f"{what} is {x!r}")


def check(row, col, exact, digits, ctx):
    """The printed number equals the exact one up to its last printed digit."""
    if col not in row: raise core.Violation("TABLE", f"column {col} is missing")
    got = num(row[col], col)
    slack = F(1, 10**digits) * F(101, 100) + abs(F(exact)) / 10**11 if digits is not None else F(1, 10**8) + abs(F(exact)) / 10**9
    if abs(got - exact) > slack: raise core.Violation("TABLE", f"{col} is {float(got)}, the runs give {float(exact)} in row {dict(row)}")
    ctx.count("cells judged")


def kept(before, rows):
    """Reading the table back may change the last bits of a number and the type of a column."""
    def same(x, y):
        if x == y: return True
        try: return abs(float(x) - float(y)) <= 1e-11 * abs(float(x))
        except Exception: return False
    if len(rows) < len(before) or any(list(a) != list(b) or not all(same(a[k], b[k]) for k in a) for a, b in zip(before, rows)): raise core.Violation("TABLE", f"earlier rows changed: {before} / {rows[:len(before)]}")


mean = lambda xs: sum(xs, F(0)) / len(xs)


def shape(run, sizes, ranges=None, pools=None, what="market"):
    if [len(v) for v in run.vals] != sizes: raise core.Violation("MARKET-SIZE", f"{what}: sizes {[len(v) for v in run.vals]}, requested {sizes}")
    for i, vs in enumerate(run.vals):
        if ranges and any(not (ranges[i][0] - F(1, 2) <= v <= ranges[i][1] + F(1, 2)) for v in vs):
            raise core.Violation("MARKET-RANGE", f"{what}: category {i} has values {core.show(vs)} outside {ranges[i]}")
        if pools is not None and collections.Counter(vs) - collections.Counter(F(p) for p in pools[i]): raise core.Violation("MARKET-PRICES", f"{what}: category {i} has values {core.show(vs)} that are not its prices")


def fresh(runs, sizes, ranges, what):
    """Every iteration draws every category anew, from the whole requested range."""
    for i, (n, (lo, hi)) in enumerate(zip(sizes, ranges)):
        if n >= 6 and hi - lo >= 500 and len(runs) > 1:
            if len({tuple(r.vals[i]) for r in runs}) < len(runs): raise core.Violation("SAME-MARKET", f"{what}: two of {len(runs)} iterations have the same {n} traders in category {i}: {core.show([r.vals[i] for r in runs])}")
        draws = n * len(runs)
        if draws >= 50 and hi - lo >= 20:
            x = (1 - 10 ** (-15 / draws)) * float(hi - lo) + 2          # no draw within x of an end of the range: less than one in 10^15
            vs = [v for r in runs for v in r.vals[i]]
            if min(vs) > lo + x or max(vs) < hi - x: raise core.Violation("MARKET-RANGE", f"{what}: {draws} values of category {i} lie in {core.show([min(vs), max(vs)])}, requested {[lo, hi]}")


def twice(ns, runs_of, sizes, ranges_, what, ctx):
    """A size listed twice is drawn twice."""
    for n in {x for x in ns if ns.count(x) > 1}:
        ctx.count("sizes listed twice")
        fresh([q for j, x in enumerate(ns) if x == n for q in runs_of(j)], sizes(n), ranges_, what)


def reshuffled(runs, i, pool, what):
    """Every iteration takes other prices of a large pool."""
    n = len(runs[0].vals[i])
    if n >= 8 and len(set(pool)) >= 3 * n and len(runs) > 1 and len({tuple(r.vals[i]) for r in runs}) < len(runs): raise core.Violation("SAME-MARKET", f"{what}: two of {len(runs)} iterations have the same {n} prices in category {i}")


def judge(case, ctx):
    kind = case["kind"]; mod = _m[kind]
    random.seed(case["sub"])
    import warnings; warnings.simplefilter("ignore")
    folder = tempfile.mkdtemp(dir=_tmp); path = os.path.join(folder, "results.csv")
    log = []; _weak[:] = case.get("weak") or []; _shade[:] = case.get("shade") or []; _coin.seed(case["sub"])
    if _weak: ctx.count("auctions differ")
    if _shade: ctx.count("auctions nearly equal")
    try:
        with Patched(mod, log):
            do = getattr(sys.modules[__name__], "do_" + kind); do(case, mod, path, log, ctx)
            if case["exists"] and kind in AGAIN:
                _before[:] = rows_of(path); del log[:]
                do(case, mod, path, log, ctx); ctx.count("file existed")
        ctx.count(kind)
        ctx.sig(kind, repr(case.get("tree") or case.get("recipe")), tuple(case["ns"] or ()), case["iters"], tuple(r.deals for r in log)[:20])
    finally:
        del _before[:], _weak[:], _shade[:]; shutil.rmtree(folder, ignore_errors=True)
        for f in ("diff_in_sbbs_gft.txt", "diff_in_sbbs_k.txt"):
            if os.path.exists(f): os.remove(f)


def aucs(case, log): return [recorder(a, _orig[a], log) for a in case["auctions"]]


def take(log, k, pos):
    got = log[pos:pos + k]
    if len(got) < k: raise core.Violation("RUNS", f"only {len(log)} auctions were run")
    return got


def do_experiment(case, mod, path, log, ctx):
    r = case["recipe"]; n = len(r); before = []
    for k, a in enumerate(case["auctions"]):
        del log[:]
        name = f"auction {k}"
        mod.experiment(path, recorder(a, _orig[a], log), name, r, case["ranges"], case["ns"], case["iters"])
        rows = rows_of(path)
        if before: ctx.count("file existed")
        kept(before, rows)
        new = rows[len(before):]
        if len(new) != len(case["ns"]): raise core.Violation("TABLE", f"{len(new)} rows for sizes {case['ns']}")
        if len(log) != len(new) * case["iters"]: raise core.Violation("RUNS", f"{len(log)} auctions for {len(new)} rows of {case['iters']} iterations")
        twice(case["ns"], lambda j: log[j * case["iters"]:(j + 1) * case["iters"]], lambda n: [n * x for x in r], case["ranges"], "experiment", ctx)
        for j, row in enumerate(new):
            runs = log[j * case["iters"]:(j + 1) * case["iters"]]
            sz = [case["ns"][j] * x for x in r]
            for q in runs: shape(q, sz, case["ranges"])
            fresh(runs, sz, case["ranges"], "experiment")
            opt = [refs.optimum(q.vals, r) for q in runs]
            oc, og = mean([F(o[0]) for o in opt]), mean([o[1] for o in opt])
            ac, ag, am = mean([F(q.deals) for q in runs]), mean([q.gain for q in runs]), mean([q.gain_market for q in runs])
            if row["auction_name"] != name or row["recipe"] != ":".join(map(str, r)): raise core.Violation("TABLE", f"labels of row {dict(row)}")
            check(row, "iterations", case["iters"], 9, ctx); check(row, "num_of_agents", case["ns"][j], 9, ctx)
            for col, x, d in [("mean_optimal_count", oc, 2), ("mean_auction_count", ac, 2), ("count_ratio", ac / oc * 100 if oc else 0, 2), ("mean_optimal_gft", og, 2),
                              ("mean_auction_total_gft", ag, 2), ("total_gft_ratio", ag / og * 100 if og else 0, 2), ("mean_auction_market_gft", am, 2), ("market_gft_ratio", am / og * 100 if og else 0, 2)]: check(row, col, x, d, ctx)
            ctx.count("rows judged")
        before = rows


def do_comparing_sbb(case, mod, path, log, ctx):
    mod.experiment(path, tuple(case["recipes"]), case["ranges"], case["ns"], case["iters"])
    rows = rows_of(path)
    if len(rows) != len(case["recipes"]): raise core.Violation("TABLE", f"{len(rows)} rows for {len(case['recipes'])} recipes")
    per = 2 * case["iters"]
    if len(log) != per * len(case["ns"]) * len(rows): raise core.Violation("RUNS", f"{len(log)} auctions were run")
    pos = 0
    for row, r in zip(rows, case["recipes"]):
        wins = collections.Counter(); at = pos
        w = [sum(r) - r[0]] + [r[0]] * (len(r) - 1)
        twice(case["ns"], lambda j: [q for q in log[at + j * per:at + (j + 1) * per] if q.mech == "AP"], lambda n: [n * x for x in r], [[lo * w[i], hi * w[i]] for i, (lo, hi) in enumerate(case["ranges"][:len(r)])], "comparing", ctx)
        for n in case["ns"]:
            runs = log[pos:pos + per]; pos += per
            w = [sum(r) - r[0]] + [r[0]] * (len(r) - 1)
            rg = [[lo * w[i], hi * w[i]] for i, (lo, hi) in enumerate(case["ranges"][:len(r)])]
            for q in runs: shape(q, [n * x for x in r], rg)
            t = {m: [q for q in runs if q.mech == m] for m in ("TR", "AP")}
            if len(t["TR"]) != case["iters"] or len(t["AP"]) != case["iters"]: raise core.Violation("RUNS", f"{collections.Counter(q.mech for q in runs)} in {case['iters']} iterations")
            fresh(t["AP"], [n * x for x in r], rg, "comparing")
            for a, b in zip(t["TR"], t["AP"]):
                if a.vals != b.vals: raise core.Violation("UNFAIR", f"the two auctions ran on different markets {core.show(a.vals)} / {core.show(b.vals)}")
            for key, f, eps in [("k", lambda q: F(q.deals), 0), ("gft", lambda q: q.gain, F(1, 10**6))]:
                d = sum(map(f, t["TR"])) - sum(map(f, t["AP"]))
                if key == "gft" and 0 < abs(d) < eps: return
                wins[("tie_" if d == 0 else "external_wins_" if d > 0 else "ascending_wins_") + key] += 1
        if row["recipe"] != str(r): raise core.Violation("TABLE", f"labels of row {dict(row)}")
        for w in ("external_wins", "tie", "ascending_wins"):
            for key in ("gft", "k"):
                x = F(wins[f"{w}_{key}"] * 100, len(case["ns"])); check(row, f"{w}_{key}", x, 0, ctx)
                if abs(num(row[f"{w}_{key}"], w) - x) >= 1: raise core.Violation("TABLE", f"{w}_{key} is {row[f'{w}_{key}']}, the runs give {float(x)}")
                if wins[f"{w}_{key}"]: ctx.count(f"some {w}_{key}")
            check(row, w, wins[w + "_gft"], 9, ctx)
        ctx.count("rows judged")


def tree_stats(case, vals):
    integer = "counts" in case; mod = sut.recipetree_integer if integer else sut.recipetree
    cats = [sut.agents.AgentCategory("x", list(v)) for v in vals]
    tr = mod.RecipeTree(cats, copy.deepcopy(case["tree"]), *([list(case["counts"])] if integer else []))
    _, k, g, lo, hi = tr.optimal_trade_with_counters()
    rk, rg = refs.TreeModel(case["tree"], vals, case.get("counts") or [1] * len(vals)).optimum()
    return F(rk), rg, F(lo), F(hi)


def do_random_tree(case, mod, path, log, ctx):
    extra = {"recipe_tree_agent_counts": list(case["counts"])} if "counts" in case else {}
    mod.experiment(path, recipe=copy.deepcopy(case["tree"]), value_ranges=case["ranges"], nums_of_agents=case["ns"], num_of_iterations=case["iters"], agent_counts=case["share"], agent_values=case["mult"], **extra)
    rows = rows_of(path)
    if len(rows) != len(case["ns"]): raise core.Violation("TABLE", f"{len(rows)} rows for sizes {case['ns']}")
    if len(log) != len(rows) * case["iters"]: raise core.Violation("RUNS", f"{len(log)} auctions for {len(rows)} rows of {case['iters']} iterations")
    twice(case["ns"], lambda j: log[j * case["iters"]:(j + 1) * case["iters"]], lambda n: [int(n * x) for x in case["share"]], [[lo * m, hi * m] for m, (lo, hi) in zip(case["mult"], [case["ranges"][0]] + [case["ranges"][1]] * (len(case["share"]) - 1))], case["kind"], ctx)
    for j, (row, n) in enumerate(zip(rows, case["ns"])):
        runs = log[j * case["iters"]:(j + 1) * case["iters"]]
        sz = [int(n * x) for x in case["share"]]
        rg = [[lo * m, hi * m] for m, (lo, hi) in zip(case["mult"], [case["ranges"][0]] + [case["ranges"][1]] * (len(sz) - 1))]
        for q in runs:
            shape(q, sz, rg); same_tree(q, case)
        fresh(runs, sz, rg, case["kind"])
        st = [tree_stats(case, q.vals) for q in runs]
        oc, og, lo, hi = [mean([s[x] for s in st]) for x in range(4)]
        ac, ag = mean([F(q.deals) for q in runs]), mean([q.gain for q in runs])
        d = 5 if "counts" in case else None
        check(row, "iterations", case["iters"], 9, ctx); check(row, "numofagents", n, 9, ctx); tree_label(row, case)
        f = (lo - 1) / (lo + 1) * 100 if lo > 1 else 0
        for col, x in [("meanoptimalcount", oc), ("meanoptimalkmin", lo), ("meanoptimalkmax", hi), ("gftformula", f), ("meanauctioncount", ac), ("countratio", ac / oc * 100 if oc else 0),
                       ("meanoptimalgft", og), ("meanauctiontotalgft", ag), ("totalgftratio", ag / og * 100 if og else 0)]: check(row, col, x, None if col == "meanoptimalkmin" else d, ctx)
        ctx.count("rows judged")


def tree_label(row, case):
    if re.findall(r"\d+|None|[\[\]]", row["recipe"]) != re.findall(r"\d+|None|[\[\]]", str(case["tree"])): raise core.Violation("TABLE", f"labels of row {dict(row)} for the tree {case['tree']}")


def same_tree(q, case):
    args, kw = q.arg
    passed = list(args) + list(kw.values())
    if case["tree"] not in passed: raise core.Violation("RECIPE", f"the auction was given {passed} instead of the tree {case['tree']}")
    if "counts" in case and case["counts"] not in passed[1:]: raise core.Violation("RECIPE", f"the auction was given {passed} instead of the counts {case['counts']}")


do_recipetree_random = do_recipetree_integer_random = do_random_tree


def do_stock_tree(case, mod, path, log, ctx):
    ns, extra = sizes_of(case)
    if case["iters"] > 1 or case["sub"] % 2: extra["num_of_iterations"] = case["iters"]
    names = [f"S{j}" for j in range(len(case["prices"]))]
    mod.experiment(path, recipe=copy.deepcopy(case["tree"]), agent_counts=case["share"], agent_values=case["mult"],
                   stocks_prices=copy.deepcopy(case["prices"]), stock_names=names, **extra)
    rows = rows_of(path)
    # a stock with too few prices for a size runs once with all of them, and takes no part in the larger sizes
    plan = []
    for t in range(len(names)):
        for _ in range(case["iters"]):
            full = False
            for j, n in enumerate(ns):
                if n > len(case["prices"][t][0]):
                    if full: ctx.count("a stock sits out"); break
                    full = True
                plan.append((t, j))
    ran = sorted({j for _, j in plan})
    if len(rows) != len(ran): raise core.Violation("TABLE", f"{len(rows)} rows for sizes {[ns[j] for j in ran]} of stocks with {[len(p[0]) for p in case['prices']]} prices")
    if len(log) != len(plan): raise core.Violation("RUNS", f"{len(log)} auctions for {len(names)} stocks with {[len(p[0]) for p in case['prices']]} prices, {case['iters']} iterations, sizes {ns}")
    per = collections.defaultdict(list); each = collections.defaultdict(list)
    for (t, j), q in zip(plan, log):
        if ns[j] > len(case["prices"][t][0]): ctx.count("all prices trade")
        shape(q, traders(ns[j], case["share"], case["prices"][t]), pools=case["prices"][t], what=f"stock {names[t]}"); same_tree(q, case)
        per[j].append(q); each[t, j].append(q)
    for (t, j), runs in each.items():
        for i in range(len(case["share"])): reshuffled(runs, i, case["prices"][t][i], f"stock {names[t]}")
    for j, row in zip(ran, rows):
        runs = per[j]; st = [tree_stats(case, q.vals) for q in runs]
        tree_label(row, case)
        if num(row["numpossibletrades"], "numpossibletrades") not in {min(ns[j], len(p[0])) for p in case["prices"]}: raise core.Violation("TABLE", f"numpossibletrades is {row['numpossibletrades']} for {ns[j]} of {[len(p[0]) for p in case['prices']]}")
        lo = mean([s[2] for s in st])
        vals = {"optimalcount": mean([s[0] for s in st]), "optimalgft": mean([s[1] for s in st]), "optimalkmin": lo, "optimalkmax": mean([s[3] for s in st]),
                "auctioncount": mean([F(q.deals) for q in runs]), "gft": mean([q.gain for q in runs]),
                "countratio": mean([q.deals / s[0] * 100 if s[0] else F(0) for q, s in zip(runs, st)]), "gftratio": mean([q.gain / s[1] * 100 if s[1] else F(0) for q, s in zip(runs, st)]),
                "gftformula": (1 - 1 / lo) * 100 if lo > 1 else 0}
        for col, x in vals.items(): check(row, col, x, None, ctx)
        if row["stockname"] != "Average": raise core.Violation("TABLE", f"labels of row {dict(row)}")
        ctx.count("rows judged")


do_recipetree_stock = do_recipetree_integer_stock = do_stock_tree


def do_stock(case, mod, path, log, ctx):
    r = case["recipe"]; before = []
    names = [f"S{j}" for j in range(len(case["prices"]))]
    for k, a in enumerate(case["auctions"]):
        del log[:]
        mod.experiment(path, recorder(a, _orig[a], log), f"auction {k}", r, copy.deepcopy(case["prices"]), names)
        rows = rows_of(path)
        kept(before, rows)
        if before: ctx.count("file existed")
        new = rows[len(before):]
        if len(new) != len(names) or len(log) != len(names): raise core.Violation("TABLE", f"{len(new)} rows and {len(log)} auctions for {len(names)} stocks")
        for row, q, nm, pr in zip(new, log, names, case["prices"]):
            shape(q, [len(p) for p in pr], pools=pr, what=nm)
            o = refs.optimum(q.vals, r)
            if row["stock_name"] != nm or row["auction_name"] != f"auction {k}" or row["recipe"] != ":".join(map(str, r)): raise core.Violation("TABLE", f"labels of row {dict(row)}")
            poss = min(F(len(p), x) for p, x in zip(pr, r))
            if abs(num(row["num_possible_trades"], "num_possible_trades") - poss) > F(1, 2): raise core.Violation("TABLE", f"num_possible_trades is {row['num_possible_trades']}, {float(poss)} are possible")
            for col, x, d in [("optimal_count", o[0], 2), ("auction_count", q.deals, 2), ("count_ratio", F(q.deals, o[0]) * 100 if o[0] else 0, 3), ("optimal_gft", o[1], 2), ("auction_gft", q.gain, 2),
                              ("auction_gft_ratio", q.gain / o[1] * 100 if o[1] else 0, 3), ("auction_market_gft", q.gain_market, 2), ("market_gft_ratio", q.gain_market / o[1] * 100 if o[1] else 0, 3)]: check(row, col, x, d, ctx)
            ctx.count("rows judged")
        before = rows


def do_iterations(case, mod, path, log, ctx):
    r = case["recipe"]; fs = aucs(case, log); nm = [("SBB" if a != "MC" else "") + a for a in case["auctions"]]
    names = [f"S{j}" for j in range(len(case["prices"]))]
    if case["exists"]:
        with open(path, "w") as f: f.write("a,b\n1,2\n")
        mod.experiment(path, fs, nm, r, case["ns"], copy.deepcopy(case["prices"]), names, case["iters"], not case["random"], case["diff"])
        if log or open(path).read() != "a,b\n1,2\n": raise core.Violation("OVERWRITTEN", "an experiment whose results exist was run again")
        ctx.count("file existed"); os.remove(path)
    mod.experiment(path, fs, nm, r, case["ns"], copy.deepcopy(case["prices"]), names, case["iters"], not case["random"], case["diff"])
    rows = rows_of(path); ns = case["ns"]; na = len(fs)
    if len(rows) != len(ns): raise core.Violation("TABLE", f"{len(rows)} rows for sizes {ns}")
    if len(log) != len(names) * len(ns) * case["iters"] * na: raise core.Violation("RUNS", f"{len(log)} auctions for {len(names)} stocks, sizes {ns}, {case['iters']} iterations, {na} auctions")
    w = F(sum(r) - r[0], r[0])
    per = collections.defaultdict(list); p = 0; order = []
    for s in range(len(names)):
        for j, n in enumerate(ns):
            for _ in range(case["iters"]):
                group = log[p:p + na]; p += na; order.append((n, group))
                sz = [n * x for x in r]
                if case["random"]: shape(group[0], sz, [[min(w, 0), 100000 * w]] + [[-100000, 0]] * (len(r) - 1))
                else:
                    shape(group[0], sz)
                    pool = case["prices"][s]; ok = [{F(int(F(x) * w)) for x in pool}, {F(-x) for x in pool}]
                    flip = lambda i: ok[0] if i == 0 else ok[1]
                    for i, vs in enumerate(group[0].vals):
                        bad = [v for v in vs if v not in flip(i) and not (i == 0 and any(abs(v - F(x) * w) <= 1 for x in pool))]
                        if bad: raise core.Violation("MARKET-PRICES", f"category {i} has values {core.show(bad)} that are not prices of the stock")
                    if len(pool) >= max(ns) * sum(r) and collections.Counter(-v for vs in group[0].vals[1:] for v in vs) - collections.Counter(map(F, pool)): raise core.Violation("MARKET-PRICES", "a price of the stock is used twice")
                if any(q.vals != group[0].vals for q in group): raise core.Violation("UNFAIR", "the auctions ran on different markets")
                per[j].append(group)
    reported(case, nm, order, ctx)
    for j, row in enumerate(rows):
        gs = per[j]
        if case["random"]: fresh([g[0] for g in gs], [ns[j] * x for x in r], [[w, 100000 * w]] + [[-100000, -1]] * (len(r) - 1), "iterations")
        else:
            for s in range(len(names)):
                for i in range(len(r)): reshuffled([g[0] for g in gs[s * case["iters"]:(s + 1) * case["iters"]]], i, case["prices"][s], f"stock {names[s]}")
        oz = [refs.optimum(g[0].vals, r) for g in gs]; on = [refs.optimum(g[0].vals, r, include_zero=False) for g in gs]
        k, kz, g, gz = mean([F(o[0]) for o in on]), mean([F(o[0]) for o in oz]), mean([o[1] for o in on]), mean([o[1] for o in oz])
        ones = set(r) == {1}
        form = mean([F(o[0] - 1) * 100 / (o[0] if ones else o[0] + 1) if o[0] > 1 else F(0) for o in on])
        if row["stockname"] != "Average" or row["recipe"] != ":".join(map(str, r)): raise core.Violation("TABLE", f"labels of row {dict(row)}")
        check(row, "iterations", case["iters"], 9, ctx); check(row, "numpossibletrades", ns[j], 9, ctx)
        cells = [("optimalcount", k), ("gftratioformula", form), ("optimalcountwithgftzero", kz), ("optimalgft", g), ("optimalgftwithgftzero", gz)]
        for a, name in enumerate(nm):
            q = [x[a] for x in gs]
            rat = lambda f, d: mean([f(y) / d[z] * 100 if on[z][0] and d[z] else F(0) for z, y in enumerate(q)])
            cells += [(name + "count", mean([F(y.deals) for y in q])), (name + "countratio", rat(lambda y: F(y.deals), [o[0] for o in oz])),
                      (name + "totalgft", mean([y.gain for y in q])), (name + "totalgftratio", rat(lambda y: y.gain, [o[1] for o in oz])),
                      (name + "withoutgftzerocountratio", rat(lambda y: F(y.deals), [o[0] for o in on])), (name + "withoutgftzerototalgft", mean([y.gain for y in q])),
                      (name + "withoutgftzerototalgftratio", rat(lambda y: y.gain, [o[1] for o in on])),
                      (name + "marketgft", mean([y.gain_market for y in q])), (name + "marketgftratio", rat(lambda y: y.gain_market, [o[1] for o in oz]))]
        for col, x in cells: check(row, col, x, 2, ctx)
        ctx.count("rows judged")


def reported(case, nm, order, ctx):
    """The reports of differences name the runs in which an auction labelled SBB does worse than the first one (or, on request, differs from it)."""
    idx = [i for i, x in enumerate(nm) if "SBB" in x]
    for file, f in [("diff_in_sbbs_gft.txt", lambda q: q.gain), ("diff_in_sbbs_k.txt", lambda q: F(q.deals))]:
        want = []
        for n, g in order:
            vs = [f(g[i]) for i in idx]
            for on, worse in [(case["diff"], lambda x: x != vs[0]), (True, lambda x: x < vs[0])]:
                bad = [x for x in vs if worse(x)]
                if on and bad: want.append((vs[0], bad[0], n < 10))
        lines = open(file).read().splitlines() if os.path.exists(file) else []
        got = [tuple(num(x, file) for x in l.split()[-2:]) for l in lines if l.startswith("There is diff")]
        if [tuple(map(float, x)) for x in got] != [tuple(map(float, w[:2])) for w in want]: raise core.Violation("REPORT", f"{file} reports {core.show(got)}, the runs differ in {core.show([w[:2] for w in want])}")
        shown = sum(l.startswith("Traders:") for l in lines)
        if shown != sum(w[2] for w in want): raise core.Violation("REPORT", f"{file} shows {shown} markets, {sum(w[2] for w in want)} of the differing ones are small")
        if want: ctx.count("differences reported")


def do_without_mcafee(case, mod, path, log, ctx):
    r = case["recipe"]; fs = aucs(case, log); nm = [f"a{j}" for j in range(len(fs))]
    names = [f"S{j}" for j in range(len(case["prices"]))]
    ns, extra = sizes_of(case)
    mod.experiment(path, fs, nm, r, stocks_prices=copy.deepcopy(case["prices"]), stock_names=names, **extra)
    rows = rows_of(path); na = len(fs)
    # a stock with too few prices for a size runs once with all of them, and takes no part in the larger sizes
    plan = []
    for s in range(len(names)):
        for j, n in enumerate(ns):
            plan.append((s, j))
            if n > len(case["prices"][s][0]): break
    if len(rows) != len(plan) or len(log) != len(rows) * na: raise core.Violation("TABLE", f"{len(rows)} rows and {len(log)} auctions for stocks with {[len(p[0]) for p in case['prices']]} prices, sizes {ns}, {na} auctions")
    for p, row in enumerate(rows):
        s, j = plan[p]; g = log[p * na:(p + 1) * na]
        if ns[j] > len(case["prices"][s][0]): ctx.count("stock exhausted")
        for q in g:
            shape(q, traders(ns[j], r, case["prices"][s]), pools=case["prices"][s])
            if q.vals != g[0].vals: raise core.Violation("UNFAIR", "the auctions ran on different markets")
        oz, on = refs.optimum(g[0].vals, r), refs.optimum(g[0].vals, r, include_zero=False)
        if row["stock_name"] != names[s] or row["recipe"] != ":".join(map(str, r)): raise core.Violation("TABLE", f"labels of row {dict(row)}")
        cells = [("num_possible_trades", ns[j], 2)] * (ns[j] <= len(case["prices"][s][0])) + [("optimal_count", on[0], 2), ("optimal_count_with_gft_zero", oz[0], 2), ("optimal_gft", on[1], 2)]
        for name, q in zip(nm, g):
            cells += [(name + "_auction_count", q.deals, 2), (name + "_count_ratio", F(q.deals, oz[0]) * 100 if oz[0] else 0, 3), (name + "_gft", q.gain_market, 2), (name + "_gft_ratio", q.gain_market / on[1] * 100 if on[1] else 0, 3)]
        for col, x, d in cells: check(row, col, x, d, ctx)
        ctx.count("rows judged")


def do_shuffled(case, mod, path, log, ctx):
    r = case["recipe"]; fs = aucs(case, log); nm = [f"mcafee{j}" if a == "MC" else f"a{j}" for j, a in enumerate(case["auctions"])]
    names = [f"S{j}" for j in range(len(case["prices"]))]
    ns, extra = sizes_of(case); real = lambda n, s: min(n, len(case["prices"][s]) // sum(r))
    mod.experiment(path, fs, nm, r, case["iters"], stocks_prices=copy.deepcopy(case["prices"]), stock_names=names, **extra)
    rows = rows_of(path); na = len(fs); it = case["iters"]
    # the first size is run with as many prices as there are; in the others, a stock with too few prices takes no part
    plan = [(s, j) for s in range(len(names)) for j in range(len(ns)) if j == 0 or real(ns[j], s) == ns[j]]; ran = sorted({j for _, j in plan})
    if len(plan) < len(ns) * len(names): ctx.count("a shuffled stock sits out")
    if len(rows) != len(plan) + len(ran) or len(log) != len(plan) * na * it: raise core.Violation("TABLE", f"{len(rows)} rows and {len(log)} auctions for {len(names)} stocks, sizes {ns}, {na} auctions, {it} iterations")
    avg = collections.defaultdict(list)
    for p, (s, j) in enumerate(plan):
        cells = collections.defaultdict(list)
        for z in range(it):
            g = log[(p * it + z) * na:(p * it + z + 1) * na]
            for q in g:
                w = [sum(r) - r[0]] + [-r[0]] * (len(r) - 1)
                if ns[j] > real(ns[j], s): ctx.count("all prices trade")
                shape(q, [real(ns[j], s) * x for x in r], pools=[[x * y for x in case["prices"][s]] for y in w])
                if q.vals != g[0].vals: raise core.Violation("UNFAIR", "the auctions ran on different markets")
            if collections.Counter(abs(v / w[i]) for i, vs in enumerate(g[0].vals) for v in vs) - collections.Counter(map(F, case["prices"][s])): raise core.Violation("MARKET-PRICES", "a price of the stock is used twice")
            oz, on = refs.optimum(g[0].vals, r), refs.optimum(g[0].vals, r, include_zero=False)
            for col, x in [("optimalcount", on[0]), ("optimalcountwithgftzero", oz[0]), ("optimalgft", on[1])]: cells[col].append(F(x))
            for name, q in zip(nm, g):
                for col, x in [("auctioncount", q.deals), ("countratio", F(q.deals, oz[0]) * 100 if oz[0] else 0), ("gft", q.gain_market), ("gftratio", q.gain_market / on[1] * 100 if on[1] else 0)]: cells[name + col].append(F(x))
        row = rows[p]
        if row["stockname"] != names[s]: raise core.Violation("TABLE", f"labels of row {dict(row)}")
        check(row, "numpossibletrades", real(ns[j], s), 9, ctx)
        for col, x in cells.items(): check(row, col, mean(x), None, ctx)
        avg[j].append({c: mean(x) for c, x in cells.items()}); ctx.count("rows judged")
    for j, row in zip(ran, rows[len(plan):]):
        if row["stockname"] != "Average": raise core.Violation("TABLE", f"labels of row {dict(row)}")
        check(row, "numpossibletrades", real(ns[j], next(s for s, i in plan if i == j)), 9, ctx)
        for col in avg[j][0]: check(row, col, mean([a[col] for a in avg[j]]), 3 if "ratio" in col else 1, ctx)
        ctx.count("rows judged")


def smaller(case):
    if case.get("ns") and len(case["ns"]) > 1:
        for j in range(len(case["ns"])):
            c = copy.deepcopy(case); del c["ns"][j]; yield c
    if case["iters"] > 1: yield {**case, "iters": 1}
    if len(case.get("auctions", [])) > 1: yield {**case, "auctions": case["auctions"][:1]}
    if len(case.get("prices", [])) > 1: yield {**case, "prices": case["prices"][:1]}
