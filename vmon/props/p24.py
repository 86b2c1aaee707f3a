"""Every shipped demonstration and study runs to its end, labels its auctions truthfully, writes its results where it says,
and every auction it runs is judged by the monitors of budget balance, rationality, feasibility, optimality and process."""
import copy, csv, functools, importlib, inspect, io, os, random, re, runpy, shutil, sys, tempfile
from fractions import Fraction as F
from .. import core, refs, sut
from . import p01, p02, p04, p05, p06, p18

ID = "P24"
DEMOS = """ascending_auction_demo_11.py ascending_auction_demo_111.py ascending_auction_demo_12.py ascending_auction_demo_223.py ascending_auction_demo_23.py
 ascending_auction_recipetree_demo.py mcafee_demo.py trade_reduction_demo_11.py trade_reduction_demo_111.py trade_reduction_demo_lemonade.py
 stock/ascending_auction_demo_bad.py stock/comparing_results_for_demo_11.py stock/finding_bad_input_for_ascending_auction.py
 stock/trade_reduction_demo_difference_gft0.py stock/trade_reduction_demo_difference_gft0_simple.py""".split()
STUDIES = """mcafee_experiment.py ascending_auction_experiment.py comparing_sbbs.py experiment_sbb_with_two_categories.py experiment_sbb_with_vectors_of_ones.py
 experiment_comparing_mcafee_to_sbb.py experiment_recpietree.py experiment_recpietree_integer.py
 stock/ascending_auction_experiment_stock.py stock/mcafee_experiment_stock.py stock/experiment_comparing_mcafee_to_sbb_stock.py stock/experiment_comparing_all_with_all_recipes.py
 stock/experiment_sbb_stock_vectors_multi.py stock/experiment_sbb_stock_vectors_multi_shuffled.py stock/experiment_sbb_stock_vectors_ones.py
 stock/experiment_sbb_stock_vectors_ones_shuffled.py stock/experiment_sbb_with_vectors_of_ones_stock.py""".split()
LIBS = """experiment experiment_comparing_sbb experiment_ascending_auction_recipetree_random experiment_ascending_auction_recipetree_stock
 experiment_ascending_auction_recipetree_integer_random experiment_ascending_auction_recipetree_integer_stock experiment_stock
 experiment_compare_iterations_autions experiment_compare_iterations_autions_without_mcafee experiment_compare_sbb_shufled_stock""".split()
CASES = {"quick": 8 * (len(DEMOS) + len(STUDIES)), "thorough": 200 * (len(DEMOS) + len(STUDIES))}
WATCHDOG_S = 120
FILES = DEMOS + STUDIES + ["experiment.py", "experiment_comparing_sbb.py", "get_stocks_data.py", "stock/experiment_stock.py"]
_m = {}; _tmp = None; _rows = {}


def worker_init(wid):
    global _tmp
    if _m: return
    for d in (core.REPO, os.path.join(core.REPO, "stock")):
        if d not in sys.path: sys.path.append(d)
    real = sys.stdout; sys.stdout = core.SINK
    try:
        for k in LIBS + ["get_stocks_data"]: _m[k] = importlib.import_module(k)
    finally: sys.stdout = real
    _tmp = tempfile.mkdtemp(prefix="vmon-p24-"); os.chdir(_tmp)
    import atexit, multiprocessing.util
    pid = os.getpid()
    def clean():
        if os.getpid() == pid:
            os.chdir("/"); shutil.rmtree(_tmp, ignore_errors=True)
    atexit.register(clean); multiprocessing.util.Finalize(None, clean, exitpriority=1)


def gen(rng, i, tier):
    scripts = DEMOS + STUDIES
    return {"script": scripts[i % len(scripts)], "sub": rng.randrange(1 << 30), "n": rng.choice([1, 2, 3, 4, 6]), "rows": rng.choice([4, 6, 9, 12]),
            "stocks": rng.choice([1, 1, 2]), "iters": rng.choice([1, 2, 3])}


MECH = {"AP": sut.AP.budget_balanced_ascending_auction, "TR": sut.TR.budget_balanced_trade_reduction, "MC": sut.MC.mcafee_trade_reduction,
        "TP": sut.TP.budget_balanced_ascending_auction, "TI": sut.TI.budget_balanced_ascending_auction}


def record(mech, real, log):
    sig = inspect.signature(real)
    @functools.wraps(real)
    def auction(*a, **k):
        b = sig.bind(*a, **k); b.apply_defaults(); arg = list(b.arguments.items())
        market, recipe, rest = arg[0][1], copy.deepcopy(arg[1][1]), dict(arg[2:])
        vals = [[sut.exact(v) for v in c.values] for c in market.categories]
        t = real(*a, **k)
        case = {"mech": mech, "vals": vals, "opts": {}, "typ": "float", "prof": "study"}
        if mech in ("TP", "TI"):
            case["struct"] = recipe; case["distinct"] = False
            if mech == "TI": case["counts"] = list(next((v for v in rest.values() if isinstance(v, (list, tuple))), [1] * len(vals)))
        else:
            case["recipe"] = list(recipe); case["opts"] = {x: y for x, y in rest.items() if x in ("price_heuristic", "including_gft_0")}
        case["at"] = sys.stdout.tell() if isinstance(sys.stdout, io.StringIO) else 0; case["names"] = [c.name for c in market.categories]
        log.append((case, t))
        if _label[0]: judge_label(mech, rest, *_label[0])
        return t
    return auction


def label_of(f):
    """Mechanism and options of an auction function that a study passes on."""
    kw = {}
    while isinstance(f, functools.partial): kw.update(f.keywords); f = f.func
    return next((m for m, g in MECH.items() if g is f), None), kw


_label = [None]


def wanted(name):
    """The mechanism a label names, and whether it names the variant without the heuristic."""
    n = str(name).replace("_", "").replace(" ", "").lower()
    return "MC" if "mcafee" in n else "TR" if "externalcompetition" in n else "AP" if "ascending" in n else None, "withoutheuristic" in n


def check_label(f, name, ctx):
    """A function of the library is judged at once; anything else by what it runs."""
    mech, kw = label_of(f)
    if mech is not None: judge_label(mech, kw, name, ctx)
    @functools.wraps(f)
    def labelled(*a, **k):
        _label[0] = (name, ctx)
        try: return f(*a, **k)
        finally: _label[0] = None
    return labelled


def judge_label(mech, kw, name, ctx):
    want, without = wanted(name)
    if want is None: ctx.count("labels not understood"); return
    if mech != want: raise core.Violation("LABEL", f"the auction labelled {name!r} is {mech}")
    if want == "MC" and without != (kw.get("price_heuristic", True) is False): raise core.Violation("LABEL", f"the auction labelled {name!r} runs with {kw}")
    ctx.count("labels judged")


def check_file(module, path, recipe, runs, prices, ctx):
    """What the name of a results file says of its recipe and of where the values come from."""
    name = os.path.basename(path)
    m = re.search(r"\(([\d, ]+)\)", name)
    if m and recipe is not None:
        if tuple(int(x) for x in m[1].replace(" ", "").split(",") if x) != tuple(recipe): raise core.Violation("FILE-NAME", f"{name} is about recipe {recipe}")
        ctx.count("file names judged")
    if module == "experiment_compare_iterations_autions" and runs and ("random" in name) != ("stock" in name):
        asked = [abs(v) for c, _ in runs for vs in c["vals"][1:] for v in vs]
        if len(asked) >= 6:
            drawn = sum(not any(x + d in prices for d in (-1, 0, 1)) for x in asked)
            if ("random" in name) != (drawn > 0): raise core.Violation("FILE-NAME", f"{name}: {drawn} of {len(asked)} values of sellers are no prices of a stock")
            ctx.count("file names judged")


def thin(xs, k):
    """First, last and some more of a study's sizes, at most k, as small as the sandbox can take."""
    xs = [x for x in xs if x <= 30] or [min(xs)]
    return tuple(xs[:k])


class Patched:
    def __init__(self, case, log, calls, ctx):
        self.undo = []; self.log = log; self.prices = case.get("prices") or set()
        self.w = sut.Watch(MECH, lambda m, f: record(m, f, log))
        for k in LIBS: self.set(_m[k], "experiment", self.small(_m[k].experiment, case, calls, ctx))
    def set(self, m, k, v): self.undo.append((m, k, getattr(m, k))); setattr(m, k, v)
    def small(self, real, case, calls, ctx):
        sig = inspect.signature(real)
        @functools.wraps(real)
        def experiment(*a, **k):
            b = sig.bind(*a, **k); b.apply_defaults(); g = b.arguments
            if "auction_function" in g: g["auction_function"] = check_label(g["auction_function"], g["auction_name"], ctx)
            if "auction_functions" in g:
                if len(g["auction_functions"]) != len(g["auction_names"]): raise core.Violation("LABEL", f"{len(g['auction_functions'])} auctions, names {g['auction_names']}")
                g["auction_functions"] = type(g["auction_functions"])(check_label(f, n, ctx) for f, n in zip(g["auction_functions"], g["auction_names"]))
            rs = g.get("recipes") or [g["recipe"]]
            if "value_ranges" in g and "recipes" not in g and "agent_counts" not in g and len(g["value_ranges"]) < len(g["recipe"]):
                raise core.Violation("RANGES", f"{len(g['value_ranges'])} ranges for recipe {g['recipe']}")
            if g.get("nums_of_agents") is not None: g["nums_of_agents"] = thin(g["nums_of_agents"], case["n"])
            for x in ("num_of_iterations", "iterations"):
                if x in g:
                    if g[x] < 1: raise core.Violation("ITERATIONS", f"{g[x]} iterations")
                    g[x] = min(g[x], case["iters"])
            before = lines_of(g["results_csv_file"])
            at = len(self.log)
            out = real(*b.args, **b.kwargs)
            check_file(real.__module__, g["results_csv_file"], rs[0] if len(rs) == 1 and "agent_counts" not in g else None, self.log[at:], self.prices, ctx)
            calls.append((real.__module__, g["results_csv_file"], before, lines_of(g["results_csv_file"]), dict(g)))
            return out
        return experiment
    def __enter__(self): return self
    def __exit__(self, *a):
        self.w.__exit__()
        for m, k, v in reversed(self.undo): setattr(m, k, v)


def lines_of(path):
    if not os.path.exists(path): return None
    with open(path, newline="") as f: return list(csv.reader(f))


def norm(x):
    try: return float(x)
    except ValueError: return x


def stock_rows(rng, k):
    """k rows of one of the shipped price files."""
    d = os.path.join(core.REPO, "stock", "stocks")
    names = sorted(f for f in os.listdir(d) if f.endswith(".csv")); name = rng.choice(names)
    if name not in _rows:
        with open(os.path.join(d, name)) as f: _rows[name] = f.read().splitlines()
    ls = _rows[name]; at = rng.randint(1, max(1, len(ls) - k))
    return name, [ls[0]] + ls[at:at + k]


def listing(d): return {os.path.relpath(os.path.join(a, f), d): os.path.getsize(os.path.join(a, f)) for a, _, fs in os.walk(d) for f in fs}


def judge(case, ctx):
    import logging, warnings; warnings.simplefilter("ignore")
    rng = random.Random(case["sub"]); random.seed(case["sub"])
    try:
        import numpy as np; np.random.seed(case["sub"] % (1 << 32))
    except ImportError: pass
    folder = tempfile.mkdtemp(dir=_tmp); stocks = tempfile.mkdtemp(dir=_tmp)
    os.mkdir(os.path.join(folder, "results")); os.chdir(folder)
    case = {**case, "prices": set()}
    for _ in range(case["stocks"]):
        name, rows = stock_rows(rng, case["rows"])
        cols = [rows[0].split(",").index(t) for t in ("Open", "High", "Low", "Close")]
        case["prices"].update(int(float(r.split(",")[j]) * 1000) for r in rows[1:] for j in cols)
        with open(os.path.join(stocks, name), "w") as f: f.write("\n".join(rows) + "\n")
    sd = _m["get_stocks_data"]; sd.STOCKS = stocks
    if hasattr(sd, "keep_all_prices"): sd.keep_all_prices.clear()
    log = []; calls = []; path = os.path.join(core.REPO, case["script"]); syspath = list(sys.path)
    levels = [(l, l.level) for l in sut.LOGGERS]; study = case["script"] in STUDIES
    out = io.StringIO(); old = sys.stdout; sys.stdout = out; done = False
    try:
        with Patched(case, log, calls, ctx):
            try: runpy.run_path(path, run_name="__main__")
            except SystemExit as e:
                if e.code not in (None, 0): raise core.Violation("EXIT", f"{case['script']} ends with status {e.code}")
        done = True
        ctx.count("studies" if study else "demos"); ctx.count("ran " + case["script"])
        if not log: raise core.Violation("NOTHING", f"{case['script']} runs no auction")
        made = listing(folder)
        stray = [f for f in made if not f.startswith("results" + os.sep) and not f.startswith("diff_in_sbbs")]
        if stray: raise core.Violation("FILES", f"{case['script']} writes {stray} outside its results folder")
        if study:
            if not calls: raise core.Violation("NOTHING", f"{case['script']} runs no experiment")
            files = {os.path.normpath(c[1]) for c in calls}
            if len(files) > len(made): raise core.Violation("FILES", f"{case['script']} announces {sorted(files)} and leaves {sorted(made)}")
            for mod, f, before, after, g in calls:
                if after is None: continue                # a results file whose name carries more than the announced name
                width = {len(r) for r in after}
                if len(after) < 2 or len(width) != 1: raise core.Violation("TABLE", f"{f} of {case['script']} has {len(after)} lines of {width} cells")
                if before and [list(map(norm, r)) for r in after[:len(before)]] != [list(map(norm, r)) for r in before]: raise core.Violation("TABLE", f"{f}: earlier rows changed")
                if before and len(after) <= len(before): ctx.count("experiments skipped")
                else: ctx.count("tables extended")
        text = out.getvalue()
        compared(case["script"], text, log, ctx)
        if not study: told(case["script"], text, log, ctx)
        for c, t in log:
            if not study and not text.strip(): raise core.Violation("SILENT", f"{case['script']} prints nothing")
            audit(c, t, ctx)
        ctx.sig(case["script"], case["n"], case["iters"], tuple((c["mech"], sum(map(len, c["vals"])), t.num_of_deals()) for c, t in log)[:40])
    finally:
        sys.stdout = old; sys.path[:] = syspath
        for l, v in levels: l.setLevel(v)
        os.chdir(_tmp); shutil.rmtree(folder, ignore_errors=True); shutil.rmtree(stocks, ignore_errors=True)


def compared(script, text, log, ctx):
    """What a demo prints as the trade without, and with, deals of zero gain is that."""
    lines = [l for l in text.splitlines() if l.startswith("Compare: Without:")]
    m = [re.match(r"Compare: Without: (\S+) With: (\S+)$", l) for l in lines]
    if not m or None in m: return
    trades = {z: [t for c, t in log if c["mech"] == "TR" and c["opts"].get("including_gft_0", True) is z] for z in (False, True)}
    if not trades[False] or not trades[True]: raise core.Violation("LABEL", f"{script} compares trades with and without deals of zero gain, but runs {len(trades[False])} auctions without and {len(trades[True])} with them")
    for side, z in ((1, False), (2, True)):
        for x in m:
            if not any(x[side] in (str(t.gain_from_trade()), str(t.num_of_deals())) for t in trades[z]): raise core.Violation("LABEL", f"{script} prints {x[0]!r}, which is no gain or number of deals of an auction with including_gft_0={z}")
    ctx.count("comparisons judged")


RUNS = {"budget_balanced_ascending_auction": "AP", "mcafee_trade_reduction": "MC", "budget_balanced_trade_reduction": "TR"}


def wrong(c, before):
    """What the text before a printed trade announces and its auction is not."""
    kinds = re.findall(r"TYPE \(([\d, ]+)\)", before); n = 0
    if kinds and not sut.is_tree(c):
        want = [int(x) for x in kinds[-1].split(",")]
        if len(want) == len(c["recipe"]):
            if sorted(want) != sorted(c["recipe"]): return f"type ({kinds[-1]}) and runs recipe {c['recipe']}", n
            n += 1
    ran = re.findall(r"RUNNING (%s)\b" % "|".join(RUNS), before)
    if ran:
        if RUNS[ran[-1]] != c["mech"]: return f"{ran[-1]} and runs {c['mech']}", n
        n += 1
    order = re.findall(r"#+ [^\n]*: (\w+(?:-\w+)+)\s*\n", before)
    if order and order[-1].count("-") == len(c["names"]) - 1:
        if order[-1].split("-") != [x + "s" for x in c["names"]]: return f"{order[-1]} and runs {c['names']}", n
        n += 1
    return None, n


def told(script, text, log, ctx):
    """What a demo announces of an auction is what it runs, and the trades it prints are those of its auctions."""
    end = text.find("RUNNING EXPERIMENT"); end = len(text) if end < 0 else end
    for c, t in log:
        if c["at"] > end or script not in PRINTING: continue
        s = str(t); where = [m.start() for m in re.finditer(re.escape(s), text) if m.start() >= c["at"]]
        if not where: raise core.Violation("PRINTED", f"{script} does not print the trade {s!r} of an auction it runs")
        ctx.count("printed trades judged")
        said = [wrong(c, text[:w]) for w in where]           # the same trade may be printed several times
        if all(x for x, _ in said): raise core.Violation("HEADING", f"{script} announces {said[0][0]}")
        ctx.count("headings judged", max(n for x, n in said if not x))
    for word in ("Optimal", "Actual"):
        lines = re.findall(r"^%s: (\d+)$" % word, text, re.M)
        if len(lines) != len(log): continue
        for x, (c, t) in zip(lines, log):
            if word == "Actual": least = most = t.num_of_deals()
            else: least, most = (refs.optimum([[v + d for v in vs] for vs in c["vals"]], c["recipe"])[0] for d in (-EPS, EPS))     # the scripts add floats
            if not least <= int(x) <= most: raise core.Violation("PRINTED", f"{script} prints {word}: {x}; the right number is {least}{'' if least == most else f' or {most}'}")
            ctx.count("printed trades judged")


EPS = F(1, 10 ** 9)
PRINTING = set(DEMOS) - {"stock/finding_bad_input_for_ascending_auction.py"}


def audit(c, t, ctx):
    o = sut.outcome(t)
    ctx.count("auctions judged"); ctx.count("auctions:" + c["mech"])
    if o.deals: ctx.count("deals:" + c["mech"])
    sub = core.Ctx()
    try:
        for p in [p01, p02, p04] + ([p06] if sut.is_tree(c) else [p05] if c["opts"].get("including_gft_0", True) else []) + [p18]:
            p.judge_outcome(c, o, sub); ctx.count("verdicts")
    except core.Violation as v:
        raise core.Violation(v.kind, f"{v.message} -- auction {c['mech']} of recipe {c.get('recipe') or (c['struct'], c.get('counts'))} on {core.show(c['vals'])}")


def smaller(case):
    for k in ("n", "iters", "stocks"):
        if case[k] > 1: yield {**case, k: 1}
    if case["rows"] > 4: yield {**case, "rows": 4}


REQUIRED = {"demos": len(DEMOS), "studies": len(STUDIES), "auctions judged": 2000, "labels judged": 200, "comparisons judged": 2, "headings judged": 20, "printed trades judged": 30, "file names judged": 100, "tables extended": 200, "verdicts": 8000,
            "deals:AP": 200, "deals:TR": 200, "deals:MC": 50, "deals:TP": 20, "deals:TI": 10}
REQUIRED.update({"ran " + s: 1 for s in DEMOS + STUDIES})
RULE = "a case is one script run to its end with thinned-out sizes; distinct by script, sizes, and the auctions and deals it made"
ASSUMPTIONS = ["Sizes and iterations of the studies are cut down (the first few sizes up to 30 traders, up to 3 iterations); stock prices are rows of the shipped files.",
               "stock/ascending_auction_demo_12_stock.py is left out: it imports a module that does not exist. The old/ demos are left out (superseded protocols)."]
