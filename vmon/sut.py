"""Imports the code under test from /repo (current working tree) and runs auctions at its public boundary."""
import importlib, logging, os, sys
from fractions import Fraction
from . import core

_real = sys.stdout
sys.stdout = core.SINK          # log handlers of the library bind to the stdout of import time
try:
    if core.REPO not in sys.path: sys.path.insert(0, core.REPO)
    import numpy as np
    agents = importlib.import_module("agents")
    markets = importlib.import_module("markets")
    trade = importlib.import_module("trade")
    prices = importlib.import_module("prices")
    prices_integer = importlib.import_module("prices_integer")
    recipetree = importlib.import_module("recipetree")
    recipetree_integer = importlib.import_module("recipetree_integer")
    AP = importlib.import_module("ascending_auction_protocol")
    TR = importlib.import_module("trade_reduction_protocol")
    MC = importlib.import_module("mcafee_protocol")
    TP = importlib.import_module("ascending_auction_recipetree_protocol")
    TI = importlib.import_module("ascending_auction_recipetree_integer_protocol")
finally:
    sys.stdout = _real
assert os.path.dirname(os.path.abspath(agents.__file__)) == os.path.abspath(core.REPO)

LOGGERS = [m.logger for m in (prices, prices_integer, recipetree, recipetree_integer, AP, TR, MC, TP, TI) if hasattr(m, "logger")]


def set_logging(level):
    for l in LOGGERS: l.setLevel(level)


def conv(v, typ, i=0):
    """Convert an exact value into the numeric type used by a case."""
    if typ == "frac": return Fraction(v)
    if typ == "int": return int(v)
    if typ == "float": return float(v)
    if typ == "np": return np.float64(float(v))
    if typ == "npint": return np.int64(int(v))
    if typ == "mixed": return int(v) if (v == int(v) and i % 2) else float(v)
    raise ValueError(typ)


def exact(x):
    """Exact rational value of any number the library returned."""
    if isinstance(x, Fraction): return x
    if isinstance(x, (bool, int)): return Fraction(int(x))
    f = float(x)
    if f != f or f in (float("inf"), float("-inf")):
        raise core.Violation("NOT-A-NUMBER", f"the library returned {x!r}")
    if isinstance(x, np.integer): return Fraction(int(x))
    return Fraction(f)


def build_market(case):
    typ = case.get("typ", "frac")
    names = case.get("names") or [f"c{i}" for i in range(len(case["vals"]))]
    rows = [[conv(v, typ, j) for j, v in enumerate(vs)] for vs in case["vals"]]
    h = case.get("history")                              # how the market came to be must not matter
    if h == "late":                                      # traders join after the market was opened
        m = markets.Market([agents.AgentCategory(n, r[:len(r) // 2]) for n, r in zip(names, rows)])
        for i, r in enumerate(rows):
            for v in r[len(r) // 2:]: m.append_trader(i, v)
        return m
    if h == "filled":                                    # a market of empty categories, which fill up
        m = markets.Market([agents.AgentCategory(n, []) for n in names])
        for c, r in zip(m.categories, rows): c.append(list(r))
        return m
    if h == "left":                                      # traders leave again
        m = markets.Market([agents.AgentCategory(n, r) for n, r in zip(names, rows)])
        for c in m.categories:
            top = conv(Fraction(10**6), typ, 0) if not c.values else c.values[0]
            c.append([top, top]); c.remove_highest_agents(2)
        return m
    return markets.Market([agents.AgentCategory(n, r) for n, r in zip(names, rows)])


def recipe_obj(case):
    r = list(case["recipe"])
    return tuple(r) if case.get("rtype") == "tuple" else r


class Outcome:
    __slots__ = ("trade", "deals", "prices", "cats", "raw_prices")


def call(case, market, recipe=None):
    """Run the auction named by the case on the given market."""
    mech = case["mech"]; opts = case.get("opts") or {}
    if mech == "AP": return AP.budget_balanced_ascending_auction(market, recipe if recipe is not None else recipe_obj(case), **opts)
    if mech == "TR": return TR.budget_balanced_trade_reduction(market, recipe if recipe is not None else recipe_obj(case), **opts)
    if mech == "MC": return MC.mcafee_trade_reduction(market, recipe if recipe is not None else recipe_obj(case), **opts)
    if mech == "TP": return TP.budget_balanced_ascending_auction(market, recipe if recipe is not None else case["struct"])
    if mech == "TI":
        if case.get("counts") is None: return TI.budget_balanced_ascending_auction(market, recipe if recipe is not None else case["struct"])
        return TI.budget_balanced_ascending_auction(market, recipe if recipe is not None else case["struct"], list(case["counts"]))
    raise ValueError(mech)


def outcome(t):
    o = Outcome()
    o.trade = t
    o.deals = t.num_of_deals()
    if isinstance(o.deals, bool) or int(o.deals) != o.deals or o.deals < 0:
        raise core.Violation("BAD-DEALS", f"the number of deals is {o.deals!r}")
    o.raw_prices = t.prices
    o.prices = None
    if o.deals > 0:
        if t.prices is None: raise core.Violation("NO-PRICES", f"{o.deals} deals but no prices")
        o.prices = [exact(p) for p in t.prices]
    o.cats = [[exact(v) for v in c.values] for c in t.categories]
    return o


def run(case):
    """Build the market of a case, run its auction, and return the observed outcome."""
    log = case.get("log")
    if log: set_logging(logging.DEBUG if log == "debug" else logging.INFO)
    try:
        market = build_market(case)
        return outcome(call(case, market))
    finally:
        if log: set_logging(logging.WARNING)


def is_tree(case): return case["mech"] in ("TP", "TI")


def effective_counts(case):
    n = len(case["vals"])
    if case["mech"] == "TI" and case.get("counts"): return list(case["counts"])
    return [1] * n


def paths_of(struct):
    """Root-to-leaf paths of a nested-list recipe tree."""
    node, kids = struct
    if kids is None: return [[node]]
    out = []
    for i in range(0, len(kids), 2):
        for p in paths_of([kids[i], kids[i + 1]]): out.append([node] + p)
    return out


def recipes_of(case):
    """All recipes of a case, as vectors."""
    n = len(case["vals"])
    if not is_tree(case): return [list(case["recipe"])]
    cnt = effective_counts(case)
    return [[cnt[i] if i in p else 0 for i in range(n)] for p in paths_of(case["struct"])]


def used_categories(case):
    rs = recipes_of(case)
    return [i for i in range(len(case["vals"])) if any(r[i] > 0 for r in rs)]


def tol(case, prices=()):
    """Numeric tolerance: tight where the arithmetic is exact or well conditioned, looser for float price clocks
    that start at minus one hundred million."""
    used = used_categories(case)
    m = max([1] + [abs(prices[i]) for i in used if prices is not None and i < len(prices)] + [abs(v) for i in used for v in case["vals"][i]])
    if case.get("typ") == "frac" and not is_tree(case): return Fraction(m) / 10**9
    if binary(case): return Fraction(m) / 10**9 + (Fraction(1, 10**7) if is_tree(case) else 0)
    return max(Fraction(1, 10**5), Fraction(m) / 10**9)


def binary(case):
    """Whether doubles represent all values, and all prices of the clocks, exactly."""
    if is_tree(case): cs = effective_counts(case)
    else: cs = [c for c in case["recipe"] if c]
    return all(c & (c - 1) == 0 for c in cs) and all((v.denominator & (v.denominator - 1)) == 0 and v.denominator <= 1 << 20 for vs in case["vals"] for v in vs)


def chances(case, o):
    """Probability that a remaining trader of each category takes part in the trade (the outcome's lottery)."""
    n = len(case["vals"])
    if not is_tree(case):
        return {i: (Fraction(o.deals * r, len(o.cats[i])) if o.cats[i] else Fraction(0)) for i, r in enumerate(case["recipe"])}
    from . import refs
    got = refs.TreeModel(case["struct"], o.cats, effective_counts(case)).chances()
    return {i: got.get(i, Fraction(0)) for i in range(n)}


def describe(case, o):
    """Short, deterministic summary of an outcome for coverage signatures."""
    return (case["mech"], case.get("prof"), case.get("typ"), len(case["vals"]), tuple(len(v) for v in case["vals"]), o.deals,
            tuple(case["recipe"]) if not is_tree(case) else repr(case["struct"]), tuple(case.get("counts") or ()))


# ------------------------------------------------------------------ watching calls of an auction
def _through(*a, **k): return _vmon_watch(*a, **k)          # noqa: F821 (resolved in the globals of the watched function)


class Watch:
    """While active, every call of the given auctions, through whatever name, table or partial it is reached, goes through
    make(mech, original): the code of the function object itself is exchanged, and put back afterwards."""
    def __init__(self, auctions, make):
        import types
        self.undo = []; self.orig = {}
        taken = set()
        for mech, f in auctions.items():
            if isinstance(f, types.FunctionType) and f.__closure__ is None and id(f.__globals__) not in taken:
                taken.add(id(f.__globals__))
                o = types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__); o.__kwdefaults__ = f.__kwdefaults__; o.__annotations__ = f.__annotations__
                self.undo.append((f, f.__code__, f.__defaults__, f.__kwdefaults__))
                f.__globals__["_vmon_watch"] = make(mech, o)
                f.__code__ = _through.__code__; f.__defaults__ = None; f.__kwdefaults__ = None
                self.orig[mech] = o
            else:                                            # a wrapped function: exchange it wherever a module holds it
                w = make(mech, f); self.orig[mech] = f
                for m in list(sys.modules.values()):
                    if not str(getattr(m, "__file__", "") or "").startswith(core.REPO): continue
                    for k, v in list(vars(m).items()):
                        if v is f: self.undo.append((m, k, v, None)); setattr(m, k, w)
    def __enter__(self): return self
    def __exit__(self, *a):
        for x in reversed(self.undo):
            if isinstance(x[1], str): setattr(x[0], x[1], x[2])
            else: x[0].__code__, x[0].__defaults__, x[0].__kwdefaults__ = x[1:]; x[0].__globals__.pop("_vmon_watch", None)
