"""Every auction ends, in logical steps, with a well-formed answer, on hostile markets."""
import collections, random, sys
from fractions import Fraction as F
from .. import core, gen as G, sut

ID = "P16"
CASES = {"quick": 40000, "thorough": 600000}
FILES = ["ascending_auction_protocol.py", "trade_reduction_protocol.py", "mcafee_protocol.py", "ascending_auction_recipetree_protocol.py",
         "ascending_auction_recipetree_integer_protocol.py", "markets.py", "recipetree.py", "recipetree_integer.py", "prices.py", "prices_integer.py", "trade.py"]
RULE = "a case is one hostile market run to completion under a step counter; distinct by mechanism, profile, market shape, recipes and number of deals"
ASSUMPTIONS = ["A step is one executed source line of the code under test; the bound is about ten times the most ever observed on correct code.",
               "Values lie strictly inside the documented range of plus or minus one hundred million."]
REQUIRED = {"ended": 2000, "with an empty category": 300, "near the limits": 300, "all values equal": 100, "non-dyadic": 300, "one-sided": 200, "many traders": 50, "thousands of traders": 15}
PER = 400


class Steps:
    """Persistent counter of executed lines of the code under test."""
    TOOL = 5
    def __init__(self):
        self.count = 0; self.limit = 1 << 60
        m = sys.monitoring; m.use_tool_id(self.TOOL, "vmon-p16")
        prefix = core.REPO + "/"; me = self
        def on_line(code, line):
            if not code.co_filename.startswith(prefix): return m.DISABLE
            me.count += 1
            if me.count > me.limit:
                me.limit = 1 << 60
                raise core.StepLimit(me.count)
        def on_jump(code, src, dst): return on_line(code, None)
        m.register_callback(self.TOOL, m.events.LINE, on_line); m.register_callback(self.TOOL, m.events.JUMP, on_jump)
        m.set_events(self.TOOL, m.events.LINE | m.events.JUMP)


_steps = None


def steps():
    global _steps
    if _steps is None: _steps = Steps()
    return _steps


def worker_init(wid): steps()


def hostile(rng, n, prof, tier):
    """Values of one category as exact numbers."""
    if prof == "limits": return [F(rng.choice([1, -1]) * rng.choice([99999999, 99999998, 99999990, 9 * 10**7, 5 * 10**7])) + F(rng.randint(0, 3), 4) * 0 for _ in range(n)]
    if prof == "limits-dense": return [F(-99999999) + F(rng.randint(0, 64), 64) for _ in range(n)]
    if prof == "equal": return [F(7)] * n
    if prof == "zero": return [F(0)] * n
    if prof == "decimal": return [F(float(rng.randint(-300, 300)) / rng.choice([3, 7, 10, 100, 0.3, 1e6])) for _ in range(n)]
    if prof == "tiny": return [F(rng.uniform(-1, 1) * rng.choice([1e-9, 1e-6, 1e-300, 1])) for _ in range(n)]
    if prof == "uniform": return [F(rng.uniform(-1000, 1000)) for _ in range(n)]
    if prof == "positive": return [F(rng.randint(1, 50)) for _ in range(n)]
    if prof == "negative": return [F(-rng.randint(1, 50)) for _ in range(n)]
    if prof == "two": return [F(rng.choice([5, -5])) for _ in range(n)]
    raise ValueError(prof)


def gen(rng, i, tier):
    mech = rng.choice(["AP", "TR", "MC", "TP", "TI", "TP", "TI"])
    prof = rng.choice(["limits", "limits-dense", "equal", "zero", "decimal", "tiny", "uniform", "positive", "negative", "two", "sided", "sided", "sided"])
    n = rng.choice([2, 2, 2, 2, 3, 4, 5]) if mech == "MC" else rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 10])
    long = rng.random() < .002                            # thousands of price steps
    if long: n = rng.choice([2, 2, 3]); mech = rng.choice([mech, "TP", "TI"]); prof = "sided"; n = 2 if mech == "MC" else n
    if mech in ("TP", "TI") and not long and rng.random() < .1: n = rng.randint(10, 16)
    case = {"mech": mech, "prof": prof}
    if mech in ("TP", "TI"):
        total = n + (rng.random() < .1)
        case["struct"] = G.tree(rng, n, total)
        if mech == "TI" and rng.random() < .8: case["counts"] = [rng.choice([1, 1, 1, 2, 3, 4, 6]) for _ in range(total)]
    else:
        total = n
        case["recipe"] = [1] * n if mech == "MC" else G.recipe(rng, n, allow_zero=True)
        if not any(case["recipe"]): case["recipe"][0] = 1
        case["opts"] = {}
    need = sut.effective_counts({**case, "vals": [[]] * total}) if mech in ("TP", "TI") else case["recipe"]
    vals = []
    base = rng.choice([0, 1, 1, 2, 3, 5, 8, 13]); buyer = rng.randrange(total)
    skew = rng.random() < .3
    for j in range(total):
        s = rng.choice([0, 0, 1, 2, 3, 30, 100]) if skew else max(0, base + rng.randint(-1, 1)) * (need[j] or 1) + rng.choice([0, 0, 1, -1])
        s = max(0, s)
        if long: s = rng.randint(900, 2500) * (need[j] or 1)
        if prof == "sided" or mech == "MC":
            mag = rng.choice([1, 10, 1000, 9.9e7 / 60])
            v = [F(rng.uniform(0, 60 * mag)) if rng.random() < .7 else F(rng.randint(0, 60)) for _ in range(s)]
            v = [x if j == buyer else -x for x in v]
        else: v = hostile(rng, s, prof, tier)
        vals.append(v)
    if not long and rng.random() < .15: vals[rng.randrange(total)] = []
    case["vals"] = vals
    allint = all(x.denominator == 1 for v in vals for x in v)
    case["typ"] = rng.choice(["int", "float", "npint"]) if allint else rng.choice(["float", "float", "np"] + ([] if mech in ("TP", "TI") else ["frac"]))
    if not long and rng.random() < .03: case["log"] = "info"
    return case


def judge(case, ctx):
    sc = steps()
    N = sum(map(len, case["vals"])); n = len(case["vals"])
    R = sum(map(sum, sut.recipes_of(case)))
    limit = PER * (N + n + 1) * (n + R + 1)
    log = case.get("log")
    sc.count = 0; sc.limit = limit
    try:
        o = sut.run(case)
        t = o.trade
        text = str(t); g = t.gain_from_trade(); g2 = t.gain_from_trade(including_auctioneer=False)
    except core.StepLimit:
        raise core.Violation("NO-END", f"still running after {limit} steps on {N} traders of {n} categories")
    finally:
        sc.limit = 1 << 60
    ctx.count("ended"); ctx.counters["most steps per unit x100"] = max(ctx.counters["most steps per unit x100"], int(100 * sc.count / ((N + n + 1) * (n + R + 1))))
    if any(not v for v in case["vals"]): ctx.count("with an empty category")
    if case["prof"] in ("limits", "limits-dense"): ctx.count("near the limits")
    if case["prof"] in ("equal", "zero"): ctx.count("all values equal")
    if case["prof"] in ("decimal", "tiny", "uniform", "sided"): ctx.count("non-dyadic")
    if case["prof"] in ("positive", "negative"): ctx.count("one-sided")
    if N > 60: ctx.count("many traders")
    if N > 1800: ctx.count("thousands of traders")
    sut.exact(g); sut.exact(g2)
    if o.deals:
        if len(o.prices) != n: raise core.Violation("SHAPE", f"{len(o.prices)} prices for {n} categories")
        if not text or text == "No trade": raise core.Violation("SHAPE", f"{o.deals} deals reported as {text!r}")
    elif text != "No trade": raise core.Violation("SHAPE", f"no deal reported as {text!r}")
    if len(o.cats) != n: raise core.Violation("SHAPE", f"{len(o.cats)} categories in the trade, {n} in the market")
    m = sut.build_market({**case, "log": None})
    for i in range(n):
        extra = collections.Counter(o.cats[i]) - collections.Counter(sut.exact(v) for v in m.categories[i].values)
        if extra: raise core.Violation("INVENTED", f"category {i} has traders {core.show(list(extra))} that are not in the market")
    if not sut.is_tree(case):
        if any(len(o.cats[i]) < o.deals * r for i, r in enumerate(case["recipe"])): raise core.Violation("INFEASIBLE", f"{o.deals} deals, remaining {list(map(len, o.cats))}, recipe {case['recipe']}")
    ctx.sig(sut.describe(case, o))


smaller = G.smaller
