"""Auctions do not depend on the unit of money, nor on a transfer that cancels out within every deal."""
import copy
from fractions import Fraction as F
from .. import core, gen as G, sut

ID = "P19"
CASES = {"quick": 40000, "thorough": 1200000}
FILES = ["ascending_auction_protocol.py", "trade_reduction_protocol.py", "mcafee_protocol.py", "ascending_auction_recipetree_protocol.py",
         "ascending_auction_recipetree_integer_protocol.py", "markets.py", "prices.py", "prices_integer.py", "trade.py"]
RULE = "a case runs a market and its rescaled or shifted twin; non-trivial when at least one deal is made; distinct by relation, mechanism, number type, market shape, recipes and deals"
ASSUMPTIONS = ["Scaling is by powers of two and values have few binary digits, so that doubles do not round; values stay well inside the documented range of plus or minus one hundred million.",
               "Shifts are required of the single-recipe auctions except McAfee's (whose price depends on signs) and of single-recipe trees: with several recipes the simultaneous clocks start at absolute prices."]
REQUIRED = {"scaled": 3000, "shifted": 2000, "deals made": 2000, "scaled down": 1000}


def gen(rng, i, tier):
    rel = rng.choice(["scale", "scale", "shift"])
    prof = rng.choice(["ties", "small", "anysign", "constant", "zeros", "exactzero", "fine", "pareto"])
    if rng.random() < .55:
        c = G.single_case(rng, tier, mechs=("AP", "TR", "MC") if rel == "scale" else ("AP", "TR"), profile=None if rel == "scale" else prof, log=False)
        c["opts"] = {} if rng.random() < .7 or c["mech"] == "AP" else ({"including_gft_0": False} if c["mech"] == "TR" else {"price_heuristic": False})
    else:
        c = G.tree_case(rng, tier, profile=prof, log=False)
        if c.get("counts"): c["counts"] = [1 << (x - 1) if x < 4 else 2 for x in c["counts"]]
        if rel == "shift":
            order = sorted({j for p in sut.paths_of(c["struct"]) for j in p}); rng.shuffle(order)
            st = None
            for j in order: st = [j, st]
            c["struct"] = st
    c["rel"] = rel
    # keep the number of binary digits low
    c["vals"] = [[F(round(v * 256), 256) for v in vs] for vs in c["vals"]]
    hi = max([1] + [abs(v) for vs in c["vals"] for v in vs])
    if rel == "scale":
        lo = -40 if c["typ"] == "frac" and not sut.is_tree(c) else -12
        top = 0
        while hi * 2 ** (top + 1) < 10**6 and top < 16: top += 1
        if c["typ"] in ("int", "npint"): lo = 1; top = max(top, 1)
        c["exp"] = rng.randint(lo, max(lo, top)) or 1
        if hi * F(2) ** c["exp"] > 5 * 10**6: c["exp"] = -1; c["typ"] = "float" if c["typ"] in ("int", "npint") else c["typ"]
    hi2 = hi * max(1, F(2) ** c.get("exp", 0)) * max(sum(r) for r in sut.recipes_of(c))
    if hi2 > 5 * 10**7: return None
    if rel == "shift":
        n = len(c["vals"]); rs = sut.recipes_of(c)[0]
        used = [j for j in range(n) if rs[j] > 0]
        sh = [F(rng.randint(-200, 200)) * rng.choice([1, 1, F(1, 2), 50]) for _ in range(n)]
        j = rng.choice(used)
        if any(r & (r - 1) for r in rs): c["typ"] = "frac" if not sut.is_tree(c) else c["typ"]
        rest = sum(sh[k] * rs[k] for k in used if k != j)
        sh[j] = F(-rest) / rs[j]
        if c["typ"] in ("int", "npint") and any(x.denominator > 1 for x in sh): c["typ"] = "float"
        c["shift"] = sh
    return c


def judge(case, ctx):
    a = sut.run(case)
    c2 = copy.deepcopy(case); n = len(case["vals"]); used = sut.used_categories(case)
    if case["rel"] == "scale":
        k = F(2) ** case["exp"]
        c2["vals"] = [[v * k for v in vs] for vs in case["vals"]]
        f = lambda i, v: v * k
        gain = lambda g: g * k
        ctx.count("scaled")
        if k < 1: ctx.count("scaled down")
        name = "UNIT-MATTERS"
    else:
        k = F(1); sh = case["shift"]
        c2["vals"] = [[v + sh[i] for v in vs] for i, vs in enumerate(case["vals"])]
        f = lambda i, v: v + sh[i]
        gain = lambda g: g
        ctx.count("shifted"); name = "TRANSFER-MATTERS"
    b = sut.run(c2)
    if a.deals: ctx.count("deals made"); ctx.sig(case["rel"], sut.describe(case, a))
    if a.deals != b.deals: raise core.Violation(name, f"{a.deals} deals, the twin {b.deals}")
    for i in used:
        if [f(i, v) for v in sorted(a.cats[i])] != sorted(b.cats[i]): raise core.Violation(name, f"category {i}: {core.show(a.cats[i])} remain, in the twin {core.show(b.cats[i])}")
    if a.deals:
        # prices: relative to the unit in single-recipe auctions
        if sut.is_tree(case): t = F(1, 10**5) * max(1, k)
        else: t = max(max([F(1, 10**6)] + [abs(p) for p in a.prices]) * k / 10**8, F(1, 10**7))          # a price may be reached by steps from the start (-10^8), whose last digit is worth 10^-8
        part = [i for i in used if sut.chances(case, a)[i] > 0]
        if case["rel"] == "shift": t = max(t, F(1, 10**5))
        for i in part:
            if abs(f(i, a.prices[i]) - b.prices[i]) > t: raise core.Violation(name, f"price of category {i} is {float(a.prices[i])}, in the twin {float(b.prices[i])} (expected {float(f(i, a.prices[i]))})")
        if case["rel"] == "scale":
            ga, gb = sut.exact(a.trade.gain_from_trade()), sut.exact(b.trade.gain_from_trade())
            if abs(gain(ga) - gb) > t * (1 + sum(map(len, case["vals"]))): raise core.Violation(name, f"gain {float(ga)}, in the twin {float(gb)}")


smaller = G.smaller
