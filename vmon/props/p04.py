"""Feasible trades, the best traders, nobody better left out."""
from fractions import Fraction as F
from .. import core, gen as G, sut, refs

ID = "P04"
CASES = {"quick": 90000, "thorough": 3000000}
FILES = ["ascending_auction_protocol.py", "trade_reduction_protocol.py", "mcafee_protocol.py", "ascending_auction_recipetree_protocol.py",
         "ascending_auction_recipetree_integer_protocol.py", "trade.py", "recipetree.py", "recipetree_integer.py", "markets.py", "agents.py"]
RULE = "a case is non-trivial when at least one deal is made; two cases differ when mechanism, number type, market shape, recipe(s) or number of deals differ"
ASSUMPTIONS = ["For external competition with recipes that need several traders of one category, only 'traders are the best of their category' is required, not 'everybody left out is worth at most the price'."]
REQUIRED = {f"deals:{m}": 50 for m in ("AP", "TR", "MC", "TP", "TI")}
REQUIRED["lotteries"] = 100


def gen(rng, i, tier):
    if rng.random() < .5:
        c = G.single_case(rng, tier, anysign=False)
        if c["mech"] == "TR" and rng.random() < .15: c["opts"] = {"including_gft_0": False}
        return c
    return G.tree_case(rng, tier)


def judge(case, ctx): judge_outcome(case, sut.run(case), ctx)


def judge_outcome(case, o, ctx):
    ctx.count(f"runs:{case['mech']}")
    orig = [sorted((sut.exact(sut.conv(v, case["typ"], k)) for k, v in enumerate(vs)), reverse=True) for vs in case["vals"]]
    if len(o.cats) != len(orig): raise core.Violation("CATEGORIES", f"{len(o.cats)} categories in the outcome, {len(orig)} in the market")
    used = sut.used_categories(case)
    # only traders of the market, each at most once, the best ones first
    for i in used:
        if o.cats[i] != orig[i][:len(o.cats[i])] and o.deals > 0:
            raise core.Violation("NOT-BEST", f"traders of category {i} are {core.show(o.cats[i])}, the market has {core.show(orig[i])}")
    # number of deals is what the chosen traders support, in whole deals of some recipe
    cnt = sut.effective_counts(case)
    if sut.is_tree(case):
        want = refs.TreeModel(case["struct"], o.cats, cnt).deals()
    else:
        want = min(len(o.cats[i]) // r for i, r in enumerate(case["recipe"]) if r > 0)
    if o.deals != want:
        raise core.Violation("NOT-FEASIBLE" if o.deals > want else "TRADERS-IDLE", f"{o.deals} deals reported, the chosen traders support {want}")
    if o.deals == 0: return
    ctx.count(f"deals:{case['mech']}"); ctx.sig(sut.describe(case, o))
    ch = sut.chances(case, o)
    for i in used:
        if ch[i] > 1: raise core.Violation("NOT-FEASIBLE", f"category {i} needs more traders than it has")
        if 0 < ch[i] < 1: ctx.count("lotteries")
    # nobody who would want to trade at the price is left out
    if case["mech"] != "TR" or all(r <= 1 for r in case["recipe"]):
        t = sut.tol(case, o.prices)
        for i in used:
            for v in orig[i][len(o.cats[i]):]:
                ctx.count("excluded traders judged")
                if v > o.prices[i] + t:
                    raise core.Violation("LEFT-OUT", f"a trader of category {i} with value {float(v)} is left out although the price is {float(o.prices[i])}")


smaller = G.smaller
