"""Recipe-tree auctions: at most one deal lost per recipe, gain close to the optimum."""
from fractions import Fraction as F
from .. import core, gen as G, sut, refs

ID = "P06"
CASES = {"quick": 50000, "thorough": 1500000}
FILES = ["ascending_auction_recipetree_protocol.py", "ascending_auction_recipetree_integer_protocol.py", "recipetree.py", "recipetree_integer.py", "prices.py", "prices_integer.py"]
RULE = "a case is non-trivial when the optimal trade has at least one deal; two cases differ when mechanism, number type, market shape, tree or number of deals differ"
ASSUMPTIONS = ["The lower bounds are required of markets in which all values differ (with ties several traders leave at once); the upper bounds of all markets.",
               "The (1-1/kmin) share of the gain is required of recipes with one trader per category; kmin is the number of deals of the least used recipe."]
REQUIRED = {"lower bound judged": 500, "gain bound judged (kmin>1)": 100, "all optimal deals made": 100, "fewer deals than optimal": 100}


def gen(rng, i, tier):
    d = rng.random() < .75
    c = G.tree_case(rng, tier, distinct=d)
    c["distinct"] = d
    return c


def judge(case, ctx): judge_outcome(case, sut.run(case), ctx)


def judge_outcome(case, o, ctx):
    k, opt = refs.TreeModel(case["struct"], case["vals"], sut.effective_counts(case)).optimum()
    m = case["mech"]; ctx.count(f"runs:{m}")
    if o.deals > k: raise core.Violation("TOO-MANY", f"{o.deals} deals, the optimal trade has {k}")
    rep = sut.exact(o.trade.gain_from_trade())
    scale = max([F(1)] + [abs(v) for vs in case["vals"] for v in vs]) * (1 + sum(map(len, case["vals"]))) / 10**9
    if rep > opt + scale: raise core.Violation("GAIN-ABOVE-OPTIMUM", f"reported gain {float(rep)} exceeds the optimum {float(opt)}")
    if o.deals == 0 and rep > scale: raise core.Violation("GAIN-WITHOUT-DEALS", f"no deals but a reported gain of {float(rep)}")
    if k == 0: return
    ctx.sig(sut.describe(case, o))
    ctx.count("all optimal deals made" if o.deals == k else "fewer deals than optimal")
    if not case["distinct"]: return
    paths = len(sut.paths_of(case["struct"]))
    ctx.count("lower bound judged")
    if o.deals < k - paths: raise core.Violation("TOO-FEW", f"{o.deals} deals with {paths} recipes, the optimal trade has {k}")
    if all(x == 1 for x in sut.effective_counts(case)) or paths == 1:
        kmin = min(refs.TreeModel(case["struct"], case["vals"], sut.effective_counts(case)).per_leaf().values(), default=0)
        if 0 < kmin <= k:
            if kmin > 1: ctx.count("gain bound judged (kmin>1)")
            if rep < opt * (1 - F(1, kmin)) - scale:
                raise core.Violation("GAIN-TOO-LOW", f"reported gain {float(rep)} is below (1-1/{kmin}) of the optimum {float(opt)}")


smaller = G.smaller
