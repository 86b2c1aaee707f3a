"""Single-recipe auctions lose at most one deal and at most a 1/k share of the gain."""
from fractions import Fraction as F
from .. import core, gen as G, sut, refs

ID = "P05"
CASES = {"quick": 90000, "thorough": 3000000}
FILES = ["ascending_auction_protocol.py", "trade_reduction_protocol.py", "mcafee_protocol.py", "trade.py", "markets.py"]
RULE = "a case is non-trivial when the optimal trade has at least one deal; two cases differ when mechanism, number type, market shape, recipe or number of deals differ"
ASSUMPTIONS = ["The optimum is computed by an independent greedy model that P07 compares with exhaustive search.",
               "External competition runs with its default handling of zero-gain competition."]
REQUIRED = {"AP: k-1 deals": 50, "AP: k deals": 50, "TR: k-1 deals": 50, "TR: k deals": 50, "MC: k-1 deals": 50, "MC: k deals": 50}


def gen(rng, i, tier): return G.single_case(rng, tier, mc_average=True)


def judge(case, ctx): judge_outcome(case, sut.run(case), ctx)


def judge_outcome(case, o, ctx):
    k, opt, sums = refs.optimum(case["vals"], case["recipe"])
    m = case["mech"]
    ctx.count(f"runs:{m}")
    if o.deals > k: raise core.Violation("TOO-MANY", f"{o.deals} deals, the optimal trade has {k}")
    if o.deals < k - 1: raise core.Violation("TOO-FEW", f"{o.deals} deals, the optimal trade has {k}")
    if k == 0: return
    ctx.count(f"{m}: k deals" if o.deals == k else f"{m}: k-1 deals"); ctx.sig(sut.describe(case, o))
    gain = sum((sum(o.cats[i]) * q for i, q in sut.chances(case, o).items()), F(0)) if o.deals else F(0)
    scale = max([F(1)] + [abs(v) for vs in case["vals"] for v in vs]) * (1 + sum(map(len, case["vals"]))) / 10**9
    if gain > opt + scale: raise core.Violation("GAIN-ABOVE-OPTIMUM", f"expected gain {float(gain)} exceeds the optimum {float(opt)}")
    if gain < opt * (1 - F(1, k)) - scale:
        raise core.Violation("GAIN-TOO-LOW", f"expected gain {float(gain)} is below (1-1/{k}) of the optimum {float(opt)}")
    # and this is the gain the auction reports
    rep = sut.exact(o.trade.gain_from_trade())
    if abs(rep - gain) > scale: raise core.Violation("GAIN-REPORTED", f"reported gain {float(rep)}, expected gain of the trade {float(gain)}")


smaller = G.smaller
