"""Budget balance of every auction."""
from fractions import Fraction as F
from .. import core, gen as G, sut

ID = "P01"
CASES = {"quick": 100000, "thorough": 3000000}
FILES = ["ascending_auction_protocol.py", "trade_reduction_protocol.py", "mcafee_protocol.py", "ascending_auction_recipetree_protocol.py",
         "ascending_auction_recipetree_integer_protocol.py", "prices.py", "prices_integer.py", "trade.py"]
RULE = "a case is non-trivial when at least one deal is made; two cases differ when mechanism, number type, market shape, recipe(s) or number of deals differ"
ASSUMPTIONS = ["Recipe-tree prices are sums of doubles that start at minus one hundred million, so their sums are compared with zero up to 1e-5.",
               "Values lie well inside the documented bound of one hundred million."]
REQUIRED = {f"deals:{m}": 50 for m in ("AP", "TR", "MC", "TP", "TI")}


def gen(rng, i, tier):
    if rng.random() < .55:
        c = G.single_case(rng, tier)
        if c["mech"] == "TR" and rng.random() < .15: c["opts"] = {"including_gft_0": False}
        return c
    return G.tree_case(rng, tier)


def judge(case, ctx): judge_outcome(case, sut.run(case), ctx)


def judge_outcome(case, o, ctx):
    ctx.count(f"runs:{case['mech']}")
    if o.deals == 0: return
    ctx.count(f"deals:{case['mech']}"); ctx.sig(sut.describe(case, o))
    t = sut.tol(case, o.prices)
    for r in sut.recipes_of(case):
        s = sum(p * x for p, x in zip(o.prices, r))
        if case["mech"] == "MC":
            if s < -t: raise core.Violation("DEFICIT", f"prices {core.show(o.prices)} sum to {float(s)} < 0")
            if s > t: ctx.count("surplus:MC")
        elif abs(s) > t:
            raise core.Violation("UNBALANCED", f"recipe {r} with prices {core.show(o.prices)} sums to {float(s)}")
        ctx.count("price sums")
    if not sut.is_tree(case):
        # the auctioneer's profit: total gain minus the gain that the traders keep
        total = sut.exact(o.trade.gain_from_trade(including_auctioneer=True)); kept = sut.exact(o.trade.gain_from_trade(including_auctioneer=False))
        m = max([F(1), abs(total)] + [abs(p) for p in o.prices]) * (1 + o.deals)
        profit = o.deals * sum(p * x for p, x in zip(o.prices, case["recipe"]))
        if abs((total - kept) - profit) > t + m / 10**9:
            raise core.Violation("PROFIT", f"total gain {float(total)} minus traders' gain {float(kept)} is not the payments collected, {float(profit)}")
        if case["mech"] != "MC" and abs(total - kept) > t + m / 10**9:
            raise core.Violation("UNBALANCED", f"the auctioneer keeps {float(total - kept)}")


smaller = G.smaller
