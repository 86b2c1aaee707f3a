"""Nobody who trades loses, and every trader in the trade is a trader of the market."""
import collections
from fractions import Fraction as F
from .. import core, gen as G, sut

ID = "P02"
CASES = {"quick": 100000, "thorough": 3000000}
FILES = ["ascending_auction_protocol.py", "trade_reduction_protocol.py", "mcafee_protocol.py", "ascending_auction_recipetree_protocol.py",
         "ascending_auction_recipetree_integer_protocol.py", "markets.py", "trade.py"]
RULE = "a case is non-trivial when at least one deal is made; two cases differ when mechanism, number type, market shape, recipe(s) or number of deals differ"
ASSUMPTIONS = ["Recipe-tree prices are sums of doubles that start at minus one hundred million, so a trader's loss is compared with zero up to 1e-5."]
REQUIRED = {f"deals:{m}": 50 for m in ("AP", "TR", "MC", "TP", "TI")}
REQUIRED["traders at the price"] = 50
REQUIRED["categories compared with the market"] = 1000


def gen(rng, i, tier):
    if rng.random() < .55:
        c = G.single_case(rng, tier, mc_average=True)
        if c["mech"] == "TR" and rng.random() < .15: c["opts"] = {"including_gft_0": False}
        return c
    return G.tree_case(rng, tier)


def judge(case, ctx):
    o = sut.run(case)
    judge_outcome(case, o, ctx)
    if o.deals:
        want = case.get("names") or [f"c{i}" for i in range(len(case["vals"]))]
        got = [c.name for c in o.trade.categories]
        if got != want: raise core.Violation("MOVED", f"the categories of the market are {want}, those of the trade {got}")


def judge_outcome(case, o, ctx):
    ctx.count(f"runs:{case['mech']}")
    if o.deals == 0: return
    ctx.count(f"deals:{case['mech']}"); ctx.sig(sut.describe(case, o))
    t = sut.tol(case, o.prices)
    m = sut.build_market({**case, "log": None, "history": None})
    if len(o.cats) != len(m.categories): raise core.Violation("INVENTED", f"the trade has {len(o.cats)} categories, the market {len(m.categories)}")
    for i, c in enumerate(m.categories):
        ctx.count("categories compared with the market")
        if o.cats[i] == [sut.exact(v) for v in c.values[:len(o.cats[i])]]: continue          # the first traders of the category
        extra = collections.Counter(o.cats[i]) - collections.Counter(map(sut.exact, c.values))
        if extra: raise core.Violation("INVENTED", f"category {i} of the trade has {core.show(list(extra.elements()))}, not (or not so often) in the market")
    for i in sut.used_categories(case):
        for v in o.cats[i]:
            ctx.count("traders judged")
            if v < o.prices[i] - t:
                raise core.Violation("LOSS", f"a trader of category {i} with value {float(v)} may trade and pay {float(o.prices[i])}")
            if abs(v - o.prices[i]) <= t: ctx.count("traders at the price")
    # no trader of a category that no deal uses is ever charged: the traders' joint gain counts only participants
    if not sut.is_tree(case):
        kept = sut.exact(o.trade.gain_from_trade(including_auctioneer=False))
        if kept < -t - sum(abs(p) for p in o.prices) * (1 + o.deals) / 10**9:
            raise core.Violation("LOSS", f"the traders' joint gain is reported as {float(kept)}")


smaller = G.smaller
