"""Every auction runs the process it documents: deals, remaining traders and prices equal those of an independent model."""
from fractions import Fraction as F
from .. import core, gen as G, sut, refs

ID = "P18"
CASES = {"quick": 60000, "thorough": 1800000}
FILES = ["ascending_auction_protocol.py", "trade_reduction_protocol.py", "mcafee_protocol.py", "ascending_auction_recipetree_protocol.py",
         "ascending_auction_recipetree_integer_protocol.py", "markets.py", "recipetree.py", "recipetree_integer.py", "prices.py", "prices_integer.py"]
RULE = "a case is non-trivial when at least one deal is made; two cases differ when mechanism, options, number type, market shape, recipes or number of deals differ"
ASSUMPTIONS = ["The reference models run in exact rational arithmetic and take from the code under test only the starting prices of recipe trees (judged by P10).",
               "Trees whose arithmetic is not exact in doubles are skipped when a decision of the reference is closer than 1/100000 (counted)."]
REQUIRED = {"compared:AP": 2000, "compared:TR": 2000, "compared:MC": 1000, "compared:TP": 1500, "compared:TI": 1500, "TR gain-zero excluded": 300, "MC without heuristic": 200, "tree compared exactly": 800, "big recipes": 300}


def gen(rng, i, tier):
    if rng.random() < .02: return big_counts(rng)
    if rng.random() < .6:
        c = G.single_case(rng, tier)
        if c["mech"] == "TR" and rng.random() < .3: c["opts"] = {"including_gft_0": rng.random() < .3}
        return c
    c = G.tree_case(rng, tier, profile=rng.choice(["ties", "small", "anysign", "constant", "zeros", "exactzero", "fine", "hair", "hair", "distinct", "dense", None]))
    if c.get("counts") and rng.random() < .6: c["counts"] = [1 << (x - 1) if x < 4 else 2 for x in c["counts"]]
    if c["typ"] in ("frac",): c["typ"] = "float"
    return c


def big_counts(rng):
    """Recipes of many traders: numbers of deals per category that differ by a small fraction of a deal."""
    n = rng.choice([2, 2, 3, 4]); lo, hi = rng.choice([(5, 13), (10, 40), (10, 40), (100, 400)])
    r = [rng.choice([1, rng.randint(lo, hi)]) if rng.random() < .3 else rng.randint(lo, hi) for _ in range(n)]
    k = rng.choice([1, 2, 2, 3] if hi < 100 else [1, 2])
    vals = [[F((sum(r) * 3 // 2 // r[0] if i == 0 else -1) * 64 + rng.randint(-63, 63), 64) for _ in range(max(0, x * k + rng.choice([0, 1, -1, x // 2, x // 2 + 1, (x + 2) // 3, rng.randrange(x)])))] for i, x in enumerate(r)]
    return {"mech": "AP" if rng.random() < .85 else "TR", "vals": vals, "recipe": r, "opts": {}, "prof": "big counts", "typ": rng.choice(["frac", "float"])}


def dyadic(x, bits=20): return (x.denominator & (x.denominator - 1)) == 0 and x.denominator <= (1 << bits)


def judge(case, ctx): judge_outcome(case, sut.run(case), ctx)


def judge_outcome(case, o, ctx):
    mech = case["mech"]; opts = case.get("opts") or {}
    tree = sut.is_tree(case); used = sut.used_categories(case)
    if tree:
        mod = sut.prices if mech == "TP" else sut.prices_integer
        rs = sut.recipes_of(case); n = len(case["vals"])
        init = [sut.exact(p) for p in mod.SimultaneousAscendingPriceVectors(rs, -10**8).map_category_index_to_price()]
        cnt = sut.effective_counts(case)
        ok = all(init[i].denominator == 1 for i in used) and all(c & (c - 1) == 0 for c in cnt) and all(dyadic(v) for vs in case["vals"] for v in vs)
        try: d, p, rest = refs.tree_auction(case["struct"], case["vals"], cnt, rs, init, None if ok else F(1, 10**5))
        except refs.KnifeEdge: ctx.count("skipped: knife edge"); return
        ctx.count("tree compared exactly" if ok else "tree compared within tolerance")
    elif mech == "AP": d, p, rest = refs.ascending(case["vals"], case["recipe"])
    elif mech == "TR":
        g0 = opts.get("including_gft_0", True)
        d, p, rest = refs.trade_reduction(case["vals"], case["recipe"], g0)
        if not g0: ctx.count("TR gain-zero excluded")
    else:
        h = opts.get("price_heuristic", True)
        d, p, rest = refs.mcafee(case["vals"], h)
        if not h: ctx.count("MC without heuristic")
    ctx.count("compared:" + mech)
    if case.get("prof") == "big counts": ctx.count("big recipes")
    if o.deals != d: raise core.Violation("DEALS", f"{o.deals} deals, the documented process makes {d}")
    for i in used:
        if sorted(o.cats[i], reverse=True) != list(rest[i]): raise core.Violation("TRADERS", f"category {i}: {core.show(o.cats[i])} remain, the documented process leaves {core.show(list(rest[i]))}")
    if d:
        t = sut.tol(case, o.prices)
        for i in used:
            if abs(o.prices[i] - p[i]) > t: raise core.Violation("PRICE", f"price of category {i} is {float(o.prices[i])}, the documented process ends at {float(p[i])}")
        ctx.sig(sut.describe(case, o), tuple(sorted(opts.items())))


smaller = G.smaller
