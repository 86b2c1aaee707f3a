"""The optimal trade of a single-recipe market."""
import collections
import random
from fractions import Fraction as F
from .. import core, gen as G, sut, refs

ID = "P07"
CASES = {"quick": 150000, "thorough": 2000000}
FILES = ["markets.py", "agents.py", "trade.py"]
RULE = "a case is non-trivial when the optimal trade has at least one deal; two cases differ when number type, market shape, recipe, flag or number of deals differ"
ASSUMPTIONS = ["Markets of up to about 8 traders per category are compared with exhaustive search over subsets, larger ones with an independent greedy model (which the exhaustive search also checks)."]
REQUIRED = {"asked again after a change": 2000, "exhaustive": 500, "zero-gain deal on the margin": 50, "cut by the iteration limit": 20, "some deals": 500, "a thousand deals": 3}


def gen(rng, i, tier):
    if rng.random() < .0004:                             # thousands of deals
        r = rng.choice([[1, 1], [1, 1], [2, 1], [1, 1, 1]]); k = rng.randint(900, 5000)
        return {"mech": "OPT", "vals": [[F((rng.randint(5, 50) if j == 0 else -rng.randint(1, 9)) * 3) for _ in range(k * x + rng.randint(0, 3))] for j, x in enumerate(r)], "recipe": r, "prof": "thousands", "typ": "int"}
    n = rng.choice([1, 2, 2, 2, 3, 3, 4, 5, 6])
    r = G.recipe(rng, n)
    if not any(r): r[0] = 1
    small = rng.random() < .4
    vals, prof = G.market(rng, [r], tier, n, small=small, profile="exactzero" if rng.random() < .2 else ("hair" if rng.random() < .2 else None)) if n > 1 else ([G.values(rng, rng.randint(0, 9), True, 20, rng.choice(["anysign", "ties", "zeros"]), iter(range(1, 999)))], "one")
    c = {"mech": "OPT", "vals": vals, "recipe": r, "prof": prof, "typ": G.numtype(rng, vals)}
    if prof == "hair" and c["typ"] == "frac" and rng.random() < .5:      # exact arithmetic: hairs as thin as one likes
        h = 1 << rng.choice([20, 60]); c["vals"] = [[round(v) + (v - round(v)) / h for v in vs] for vs in vals]
    if prof != "huge" and rng.random() < .12:
        c["vals"] = G.margin(rng, c["vals"], r, c["typ"] == "frac")
        if c["typ"] in ("int", "npint") and any(v.denominator != 1 for vs in c["vals"] for v in vs): c["typ"] = "float"
    if rng.random() < .3: c["zero"] = rng.random() < .4
    if rng.random() < .2: c["iters"] = rng.choice([0, 1, 2, 3, 5])
    if rng.random() < .2: c["rtype"] = "tuple"
    nm = G.names(rng, n)
    if nm: c["names"] = nm
    G.history(rng, c)
    return c


def judge(case, ctx):
    m = sut.build_market(case); r = case["recipe"]; typ = case["typ"]
    orig = [[sut.exact(v) for v in c.values] for c in m.categories]
    kw = {}
    if "zero" in case: kw["include_zero_gft_ps"] = case["zero"]
    if "iters" in case: kw["max_iterations"] = case["iters"]
    trade, rest = m.optimal_trade(sut.recipe_obj(case), **kw)
    zero = case.get("zero", True)
    k, opt, sums = refs.optimum(orig, r, include_zero=zero)
    if "iters" in case and k > case["iters"]:
        ctx.count("cut by the iteration limit"); sums = sums[:case["iters"]]; k = len(sums); opt = sum(sums, F(0))
    elif zero and sums and sums[-1] == 0: ctx.count("zero-gain deal on the margin")
    got = [[sut.exact(v) for v in ps] for ps in trade.procurement_sets]
    scale = max([F(1)] + [abs(v) for vs in orig for v in vs]) * (1 + sum(map(len, orig))) / 10**12
    if typ in ("frac", "int", "npint"): scale = F(0)
    if trade.num_of_deals() != len(got): raise core.Violation("COUNT", f"{trade.num_of_deals()} deals reported, {len(got)} listed")
    if len(got) != k: raise core.Violation("NOT-OPTIMAL", f"{len(got)} deals, optimum {k}")
    # each deal: r_i traders of every category, in category order
    pos = [0]
    for x in r: pos.append(pos[-1] + x)
    usedv = [collections.Counter() for _ in r]
    for ps in got:
        if len(ps) != pos[-1]: raise core.Violation("DEAL-SHAPE", f"a deal has {len(ps)} traders, the recipe {r} needs {pos[-1]}")
        for i in range(len(r)): usedv[i].update(ps[pos[i]:pos[i + 1]])
        s = sum(ps)
        if s < -scale or (s == 0 and not zero): raise core.Violation("BAD-DEAL", f"a deal with gain {float(s)} is included")
    s = [sum(ps) for ps in got]
    if any(a > b + scale for a, b in zip(s, s[1:])): raise core.Violation("ORDER", f"gains of the deals are {core.show(s)}")
    total = sum(s, F(0)); rep = sut.exact(trade.gain_from_trade())
    if abs(total - opt) > scale: raise core.Violation("NOT-OPTIMAL", f"gain {float(total)}, optimum {float(opt)}")
    if abs(rep - total) > scale: raise core.Violation("GAIN-REPORTED", f"reported gain {float(rep)}, gain of the deals {float(total)}")
    # every trader is either in a deal or in the remaining market, which is sorted; nothing is lost, duplicated or changed
    left = [[sut.exact(v) for v in c.values] for c in rest.categories]
    for i in range(len(r)):
        if sum(usedv[i].values()) != k * r[i]: raise core.Violation("CONSERVATION", f"category {i}: {sum(usedv[i].values())} traders in {k} deals")
        if usedv[i] + collections.Counter(left[i]) != collections.Counter(orig[i]):
            raise core.Violation("CONSERVATION", f"category {i}: deals and remaining market do not add up to the market")
        if left[i] != sorted(left[i], reverse=True): raise core.Violation("ORDER", f"remaining category {i} is not sorted: {core.show(left[i])}")
        if [str(c.name) for c in rest.categories] != [str(c.name) for c in m.categories]: raise core.Violation("NAMES", "category names changed")
    if [[sut.exact(v) for v in c.values] for c in m.categories] != orig: raise core.Violation("MUTATED", "the market itself was changed")
    # market, remaining market and deals live apart from each other
    for c in rest.categories:
        c.append(sut.conv(F(3), "frac"))
        if c.size() > 1: c.remove_highest_agent()
    if [[sut.exact(v) for v in c.values] for c in m.categories] != orig: raise core.Violation("SHARED", "changing the remaining market changes the market itself")
    ctx.count("remaining market changed afterwards")
    # exhaustive search
    if "iters" not in case and zero and max(map(len, orig)) <= 7 and len(r) <= 4:
        bk, bg = refs.brute_optimum(orig, r); ctx.count("exhaustive")
        if abs(bg - total) > scale: raise core.Violation("NOT-OPTIMAL", f"gain {float(total)}, exhaustive search finds {float(bg)}")
        if bk != k: raise core.Violation("NOT-OPTIMAL", f"{k} deals, exhaustive search finds {bk} (as many deals as possible at the best gain)")
    if k >= 1000: ctx.count("a thousand deals")
    if k: ctx.count("some deals"); ctx.sig(case["prof"], typ, tuple(map(len, orig)), tuple(r), case.get("zero"), case.get("iters"), k)
    # best deal around a given trader: that trader plus the best of every other category
    if all(orig) and len(r) > 1:
        j = len(orig[0]) % len(r); v = orig[j][-1] + 1
        ps = [sut.exact(x) for x in m.best_containing_PS(j, sut.conv(v, "frac"))]
        if ps != [v if i == j else orig[i][0] for i in range(len(r))]: raise core.Violation("BEST-CONTAINING", f"best deal around {float(v)} of category {j} is {core.show(ps)}")
        ctx.count("best containing deals")
    # the market changes (as many traders as before, or more, or fewer), and is asked again
    if "iters" not in case and zero and sum(map(len, orig)) < 60:
        again(case, ctx, m, scale)


def again(case, ctx, m, scale):
    r = case["recipe"]; rng = random.Random(repr((case["vals"], r))); typ = case["typ"] if case["typ"] != "mixed" else "float"
    for _ in range(2):
        for c in m.categories:
            x = rng.random()
            if c.size() and x < .5:
                old = rng.choice(c.values)
                c.remove_lowest_agent() if rng.random() < .6 else c.remove_highest_agent()
                c.append(sut.conv(sut.exact(old) + rng.choice([-3, -1, 1, 2, 5]), typ))
            elif c.size() and x < .6: c.remove_lowest_agent()
            elif x > .9: c.append(sut.conv(F(rng.randint(-9, 9)), typ))
        now = [[sut.exact(v) for v in c.values] for c in m.categories]
        k, opt, sums = refs.optimum(now, r)
        trade, rest = m.optimal_trade(sut.recipe_obj(case)); ctx.count("asked again after a change")
        if trade.num_of_deals() != k or abs(sut.exact(trade.gain_from_trade()) - opt) > 2 * scale:
            raise core.Violation("NOT-OPTIMAL", f"after the market changed to {core.show(now)}: {trade.num_of_deals()} deals of gain {float(sut.exact(trade.gain_from_trade()))}, optimum {k} of {float(opt)}")
        left = [[sut.exact(v) for v in c.values] for c in rest.categories]
        if left != [v[k * x:] for v, x in zip(now, r)]: raise core.Violation("CONSERVATION", f"after the market changed to {core.show(now)} the remaining market is {core.show(left)}")


smaller = G.smaller
