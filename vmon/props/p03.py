"""Truthfulness: no trader gains by misreporting, and a winner's own report never moves the price he pays."""
from fractions import Fraction as F
from .. import core, gen as G, sut

ID = "P03"
CASES = {"quick": 30000, "thorough": 700000}
FILES = ["ascending_auction_protocol.py", "trade_reduction_protocol.py", "mcafee_protocol.py", "ascending_auction_recipetree_protocol.py",
         "ascending_auction_recipetree_integer_protocol.py", "prices.py", "prices_integer.py"]
RULE = "an evaluation is one market with one trader trying several misreports; non-trivial when a misreport changes whether he trades, or he trades under both reports"
ASSUMPTIONS = ["All values of a market differ, as do the sums of deals, so that no outcome rests on how a tie is broken.",
               "A trader's utility is his chance in the lottery among the remaining traders times (value - price); for recipe trees every level draws its deals uniformly.",
               "Trade reduction (external competition) is exercised with recipes of ones; with larger recipe counts it is not truthful (see known_findings.json)."]
REQUIRED = {f"deviation pairs:{m}": 200 for m in ("AP", "TR", "MC", "TP", "TI")}
REQUIRED.update({"loser became winner": 50, "winner became loser": 50, "winner stayed winner": 200})


def gen(rng, i, tier):
    if rng.random() < .55:
        c = G.single_case(rng, tier, anysign=False, distinct=True, recipe_ones_for_tr=True, log=False, small=rng.random() < .5)
    else:
        c = G.tree_case(rng, tier, distinct=True, log=False, small=rng.random() < .5)
    cats = [j for j in sut.used_categories(c) if c["vals"][j]]
    if not cats: return None
    c["typ"] = "float" if sut.is_tree(c) or rng.random() < .3 else "frac"
    # aim at traders near the margin as well as at arbitrary ones
    j = rng.choice(cats); k = rng.randrange(len(c["vals"][j]))
    v = c["vals"][j][k]
    pool = [x for vs in c["vals"] for x in vs]
    S = max(abs(x) for x in pool) + 1
    devs = []
    for _ in range(8):
        m = rng.random()
        if m < .25: r = v + F(rng.randint(-40, 40), 4)
        elif m < .5: r = rng.choice(c["vals"][j]) + rng.choice([F(1, 1 << 12), -F(1, 1 << 12)])
        elif m < .65: r = -rng.choice(pool)
        elif m < .8: r = v + F(rng.randint(-1000, 1000), 1000) * S
        elif m < .9: r = F(rng.randint(-int(S) * 3, int(S) * 3))
        else: r = v + rng.choice([1, -1]) * F(rng.randint(1, 64), 256)
        r = F(round(r * (1 << 20)), 1 << 20) + F(rng.randint(1, 4000), 1 << 27)
        if c["mech"] == "MC":      # the bilateral auction tells buyers from sellers by sign
            r = abs(r) if v > 0 else -abs(r)
        if r not in c["vals"][j]: devs.append(r)
    c["who"] = [j, k]; c["devs"] = devs
    if rng.random() < .2: whole(rng, c)
    return c


def whole(rng, c):
    """The same market in whole numbers, all different."""
    top = max(abs(x) for vs in c["vals"] for x in vs); m = max(F(1), F(rng.choice([100, 1000, 10**6])) / top) if top < 10**6 else F(1)
    seen = set()
    def to(v):
        x = round(v * m) or (1 if v > 0 else -1)
        while abs(x) in seen: x += 1 if v > 0 else -1
        seen.add(abs(x)); return F(x)
    c["vals"] = [[to(v) for v in vs] for vs in c["vals"]]; c["devs"] = [to(v) for v in c["devs"]]
    c["typ"] = rng.choice(["int", "int", "npint"])


def view(case, vals, j, rep):
    c = dict(case); c["vals"] = vals
    o = sut.run(c)
    x = sut.exact(sut.conv(rep, case["typ"]))
    if o.deals == 0 or x not in o.cats[j]: return F(0), None
    return sut.chances(c, o).get(j, F(0)), o.prices[j]


def judge(case, ctx):
    j, k = case["who"]; v = case["vals"][j][k]
    t = sut.tol(case)
    p0, price0 = view(case, case["vals"], j, v)
    u0 = p0 * (v - price0) if price0 is not None else F(0)
    ctx.count(f"runs:{case['mech']}")
    for r in case["devs"]:
        vals = [list(x) for x in case["vals"]]; vals[j][k] = r
        p1, price1 = view(case, vals, j, r)
        u1 = p1 * (v - price1) if price1 is not None else F(0)
        ctx.count(f"deviation pairs:{case['mech']}")
        what = ("winner" if price0 is not None else "loser", "winner" if price1 is not None else "loser")
        if what == ("winner", "winner"): ctx.count("winner stayed winner")
        if what == ("winner", "loser"): ctx.count("winner became loser")
        if what == ("loser", "winner"): ctx.count("loser became winner")
        if "winner" in what: ctx.sig(case["mech"], tuple(len(x) for x in case["vals"]), j, what, float(v), float(r))
        if u1 > u0 + t:
            raise core.Violation("UNTRUTHFUL", f"trader of category {j} with value {float(v)} gains {float(u1)} instead of {float(u0)} by reporting {float(r)} (chance {float(p0)} -> {float(p1)}, price {price0 if price0 is None else float(price0)} -> {price1 if price1 is None else float(price1)})")
        if price0 is not None and price1 is not None and abs(price0 - price1) > t:
            raise core.Violation("OWN-REPORT", f"trader of category {j} trades under both reports {float(v)} and {float(r)}, at price {float(price0)} and {float(price1)}")


def smaller(case):
    import copy
    if len(case["devs"]) > 1:
        for d in case["devs"]:
            c = copy.deepcopy(case); c["devs"] = [d]; yield c
        return
    j, k = case["who"]
    for i, vs in enumerate(case["vals"]):
        for m in range(len(vs)):
            if (i, m) == (j, k): continue
            c = copy.deepcopy(case); del c["vals"][i][m]
            if i == j and m < k: c["who"][1] -= 1
            yield c


def known(findings):
    out = []
    for f in findings:
        case = core.dec(f["case"])
        try: judge(case, core.Ctx())
        except core.Violation as e: out.append(f"{f['id']}: {f['what']} ({e.kind})")
    return out
