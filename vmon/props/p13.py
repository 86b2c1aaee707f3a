"""Malformed requests are refused, and leave no trace."""
import random
from fractions import Fraction as F
from .. import core, gen as G, sut

ID = "P13"
CASES = {"quick": 400000, "thorough": 1500000}
FILES = ["markets.py", "ascending_auction_protocol.py", "trade_reduction_protocol.py", "mcafee_protocol.py", "recipetree.py", "recipetree_integer.py", "prices.py", "prices_integer.py"]
RULE = "a case is one malformed request; distinct by kind, sizes and content"
ASSUMPTIONS = ["Only requests that the library documents or promises to refuse are used: wrong number of entries, recipes other than ones for McAfee, odd-length tree descriptions, empty or ragged recipe lists, increases that miss or hit a recipe twice."]
KINDS = ["AP", "TR", "MC", "MC-nonones", "OPT", "PS", "tree-odd", "tree-odd-nested", "TP-odd", "TI-odd", "pv-empty", "pv-ragged", "pv-increase"]
REQUIRED = {k: 100 for k in KINDS}


def gen(rng, i, tier):
    kind = rng.choice(KINDS)
    n = 2 if kind == "MC-nonones" else rng.randint(1, 6)
    vals = [[F(rng.randint(-20, 20)) for _ in range(rng.choice([0, 1, 2, 3, 5, 9]))] for _ in range(n)]
    if kind in ("AP", "TR", "MC", "OPT", "PS"):
        k = rng.choice([x for x in (0, 1, n - 1, n - 2, n + 1, n + 2, 2 * n) if x != n and x >= 0])
        r = [rng.choice([1, 1, 1, 0, 2]) for _ in range(k)]
        if kind in ("MC",): r = [1] * k
    elif kind == "MC-nonones":
        n = rng.randint(2, 4); vals = [[F(rng.randint(1, 20)) * (1 if j == 0 else -1) for _ in range(rng.randint(0, 6))] for j in range(n)]
        r = [1] * n; r[rng.randrange(n)] = rng.choice([0, 2, 3, 5])
        if rng.random() < .3: r[rng.randrange(n)] = 2
    else: r = []
    return {"kind": kind, "vals": vals, "recipe": r, "sub": rng.randrange(1 << 30), "tuple": rng.random() < .3, "typ": "int"}


def refused(f, *a, **k):
    try: f(*a, **k)
    except ValueError: return True
    return False


def odd(rng, n):
    st = G.tree(rng, n, n)
    nodes = []
    def walk(kids):
        nodes.append(kids)
        for i in range(0, len(kids), 2):
            if kids[i + 1] is not None: walk(kids[i + 1])
    if st[1] is not None: walk(st[1])
    if nodes:
        k = rng.choice(nodes)
        if rng.random() < .5: k.append(rng.randrange(n))
        else: k.pop()
        if not k: k.append(0)
    else: return [st[0]]
    return st


def judge(case, ctx):
    rng = random.Random(case["sub"]); kind = case["kind"]; n = len(case["vals"])
    m = sut.build_market(case); before = str(m)
    r = tuple(case["recipe"]) if case["tuple"] else list(case["recipe"])
    what = f"{kind} with recipe {r} on {n} categories"
    if kind == "AP": ok = refused(sut.AP.budget_balanced_ascending_auction, m, r)
    elif kind == "TR": ok = refused(sut.TR.budget_balanced_trade_reduction, m, r)
    elif kind in ("MC", "MC-nonones"): ok = refused(sut.MC.mcafee_trade_reduction, m, r)
    elif kind == "OPT": ok = refused(m.optimal_trade, r)
    elif kind == "PS": ok = refused(m.append_PS, r)
    elif kind in ("tree-odd", "tree-odd-nested", "TP-odd", "TI-odd"):
        k = max(2, n); cats = [sut.agents.AgentCategory(f"c{i}", [1, 2, 3]) for i in range(k)]
        st = odd(rng, k) if kind != "tree-odd" else rng.choice([[0], [0, None, 1], [0, [1, None], 1]])
        what = f"{kind}: tree {st}"
        mod = rng.choice([sut.recipetree, sut.recipetree_integer])
        if kind in ("tree-odd", "tree-odd-nested"): ok = refused(mod.RecipeTree, cats, st)
        else:
            mk = sut.markets.Market(cats); b2 = str(mk)
            ok = refused((sut.TP if kind == "TP-odd" else sut.TI).budget_balanced_ascending_auction, mk, st)
            if str(mk) != b2: raise core.Violation("TRACE", f"{what}: the market was changed")
    elif kind == "pv-empty": ok = refused(rng.choice([sut.prices, sut.prices_integer]).SimultaneousAscendingPriceVectors, [], -100.)
    elif kind == "pv-ragged":
        paths = sut.paths_of(G.tree(rng, rng.randint(2, 6))); k = max(i for p in paths for i in p) + 1
        rs = [[1 if i in p else 0 for i in range(k)] for p in paths]
        if len(rs) == 1 and rng.random() < .5: rs += [[1] * k for _ in range(rng.randint(1, 3))]
        if len(rs) == 1: rs.append(list(rs[0]))
        j = rng.randrange(len(rs)) if rng.random() < .6 else len(rs) - 1        # one of them is too long or too short
        rs[j] = rs[j] + [rng.choice([0, 0, 1])] * rng.choice([1, 1, 2, 3]) if rng.random() < .6 else rs[j][:-1]
        what = f"{kind}: {rs}"
        ok = refused(rng.choice([sut.prices, sut.prices_integer]).SimultaneousAscendingPriceVectors, rs, -100.)
    elif kind == "pv-increase":
        st = G.tree(rng, rng.randint(2, 6)); paths = sut.paths_of(st); k = max(i for p in paths for i in p) + 1
        pv = sut.prices.SimultaneousAscendingPriceVectors([[1 if i in p else 0 for i in range(k)] for p in paths], -1000.)
        for _ in range(50):
            inc = [(rng.randrange(k), -5., "x") for _ in range(rng.randint(0, 3))]
            if any(sum(c in p for c, _, _ in inc) != 1 for p in paths): break
        else: return
        what = f"{kind}: {inc} on {paths}"; s = str(pv)
        ok = refused(pv.increase_prices, inc)
        if str(pv) != s: raise core.Violation("TRACE", f"{what}: the prices changed from {s} to {pv}")
    ctx.count(kind); ctx.sig(what, before)
    if not ok: raise core.Violation("ACCEPTED", what + " was not refused with a ValueError")
    if str(m) != before: raise core.Violation("TRACE", f"{what}: the market was changed")


def smaller(case): return []
