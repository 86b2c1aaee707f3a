"""The superseded modules that still run: the first recipe tree, the first simultaneous clocks, the multi-recipe ascending
auction (separate recipes) and the unit counts of the multi-buyer auction."""
import copy, importlib, importlib.util, itertools, os, random, sys
from fractions import Fraction as F
from .. import core, gen as G, sut, refs

ID = "P25"
CASES = {"quick": 40000, "thorough": 1200000}
FILES = ["recipetree.old.py", "old/SimultaneousAscendingPriceVector.py", "old/ascending_auction_multirecipe_protocol.py", "old/ascending_auction_multibuyer_protocol.py"]
RULE = "a case is one tree with departures, one history of increases, one auction or one list of recipes; distinct by kind, structure, sizes and answers"
ASSUMPTIONS = ["The superseded multi-recipe auction is run on recipes without shared categories only: with a shared category it calls the present clocks in a way they reject.",
               "The superseded multi-buyer auction is unfinished (it does not stop when its prices balance): only its reading of recipes is judged.",
               "Prices start at minus one hundred million: sums are compared with zero up to 1e-5."]
REQUIRED = {"trees judged": 5000, "increases judged": 4000, "stopped at zero": 300, "auctions with deals": 1500, "several separate recipes": 800, "refused": 500, "seller counts": 500, "analyses": 500, "malformed lists refused": 1000, "near-optimality judged": 300, "empty category": 300}
_m = {}


def worker_init(wid):
    if _m: return
    real = sys.stdout; sys.stdout = core.SINK
    try:
        _m["clock"] = importlib.import_module("old.SimultaneousAscendingPriceVector")
        _m["multi"] = importlib.import_module("old.ascending_auction_multirecipe_protocol")
        _m["buyer"] = importlib.import_module("old.ascending_auction_multibuyer_protocol")
        spec = importlib.util.spec_from_file_location("recipetree_old", os.path.join(core.REPO, "recipetree.old.py"))
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m); _m["tree"] = m
    finally: sys.stdout = real


def gen(rng, i, tier):
    kind = rng.choice(["tree", "tree", "clock", "auction", "auction", "recipes"])
    if kind == "tree":
        n = rng.choice([1, 2, 3, 3, 4, 5, 6, 8]); tot = n + rng.choice([0, 0, 1]); st = G.tree(rng, n, tot)
        rs = [[1 if j in p else 0 for j in range(tot)] for p in sut.paths_of(st)]
        vals, prof = G.market(rng, rs, tier, tot, small=rng.random() < .5)
        return {"kind": kind, "struct": st, "vals": vals, "drops": [rng.random() for _ in range(rng.randint(0, 4))]}
    if kind == "clock":
        n = rng.choice([2, 3, 3, 4, 4, 5, 6]); st = G.tree(rng, n, n)
        return {"kind": kind, "struct": st, "n": n, "start": -rng.choice([100, 1000, 10**4, 10**8]), "ops": [[rng.random() ** 2, rng.randrange(1 << 30)] for _ in range(rng.randint(1, 12))]}
    if kind == "auction":
        k = rng.choice([1, 1, 2, 2, 3]); us = [rng.choice([1, 2, 2, 3]) for _ in range(k)]; n = sum(us) + (rng.random() < .15)
        ids = list(range(n)); rng.shuffle(ids); rs = []
        for u in us: rs.append([1 if j in ids[:u] else 0 for j in range(n)]); ids = ids[u:]
        vals, prof = G.market(rng, rs, tier, n, distinct=rng.random() < .6)
        for r in rs:                                     # every recipe gets buyers of its own
            b = r.index(1)
            if all(sum(v) <= 0 for j, v in enumerate(vals) if r[j]) and sum(r) > 1: vals[b] = [abs(v) * (sum(r) - 1) for v in vals[b]]
        return {"kind": kind, "recipes": rs, "vals": vals, "typ": rng.choice(["float", "float", "np"])}
    n = rng.choice([2, 3, 4, 5])
    return {"kind": kind, "n": n, "recipes": [[rng.choice([0, 0, 1, 1, 2] if rng.random() < .2 else [0, 1, 1]) if j < n - 1 else rng.choice([1, 2, 3]) for j in range(n if rng.random() < .95 else n + 1)] for _ in range(rng.randint(1, 4))] if rng.random() < .5 else seller_recipes(rng, n),
            "as_tuple": rng.random() < .05}


def seller_recipes(rng, n):
    rs = []
    for b in rng.sample(range(n - 1), rng.randint(1, n - 1)): rs.append([1 if j == b else 0 for j in range(n - 1)] + [rng.randint(1, 6)])
    return rs


def judge(case, ctx):
    {"tree": judge_tree, "clock": judge_clock, "auction": judge_auction, "recipes": judge_recipes}[case["kind"]](case, ctx)


def flat(t): return list(t) if isinstance(t, (tuple, list)) else [t]


def best_deals(model):
    """Deals of a tree, best first, each as the tuple of its values from the root down (ties in any order)."""
    own = list(model.v)
    if not model.kids: return [[v] for v in own]
    kid = sorted((d for k in model.kids for d in best_deals(k)), key=sum, reverse=True)
    return [[a] + d for a, d in zip(own, kid)]


def judge_tree(case, ctx):
    tot = len(case["vals"]); names = [f"c{i}" for i in range(tot)]
    cats = [sut.agents.AgentCategory(nm, list(v)) for nm, v in zip(names, case["vals"])]
    st = copy.deepcopy(case["struct"]); tree = _m["tree"].RecipeTree(cats, st)
    if st != case["struct"]: raise core.Violation("MUTATED", "the tree description was changed")
    paths = sut.paths_of(case["struct"])
    if tree.paths_to_leaf(indices=True) != paths or tree.paths_to_leaf() != [[names[i] for i in p] for p in paths]: raise core.Violation("PATHS", f"paths {tree.paths_to_leaf(indices=True)}, expected {paths}")
    if tree.recipes() != [[1 if i in p else 0 for i in range(tot)] for p in paths]: raise core.Violation("RECIPES", f"recipes {tree.recipes()}")
    used = sorted({i for p in paths for i in p})
    for step, dr in enumerate([None] + case["drops"]):
        if dr is not None:
            alive = [i for i in used if cats[i].size()]
            if not alive: break
            cats[alive[int(dr * len(alive))]].remove_lowest_agent()
        before = [list(c.values) for c in cats]
        model = refs.TreeModel(case["struct"], before, [1] * tot)
        ctx.count("trees judged")
        if any(not before[i] for i in used): ctx.count("empty category")
        f = model.best(); diffs = [b - a for a, b in zip(f, f[1:])]       # gains of successive deals of the optimum: not increasing
        cv = [F(x) for x in tree.combined_values()]
        if cv != [F(sum(d)) for d in best_deals(model)]: raise core.Violation("COMBINED", f"combined values {core.show(cv)}, expected {core.show([sum(d) for d in best_deals(model)])}")
        det = [flat(d) for d in tree.combined_values_detailed()]
        if [sum(d) for d in det] != cv: raise core.Violation("COMBINED", f"detailed values {core.show(det)} do not add up to {core.show(cv)}")
        check_deals(det, paths, before, "combined_values_detailed")
        gain = max(f)
        if F(tree.optimal_trade_GFT()) != gain: raise core.Violation("GAIN", f"optimal gain {tree.optimal_trade_GFT()}, the best is {gain}")
        if case["struct"][1] is not None:
            deals, k, g = tree.optimal_trade()
            if F(g) != gain or len(deals) != k or k != sum(d > 0 for d in diffs): raise core.Violation("OPTIMUM", f"optimal trade of {k} deals and gain {g}; the best is {sum(d > 0 for d in diffs)} deals and {gain}")
            check_deals([flat(d) for d in deals], paths, before, "optimal_trade")
        big, comb, rise = tree.largest_categories(indices=True)
        if any(sum(i in rise for i in p) != 1 for p in paths) or len(set(rise)) != len(rise): raise core.Violation("NOT-A-CUT", f"{rise} is no cut of {paths}")
        if rise != cut_rule(model): raise core.Violation("WRONG-CLOCK", f"{rise}, the rule picks {cut_rule(model)}")
        if tree.largest_categories()[-1] != [names[i] for i in rise]: raise core.Violation("WRONG-CLOCK", f"names {tree.largest_categories()[-1]} for {rise}")
        q = len(f) - 1
        if tree.num_of_deals() != q: raise core.Violation("DEALS", f"{tree.num_of_deals()} deals possible, expected {q}")
        prices = [i * 3 + 1 for i in range(tot)]
        got = tree.num_of_deals_explained(prices)
        if got[0] != q: raise core.Violation("DEALS", f"explanation says {got[0]} deals, expected {q}")
        want = explained(model, names, prices)[1]
        if [l for l in got[1].splitlines() if "deals overall" not in l] != want.splitlines(): raise core.Violation("EXPLANATION", f"{got[1]!r}, expected {want!r}")
        if not any(l == f"{q} deals overall" for l in got[1].splitlines()[-1:]): raise core.Violation("EXPLANATION", f"{got[1]!r} does not end in {q} deals")
        if [list(c.values) for c in cats] != before: raise core.Violation("MUTATED", "a query changed the traders")
    ctx.sig("tree", repr(case["struct"]), tuple(map(len, case["vals"])), len(case["drops"]))


def check_deals(deals, paths, vals, what):
    """Every deal takes its values from one root-to-leaf path, and no trader twice."""
    import collections
    stock = [collections.Counter(v) for v in vals]
    # the root trader of every deal is known; below it only multisets can be compared
    left = collections.Counter(x for i in {i for p in paths for i in p} for x in vals[i])
    for d in deals:
        if not any(len(p) == len(d) and all(x in stock[i] for x, i in zip(d, p)) for p in paths): raise core.Violation("NO-RECIPE", f"{what}: deal {core.show(d)} follows no recipe")
        left.subtract(d)
    if any(x < 0 for x in left.values()): raise core.Violation("TWICE", f"{what}: a trader is used twice in {core.show(deals)}")


def cut_rule(m):
    def go(m):
        own = len(m.v)
        if not m.kids: return own, [m.i]
        sub = [go(k) for k in m.kids]; tot = sum(s[0] for s in sub)
        return (own, sum((s[1] for s in sub), [])) if tot >= own else (tot, [m.i])
    return go(m)[1]


def explained(m, names, prices):
    own = len(m.v)
    if not m.kids: return own, f"{names[m.i]}: {own} potential deals, price={prices[m.i]}\n"
    sub = [explained(k, names, prices) for k in m.kids]; tot = sum(s[0] for s in sub); q = min(tot, own)
    txt = "".join(s[1] for s in sub)
    txt += f"{names[m.i]}: all {own} traders selected, price={prices[m.i]}\n" if q == own else f"{names[m.i]}: {q} out of {own} traders selected, price={prices[m.i]}\n"
    kn = " + ".join(names[k.i] for k in m.kids)
    txt += f"{kn}: all {tot} traders selected\n" if q == tot else f"{kn}: {q} out of {tot} traders selected\n"
    return q, txt


def judge_clock(case, ctx):
    from .p10 import cut
    mod = _m["clock"]; n = case["n"]; paths = sut.paths_of(case["struct"])
    rs = [[1 if i in p else 0 for i in range(n)] for p in paths]
    pv = mod.SimultaneousAscendingPriceVectors([list(r) for r in rs], float(case["start"]))
    p = [sut.exact(x) for x in pv.map_category_index_to_price()]
    big = max(abs(x) for x in p) + 1; eps = big * n / 10**11
    for r in rs:
        if abs(sum(a * b for a, b in zip(p, r)) - case["start"]) > eps: raise core.Violation("START", f"initial prices {core.show(p)}: recipe {r} does not add up to {case['start']}")
    if any(x > F(case["start"], n) + eps for x in p): raise core.Violation("START", f"initial prices {core.show(p)} above the cap")
    if pv.status is not None: raise core.Violation("STATUS", "a status before any increase")
    trace = []
    for step, (sh, sub) in enumerate(case["ops"]):
        rng = random.Random(sub)
        if rng.random() < .1:
            try: pv.increase_prices([(0, 1.0, "x")] * (len(rs) + rng.choice([-1, 1, 2])))
            except ValueError: ctx.count("refused")
            else: raise core.Violation("ACCEPTED", "a wrong number of increases was accepted")
            if [sut.exact(x) for x in pv.map_category_index_to_price()] != p: raise core.Violation("STATE", "a refused increase changed the prices")
        ids = cut(rng, case["struct"], sh); s = sum(a * b for a, b in zip(p, rs[0])); room = -s
        if room <= 100 * eps: break
        tg = {c: float(p[c] + room * F(rng.randint(1, 1 << 20), 1 << 20) * rng.choice([1, 1, 1, 2])) for c in ids}
        if rng.random() < .05: tg[ids[0]] = float(p[ids[0]] + room)
        m = min(sut.exact(tg[c]) - p[c] for c in ids); hit = m >= room - F(1, 10**12)
        edge = abs(m - room) < 4 * eps + F(1, 10**9)        # rounding decides which of the two it is
        pv.increase_prices([(next(c for c in ids if c in path), tg[next(c for c in ids if c in path)], "x") for path in paths])
        q = [sut.exact(x) for x in pv.map_category_index_to_price()]
        rise = min(m, room)
        for c in range(n):
            e = p[c] + (rise if c in ids else 0)
            if abs(q[c] - e) > eps: raise core.Violation("PRICE", f"step {step}: price {c} went from {float(p[c])} to {float(q[c])}, expected {float(e)}")
        if abs(sut.exact(pv.price_sum()) - sum(a * b for a, b in zip(q, rs[0]))) > eps: raise core.Violation("SUM", f"price_sum() {pv.price_sum()}")
        want = "STOPPED_AT_ZERO_SUM" if hit else "STOPPED_AT_AGENT_VALUE"
        if pv.status is None or (pv.status.name != want and not edge): raise core.Violation("STATUS", f"step {step}: {pv.status}, expected {want}")
        ctx.count("increases judged"); ctx.count("stopped at zero" if hit else "reached target"); trace.append(tuple(ids)); p = q
    ctx.sig("clock", repr(case["struct"]), case["start"], tuple(trace))


def judge_auction(case, ctx):
    rs = case["recipes"]; n = len(case["vals"]); typ = case["typ"]
    market = sut.markets.Market([sut.agents.AgentCategory(f"c{i}", [sut.conv(v, typ) for v in vs]) for i, vs in enumerate(case["vals"])])
    before = [list(c.values) for c in market.categories]
    given = copy.deepcopy(rs)
    t = _m["multi"].budget_balanced_ascending_auction(market, given)
    if [list(c.values) for c in market.categories] != before: raise core.Violation("MUTATED", "the market was changed")
    d = t.num_of_deals()
    if len(rs) > 1: ctx.count("several separate recipes")
    orig = [sorted((sut.exact(sut.conv(v, typ)) for v in vs), reverse=True) for vs in case["vals"]]
    live = given                                          # recipes that lost all traders of a category are dropped
    if any(r not in rs for r in live): raise core.Violation("RECIPES", f"recipes {rs} became {live}")
    used = [i for i in range(n) if any(r[i] for r in live)]
    for i in range(n):
        v = [sut.exact(x) for x in t.categories[i].values]
        if v != orig[i][:len(v)]: raise core.Violation("NOT-BEST", f"traders of category {i} are {core.show(v)}, the market has {core.show(orig[i])}")
    if len(rs) == 1:                                      # one recipe: at most the least valuable deal is lost
        ks = [j for j in range(n) if rs[0][j]]; sub = [case["vals"][j] for j in ks]; flatv = [v for vs in sub for v in vs]
        if len(set(flatv)) == len(flatv):
            k = refs.optimum(sub, [1] * len(ks))[0]; ctx.count("near-optimality judged")
            if d < k - 1: raise core.Violation("TOO-FEW", f"{d} deals, the optimum has {k}")
    if d == 0:
        if t.gain_from_trade() != 0 or t.gain_from_trade(False) != 0: raise core.Violation("REPORT", f"no deals but a gain of {t.gain_from_trade()}")
        if repr(t) != "No trade": raise core.Violation("REPORT", f"no deals but {t!r}")
        return
    ctx.count("auctions with deals")
    per = [min(len(t.categories[i].values) for i in range(n) if r[i]) for r in live]
    if d != sum(per): raise core.Violation("DEALS", f"{d} deals, the remaining traders support {sum(per)}")
    opt = [refs.optimum(case["vals"], [x for x in r]) for r in live]
    rest = [refs.optimum([case["vals"][i] for i in range(n) if r[i]], [1] * sum(r)) for r in live]
    if d > sum(o[0] for o in rest): raise core.Violation("TOO-MANY", f"{d} deals, the optimum of the recipes {live} has {sum(o[0] for o in rest)}")
    p = [None if x is None else sut.exact(x) for x in t.prices]
    for r in live:
        s = sum(p[i] for i in range(n) if r[i])
        if abs(s) > F(1, 10**5): raise core.Violation("UNBALANCED", f"recipe {r} with prices {core.show(p)} adds up to {float(s)}")
    for i in used:
        v = [sut.exact(x) for x in t.categories[i].values]
        if any(x < p[i] - F(1, 10**5) for x in v): raise core.Violation("LOSS", f"a trader of category {i} worth {float(min(v))} pays {float(p[i])}")
        if any(x > p[i] + F(1, 10**5) for x in orig[i][len(v):]): raise core.Violation("LEFT-OUT", f"a trader of category {i} worth {float(orig[i][len(v)])} is left out at the price {float(p[i])}")
    lines = repr(t).splitlines()
    if len(lines) != len(used): raise core.Violation("REPORT", f"{len(lines)} lines for the categories {used}")
    for i, l in zip(used, lines):
        if l != f"c{i}: {t.categories[i].values}: some of the {len(t.categories[i].values)} agents trade and pay {t.prices[i]}": raise core.Violation("REPORT", f"line {l!r} for category {i}")
    ctx.sig("auction", repr(rs), tuple(map(len, case["vals"])), d)


def judge_recipes(case, ctx):
    n = case["n"]; rs = [tuple(r) if case["as_tuple"] else list(r) for r in case["recipes"]]
    # unit counts of the multi-buyer auction
    ok = not case["as_tuple"] and all(len(r) == n and sum(x != 0 for x in r[:-1]) <= 1 and all(x in (0, 1) for x in r[:-1]) for r in rs)
    buyers = [r[:-1].index(1) for r in rs if ok and 1 in r[:-1]]
    if ok and len(set(buyers)) != len(buyers): ok = False
    f = getattr(_m["buyer"], "_convert_recipes_to_seller_counts", None)
    if f is None: ctx.count("helper gone: seller counts"); ctx.count("seller counts"); ctx.count("refused")
    try: got = f(copy.deepcopy(rs), n) if f is not None else None
    except ValueError:
        if ok: raise core.Violation("REFUSED", f"recipes {rs} were refused")
        ctx.count("refused")
    else:
        if f is None: ok = got = None
        elif not ok: raise core.Violation("ACCEPTED", f"recipes {rs} were accepted: {got}")
        want = [next((r[-1] for r in rs if r[b] == 1), 0) for b in range(n - 1)] if ok else got
        if f is not None and got != want: raise core.Violation("SELLERS", f"units per buyer {got}, recipes {rs} need {want}")
        if f is not None: ctx.count("seller counts")
    # which categories are shared by all recipes and which belong to one
    rs = [r for r in rs if len(r) == n]
    f = getattr(_m["multi"], "_analyze_recipes", None)
    if f is None: ctx.count("helper gone: analyses"); ctx.count("analyses")
    if rs and f is not None:
        uses = [[j for j, r in enumerate(rs) if r[i] > 0] for i in range(n)]
        ok = all(len(u) in (0, 1, len(rs)) for u in uses)
        try: a, b, c = f(n, copy.deepcopy(rs))
        except ValueError:
            if ok: raise core.Violation("REFUSED", f"recipes {rs} were refused")
            ctx.count("refused")
        else:
            if not ok: raise core.Violation("ACCEPTED", f"recipes {rs} were accepted")
            one = [{i for i in range(n) if uses[i] == [j]} for j in range(len(rs))]
            com = {i for i in range(n) if len(uses[i]) == len(rs) and len(rs) > 1}
            if a != uses or set(b) != com or [set(x) for x in c] != one: raise core.Violation("ANALYSIS", f"recipes {rs}: {a}, {b}, {c}")
            ctx.count("analyses")
    # malformed lists of recipes
    rng = random.Random(repr(case["recipes"]))
    market = sut.markets.Market([sut.agents.AgentCategory("x", [F(rng.randint(-5, 9)) for _ in range(rng.randint(0, 3))]) for _ in range(n)])
    good = [1] * n; odd = good[:-1] if rng.random() < .5 else good + [rng.choice([0, 1])]
    for bad in ([], [odd], [good, odd], [odd, good]):
        for what, f in (("auction", lambda: _m["multi"].budget_balanced_ascending_auction(market, copy.deepcopy(bad))), ("clocks", lambda: _m["clock"].SimultaneousAscendingPriceVectors(copy.deepcopy(bad), -100.0))):
            if what == "clocks" and bad == [odd]: continue          # the clocks know no market
            try: f()
            except ValueError: ctx.count("malformed lists refused")
            else: raise core.Violation("ACCEPTED", f"the {what} accept recipes {bad} in a market of {n} categories")
    try: _m["clock"].SimultaneousAscendingPriceVectors([good, [0] * n], -100.0)
    except ValueError: ctx.count("malformed lists refused")
    else: raise core.Violation("ACCEPTED", "the clocks accept a recipe without traders next to another one")
    bad = [r for r in rs if any(x not in (0, 1) for x in r)]
    if bad:
        market = sut.markets.Market([sut.agents.AgentCategory("x", [1, 2]) for _ in range(n)])
        try: _m["multi"].budget_balanced_ascending_auction(market, copy.deepcopy(rs))
        except ValueError: ctx.count("refused")
        else: raise core.Violation("ACCEPTED", f"the auction accepts recipes {rs}")
    ctx.sig("recipes", repr(case["recipes"]))


def smaller(case):
    if "vals" in case:
        for i, v in enumerate(case["vals"]):
            for j in range(len(v)):
                c = copy.deepcopy(case); del c["vals"][i][j]; yield c
    for k in ("drops", "ops"):
        for j in range(len(case.get(k, []))):
            c = copy.deepcopy(case); del c[k][j]; yield c
