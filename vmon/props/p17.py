"""The separate implementations agree with each other, and with themselves on equivalent descriptions of a market."""
import collections, copy, random
from fractions import Fraction as F
from .. import core, gen as G, sut, refs

ID = "P17"
CASES = {"quick": 60000, "thorough": 900000}
FILES = ["recipetree.py", "recipetree_integer.py", "markets.py", "ascending_auction_recipetree_protocol.py", "ascending_auction_recipetree_integer_protocol.py",
         "ascending_auction_protocol.py", "trade_reduction_protocol.py"]
RULE = "a case compares at least two executions on equivalent descriptions; non-trivial when at least one deal is made or possible; distinct by relation, shape of the market and deals"
ASSUMPTIONS = ["Trees compared across the two implementations or under renumbering have recipes of equal length, or a single recipe: only then are the starting prices determined by the statement."]
REQUIRED = {"chain vs market": 300, "binary vs integer tree": 300, "renumbered": 300, "unused category added": 500, "tuples instead of lists": 500, "tree questions compared": 300, "deals made": 1000}


def gen(rng, i, tier):
    rel = rng.choice(["chain", "chain", "impl", "impl", "renumber", "renumber", "unused-single", "unused-tree", "tuples"])
    if rel == "chain":
        n = rng.choice([1, 2, 2, 3, 3, 4, 5]); cnt = [rng.choice([1, 1, 1, 2, 3]) for _ in range(n)] if rng.random() < .5 else [1] * n
        if rng.random() < .05: cnt[rng.randrange(n)] = rng.choice([5, 8, 13, 30, 49, 75, 110])
        order = list(range(n)); rng.shuffle(order)
        st = None
        for j in order: st = [j, st]
        vals, prof = G.market(rng, [cnt], tier, n)
        c = {"mech": "TI", "struct": st, "counts": cnt, "vals": vals, "prof": prof, "typ": rng.choice(["frac", "frac", "float"])}
    elif rel == "unused-single":
        c = G.single_case(rng, tier, mechs=("AP", "TR"), log=False)
        c["pos"] = rng.randint(0, len(c["vals"])); c["extra"] = [F(rng.randint(-40, 40)) for _ in range(rng.randint(0, 5))]
        c.pop("names", None)
    else:
        eq = rel not in ("unused-tree", "tuples")
        c = G.tree_case(rng, tier, mechs=("TP", "TI") if rel != "impl" else ("TI",), log=False, equal_depth=eq, unit_counts=(rel == "impl") or rng.random() < .5, extra=False)
        c.pop("names", None)
        if rel == "renumber" and c.get("counts"):
            # equal counts at every level keep the recipes equally long
            ls = {}
            def walk(s, d):
                ls.setdefault(d, []).append(s[0])
                for j in range(0, len(s[1] or []), 2): walk([s[1][j], s[1][j + 1]], d + 1)
            walk(c["struct"], 0)
            for d, ids in ls.items():
                for x in ids: c["counts"][x] = c["counts"][ids[0]]
        if c["typ"] == "mixed": c["typ"] = "float"
        c["pos"] = rng.randint(0, len(c["vals"])); c["extra"] = [F(rng.randint(-40, 40)) for _ in range(rng.randint(0, 5))]
        perm = list(range(len(c["vals"]))); rng.shuffle(perm); c["perm"] = perm
    c["rel"] = rel
    return c


def renum(st, f): return [f(st[0]), None if st[1] is None else sum([renum([st[1][j], st[1][j + 1]], f) for j in range(0, len(st[1]), 2)], [])]


def compare(kind, case, a, b, back, tol):
    """a: outcome of the original; b: outcome of the equivalent; back[i] = index in b of category i of a."""
    if a.deals != b.deals: raise core.Violation(kind, f"{a.deals} deals against {b.deals}")
    for i, j in enumerate(back):
        if sorted(a.cats[i]) != sorted(b.cats[j]): raise core.Violation(kind, f"category {i}: {core.show(a.cats[i])} remain against {core.show(b.cats[j])}")
    if a.prices is not None:
        used = sut.used_categories(case)
        for i, j in enumerate(back):
            if i in used and abs(a.prices[i] - b.prices[j]) > tol: raise core.Violation(kind, f"price of category {i} is {float(a.prices[i])} against {float(b.prices[j])}")
    ga, gb = sut.exact(a.trade.gain_from_trade()), sut.exact(b.trade.gain_from_trade())
    if abs(ga - gb) > tol * (1 + sum(map(len, case["vals"]))): raise core.Violation(kind, f"gain {float(ga)} against {float(gb)}")


def judge(case, ctx):
    rel = case["rel"]; n = len(case["vals"])
    if rel == "chain":
        m = sut.build_market(case); cnt = case["counts"]
        t, rem = m.optimal_trade(cnt); k, g = t.num_of_deals(), sut.exact(t.gain_from_trade())
        tol = F(1, 10**6) if case["typ"] == "float" else 0
        for mod in ([sut.recipetree_integer] + ([sut.recipetree] if set(cnt) == {1} else [])):
            tr = mod.RecipeTree(sut.build_market(case).categories, copy.deepcopy(case["struct"]), *([list(cnt)] if mod is sut.recipetree_integer else []))
            deals, k2, g2 = tr.optimal_trade()
            if k2 != k or len(deals) != k or abs(sut.exact(g2) - g) > tol or abs(sut.exact(tr.optimal_trade_GFT()) - g) > tol:
                raise core.Violation("CHAIN-OPTIMUM", f"{mod.__name__}: {k2} deals with gain {float(g2)}, the market's optimal trade has {k} with {float(g)}")
            _, k3, g3, lo, hi = tr.optimal_trade_with_counters()
            if k3 != k or abs(sut.exact(g3) - g) > tol: raise core.Violation("CHAIN-OPTIMUM", f"{mod.__name__}: with counters {k3} deals with gain {float(g3)}, the market's optimal trade has {k} with {float(g)}")
        ctx.count("chain vs market")
        if k: ctx.count("deals made"); ctx.sig(rel, tuple(map(len, case["vals"])), tuple(cnt), k, repr(case["struct"]))
        return
    a = sut.run(case)
    if a.deals: ctx.count("deals made"); ctx.sig(rel, sut.describe(case, a))
    tol = sut.tol(case, a.prices or ())
    if rel == "impl":
        b = sut.run({**case, "mech": "TP", "counts": None})
        compare("IMPLEMENTATIONS-DIFFER", case, a, b, list(range(n)), tol)
        x = sut.recipetree.RecipeTree(sut.build_market(case).categories, copy.deepcopy(case["struct"]))
        y = sut.recipetree_integer.RecipeTree(sut.build_market(case).categories, copy.deepcopy(case["struct"]), [1] * n)
        for q in ("recipes", "paths_to_leaf", "num_of_deals", "optimal_trade_GFT"):
            u, v = getattr(x, q)(), getattr(y, q)()
            if q == "optimal_trade_GFT": u, v = sut.exact(u), sut.exact(v)
            same = abs(u - v) <= tol * (1 + n) if q == "optimal_trade_GFT" else u == v
            if not same: raise core.Violation("TREES-DIFFER", f"{q}: {core.show(u)} in recipetree, {core.show(v)} in recipetree_integer")
        u, v = x.largest_categories(indices=True), y.largest_categories(indices=True)
        if list(u[-1]) != list(v[-1]): raise core.Violation("TREES-DIFFER", f"largest_categories: {u} / {v}")
        ctx.count("binary vs integer tree"); ctx.count("tree questions compared")
    elif rel == "renumber":
        f = case["perm"].__getitem__
        c2 = copy.deepcopy(case); c2["struct"] = renum(case["struct"], f)
        c2["vals"] = [None] * n
        for i in range(n): c2["vals"][f(i)] = case["vals"][i]
        if case.get("counts"):
            c2["counts"] = [None] * n
            for i in range(n): c2["counts"][f(i)] = case["counts"][i]
        b = sut.run(c2)
        compare("NUMBERING-MATTERS", case, a, b, case["perm"], tol); ctx.count("renumbered")
    elif rel == "tuples":
        def frozen(st): return tuple(x if isinstance(x, int) or x is None else frozen(x) for x in st)
        m = sut.build_market(case); cnt = tuple(case["counts"]) if case.get("counts") else None; st = frozen(case["struct"])
        b = sut.outcome(sut.TP.budget_balanced_ascending_auction(m, st) if case["mech"] == "TP" else sut.TI.budget_balanced_ascending_auction(m, st, *([cnt] if cnt else [])))
        ctx.count("tuples instead of lists")
        compare("SPELLING-MATTERS", case, a, b, list(range(n)), tol)
    else:
        pos = case["pos"]; f = lambda i: i + (i >= pos)
        c2 = copy.deepcopy(case); c2["vals"].insert(pos, case["extra"])
        if rel == "unused-single":
            c2["recipe"] = list(case["recipe"]); c2["recipe"].insert(pos, 0)
            if case["typ"] in ("npint",): c2["typ"] = case["typ"]
        else:
            c2["struct"] = renum(case["struct"], f)
            if case.get("counts"): c2["counts"].insert(pos, 1)
        b = sut.run(c2)
        ctx.count("unused category added")
        compare("UNUSED-CATEGORY-MATTERS", case, a, b, [f(i) for i in range(n)], tol)


def smaller(case):
    if "perm" in case or case["rel"] != "chain":
        yield from G.smaller(case)
    else: yield from G.smaller(case)
