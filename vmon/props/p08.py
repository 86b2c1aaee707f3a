"""The optimal trade of a recipe tree."""
import collections, random
from fractions import Fraction as F
from .. import core, gen as G, sut, refs

ID = "P08"
CASES = {"quick": 50000, "thorough": 1500000}
FILES = ["recipetree.py", "recipetree_integer.py"]
RULE = "a case is non-trivial when the optimal trade has at least one deal; two cases differ when implementation, number type, market shape, tree or number of deals differ"
ASSUMPTIONS = ["The oracle is a max-plus dynamic programme over the number of deals per subtree (no sorting or greedy argument).",
               "Per-recipe deal counts are compared only when all values differ, so that the optimal trade is unique."]
REQUIRED = {"asked twice": 5000, "asked again after a change": 2000, "binary trees": 500, "integer trees": 500, "counters judged": 500, "per-recipe counts judged": 300, "zero-gain deals": 20}


def gen(rng, i, tier):
    d = rng.random() < .5
    c = G.tree_case(rng, tier, distinct=d, log=False, profile=None if d else ("exactzero" if rng.random() < .2 else None))
    c["distinct"] = d
    if rng.random() < .3 and all(v.denominator == 1 for vs in c["vals"] for v in vs): c["typ"] = "int"
    elif rng.random() < .4: c["typ"] = "frac"
    if c["prof"] == "hair" and not d and rng.random() < .6:      # hairs as thin as the number type allows
        h = 1 << (rng.choice([20, 40]) if c["typ"] == "frac" else 22)
        c["vals"] = [[round(v) + (v - round(v)) / h for v in vs] for vs in c["vals"]]
    return c


def tree_of(case, m):
    if case["mech"] == "TI": return sut.recipetree_integer.RecipeTree(m.categories, case["struct"], case.get("counts") and list(case["counts"]))
    return sut.recipetree.RecipeTree(m.categories, case["struct"])


def flat(x):
    if isinstance(x, (list, tuple)): return [z for y in x for z in flat(y)]
    return [sut.exact(x)]


def judge(case, ctx):
    cnt = sut.effective_counts(case)
    m = sut.build_market(case)
    orig = [[sut.exact(v) for v in c.values] for c in m.categories]
    tree = tree_of(case, m)
    model = refs.TreeModel(case["struct"], orig, cnt)
    best = model.best(); opt = max(best)
    ctx.count("integer trees" if case["mech"] == "TI" else "binary trees")
    scale = F(0) if case["typ"] in ("frac", "int", "npint") else max([F(1)] + [abs(v) for vs in orig for v in vs]) * (1 + sum(map(len, orig))) / 10**12
    ties = [q for q in range(len(best)) if best[q] == opt]
    k = max(ties)      # zero-gain deals belong to the optimal trade
    if len(ties) > 1: ctx.count("zero-gain deals")
    paths = sut.paths_of(case["struct"])
    # all deals of the tree, best first
    def sums(lst): return [sum(flat(t)) for t in lst]
    cv = sums(tree.combined_values())
    want = [b - a for a, b in zip(best, best[1:])]
    if len(cv) != len(want) or any(abs(a - b) > scale for a, b in zip(cv, want)):
        raise core.Violation("COMBINED", f"deal values {core.show(cv)}, the best q deals add {core.show(want)}")
    for name, lst in (("detailed", tree.combined_values_detailed()),):
        check_deals(case, lst, paths, cnt, orig, name)
        if any(abs(a - b) > scale for a, b in zip(sums(lst), want)) or len(lst) != len(want): raise core.Violation("COMBINED", f"detailed deal values {core.show(sums(lst))}, expected {core.show(want)}")
    deals, count, gft = tree.optimal_trade()
    if abs(sut.exact(gft) - opt) > scale: raise core.Violation("NOT-OPTIMAL", f"optimal gain reported {float(gft)}, best possible {float(opt)}")
    if abs(sut.exact(tree.optimal_trade_GFT()) - opt) > scale: raise core.Violation("NOT-OPTIMAL", f"optimal gain reported {float(tree.optimal_trade_GFT())}, best possible {float(opt)}")
    okc = {k} if not scale else set(ties) | {q for q in range(len(best)) if abs(best[q] - opt) <= scale}
    if count != len(deals) or count not in okc: raise core.Violation("NOT-OPTIMAL", f"{count} optimal deals ({len(deals)} listed), best possible {k}")
    check_deals(case, deals, paths, cnt, orig, "optimal")
    if abs(sum(sums(deals), F(0)) - opt) > scale: raise core.Violation("NOT-OPTIMAL", f"the listed deals gain {float(sum(sums(deals), F(0)))}, best possible {float(opt)}")
    # with counters
    vals, c2, g2, kmin, kmax = tree.optimal_trade_with_counters(); ctx.count("counters judged")
    if c2 not in okc or len(vals) != c2: raise core.Violation("COUNTERS", f"{c2} optimal deals with counters, best possible {k}")
    if abs(sut.exact(g2) - opt) > scale: raise core.Violation("COUNTERS", f"optimal gain with counters {float(g2)}, best possible {float(opt)}")
    if not c2 and kmax != 0: raise core.Violation("COUNTERS", f"kmax={kmax} although no deal is possible")
    if c2:
        if not (1 <= kmin <= kmax <= c2): raise core.Violation("COUNTERS", f"kmin={kmin} kmax={kmax} with {c2} deals")
        if kmin * len(paths) > c2 and len(paths) == 1 and kmin != c2: raise core.Violation("COUNTERS", f"one recipe, {c2} deals but kmin={kmin}")
        if case["distinct"]:
            ctx.count("per-recipe counts judged")
            pl = model.per_leaf()
            if (kmin, kmax) != (min(pl.values()), max(pl.values())): raise core.Violation("COUNTERS", f"kmin={kmin} kmax={kmax}, the optimal trade has {sorted(pl.values())} deals per recipe")
    again = tree.optimal_trade_with_counters()[1:]; ctx.count("asked twice")
    if again != (c2, g2, kmin, kmax): raise core.Violation("COUNTERS", f"asked again, the same tree has {again} instead of {(c2, g2, kmin, kmax)} (deals, gain, kmin, kmax)")
    if tree.optimal_trade()[1:] != (count, gft): raise core.Violation("STALE", f"asked again, the same tree has the optimal trade {tree.optimal_trade()[1:]} instead of {(count, gft)}")
    if [sorted(sut.exact(v) for v in c.values) for c in m.categories] != [sorted(o) for o in orig]: raise core.Violation("MUTATED", "the market was changed")
    # traders come and go, and the same tree is asked again
    if sum(map(len, orig)) < 60:
        rng = random.Random(repr((case["vals"], case["struct"]))); typ = case["typ"] if case["typ"] != "mixed" else "float"
        for _ in range(2):
            for c in m.categories:
                x = rng.random()
                if c.size() and x < .5:
                    old = sut.exact(rng.choice(c.values))
                    c.remove_lowest_agent() if rng.random() < .6 else c.remove_highest_agent()
                    c.append(sut.conv(old + rng.choice([-3, -1, 1, 2, 5]), typ))
                elif c.size() and x < .6: c.remove_lowest_agent()
                elif x > .9: c.append(sut.conv(F(rng.randint(-9, 9)), typ))
            now = [[sut.exact(v) for v in c.values] for c in m.categories]
            best = refs.TreeModel(case["struct"], now, cnt).best(); opt = max(best); tol = 2 * scale; ctx.count("asked again after a change")
            okc = {q for q in range(len(best)) if abs(best[q] - opt) <= tol} if tol else {max(q for q in range(len(best)) if best[q] == opt)}
            cv = sums(tree.combined_values())
            if len(cv) != len(best) - 1 or any(abs(a - (y - x)) > tol for a, x, y in zip(cv, best, best[1:])): raise core.Violation("STALE", f"after the market changed to {core.show(now)} the deal values are {core.show(cv)}")
            d, n, g = tree.optimal_trade(); v2, n2, g2, *_ = tree.optimal_trade_with_counters()
            for what, a, b in (("optimal trade", n, g), ("optimal trade with counters", n2, g2), ("optimal gain", n, tree.optimal_trade_GFT())):
                if a not in okc or abs(sut.exact(b) - opt) > tol: raise core.Violation("STALE", f"after the market changed to {core.show(now)} the {what} has {a} deals of gain {float(sut.exact(b))}, best possible {float(opt)}")
            check_deals(case, d, paths, cnt, now, "optimal")
    if k: ctx.sig(sut.describe({**case, "recipe": None}, _K(k)))


class _K:
    def __init__(self, k): self.deals = k


def check_deals(case, lst, paths, cnt, orig, what):
    """Every deal follows one recipe, and no trader is used twice."""
    avail = [collections.Counter(o) for o in orig]
    used = [collections.Counter() for _ in orig]
    amb = False
    for d in lst:
        vs = flat(d)
        fits = []
        for p in paths:
            if sum(cnt[i] for i in p) != len(vs): continue
            pos = 0; ok = True
            for i in p:
                part = vs[pos:pos + cnt[i]]; pos += cnt[i]
                if any(avail[i][v] < n for v, n in collections.Counter(part).items()): ok = False; break
            if ok: fits.append(p)
        if not fits: raise core.Violation("DEAL-SHAPE", f"{what} deal {core.show(vs)} follows no recipe of {paths}")
        if len(fits) > 1: amb = True; continue
        pos = 0
        for i in fits[0]:
            used[i].update(vs[pos:pos + cnt[i]]); pos += cnt[i]
    for i in range(len(orig)):
        for v, n in used[i].items():
            if n > avail[i][v]: raise core.Violation("USED-TWICE", f"{what} deals use the trader {float(v)} of category {i} {n} times")
    # over all paths together: no value occurs more often than all categories hold it
    tot = collections.Counter(v for d in lst for v in flat(d)); have = collections.Counter(v for o in orig for v in o)
    for v, n in tot.items():
        if n > have[v]: raise core.Violation("USED-TWICE", f"{what} deals use {n} traders of value {float(v)}, the market has {have[v]}")


smaller = G.smaller
