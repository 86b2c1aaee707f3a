"""Recipe trees: recipes, whose prices rise next, how many deals are possible, and how that is explained."""
import copy
from fractions import Fraction as F
from .. import core, gen as G, sut, refs

ID = "P11"
CASES = {"quick": 150000, "thorough": 2000000}
FILES = ["recipetree.py", "recipetree_integer.py"]
RULE = "a case is a random tree with random category sizes from which traders then leave one by one; distinct by implementation, tree, counts and the sizes visited"
ASSUMPTIONS = ["The number of possible deals is compared with a dynamic programme over deals per recipe, and for small trees with exhaustive search."]
REQUIRED = {"states judged": 2000, "exhaustive": 300, "several categories rise together": 300, "integer counts above one": 300, "empty category": 300}


def gen(rng, i, tier):
    n = rng.choice([1, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8, 10])
    tot = n + rng.choice([0, 0, 0, 1, 2])
    st = G.tree(rng, n, tot)
    impl = rng.choice(["TP", "TI"])
    cnt = [rng.choice([1, 1, 2, 2, 3, 4]) for _ in range(tot)] if impl == "TI" and rng.random() < .75 else None
    if cnt and rng.random() < .15: cnt = [x if rng.random() < .5 else rng.randint(1, 12) for x in cnt]
    base = rng.choice([1, 2, 3, 4, 6, 8])
    sizes = [max(0, base * (cnt[j] if cnt else 1) + rng.randint(-base, 3)) if rng.random() < .9 else 0 for j in range(tot)]
    same = rng.random() < .2
    if same: sizes = [base] * tot
    return {"mech": impl, "struct": st, "counts": cnt, "sizes": sizes, "drops": [rng.random() for _ in range(rng.randint(0, 8))], "names": rng.random() < .2}


def exhaustive(paths, cnt, sizes):
    """Most deals over all ways of using the recipes."""
    best = 0
    def go(j, left, made):
        nonlocal best
        if j == len(paths):
            best = max(best, made); return
        k = 0; cur = list(left)
        while True:
            go(j + 1, cur, made + k)
            for i in paths[j]: cur[i] -= cnt[i]
            k += 1
            if any(cur[i] < 0 for i in paths[j]): break
    go(0, list(sizes), 0)
    return best


def explained(model, names, prices, integer, top=True):
    """Expected (deals, text, kmin, kmax)."""
    own = len(model.v) // model.cnt; nm = names[model.i]; size = len(model.v)
    word = "deals" if integer else "traders"
    if not model.kids:
        q, txt, lo, hi = own, f"{nm}: {own} potential deals, price={prices[model.i]}\n", own, own
    else:
        sub = [explained(k, names, prices, integer, False) for k in model.kids]
        tot = sum(s[0] for s in sub); q = min(tot, own)
        los = [s[2] for s in sub if s[2] > 0 or not integer]
        lo = min(los) if los else 0; hi = max(s[3] for s in sub)
        txt = "".join(s[1] for s in sub)
        txt += f"{nm}: all {size} traders selected, price={prices[model.i]}\n" if q == own else f"{nm}: {q * model.cnt} out of {size} traders selected, price={prices[model.i]}\n"
        kn = " + ".join(names[k.i] for k in model.kids)
        txt += f"{kn}: all {tot} {word} selected\n" if q == tot else f"{kn}: {q} out of {tot} {word} selected\n"
    if top: txt += f"{q} deals overall\n"
    return q, txt, lo, hi


def judge(case, ctx):
    tot = len(case["sizes"]); cnt = case["counts"] or [1] * tot
    names = ["agent"] * tot if case["names"] else [f"c{i}" for i in range(tot)]
    cats = [sut.agents.AgentCategory(nm, [F(-j) for j in range(s)]) for nm, s in zip(names, case["sizes"])]
    mod = sut.recipetree if case["mech"] == "TP" else sut.recipetree_integer
    st = copy.deepcopy(case["struct"])
    tree = mod.RecipeTree(cats, st) if case["counts"] is None else mod.RecipeTree(cats, st, list(cnt))
    if st != case["struct"]: raise core.Violation("MUTATED", "the tree description was changed")
    paths = sut.paths_of(case["struct"])
    if tree.paths_to_leaf(indices=True) != paths: raise core.Violation("PATHS", f"paths {tree.paths_to_leaf(indices=True)}, expected {paths}")
    if tree.paths_to_leaf() != [[names[i] for i in p] for p in paths]: raise core.Violation("PATHS", f"named paths {tree.paths_to_leaf()}")
    want = [[cnt[i] if i in p else 0 for i in range(tot)] for p in paths]
    if [list(r) for r in tree.recipes()] != want: raise core.Violation("RECIPES", f"recipes {tree.recipes()}, expected {want}")
    for p in paths:
        if list(mod.RecipeTree.recipe_from_path(p, tot)) != [1 if i in p else 0 for i in range(tot)]: raise core.Violation("RECIPES", f"recipe of path {p}: {mod.RecipeTree.recipe_from_path(p, tot)}")
        if list(mod.RecipeTree.recipe_from_path(p, tot, list(cnt))) != [cnt[i] if i in p else 0 for i in range(tot)]: raise core.Violation("RECIPES", f"counted recipe of path {p}")
    if max(cnt) > 1: ctx.count("integer counts above one")
    used = sorted({i for p in paths for i in p})
    for step, dr in enumerate([None] + case["drops"]):
        if dr is not None:
            alive = [i for i in used if cats[i].size()]
            if not alive: break
            cats[alive[int(dr * len(alive))]].remove_lowest_agent()
        vals = [[sut.exact(v) for v in c.values] for c in cats]
        sizes = [len(v) for v in vals]
        model = refs.TreeModel(case["struct"], vals, cnt)
        ctx.count("states judged")
        if 0 in [sizes[i] for i in used]: ctx.count("empty category")
        big, comb, rise = tree.largest_categories(indices=True)
        if len(rise) > 1: ctx.count("several categories rise together")
        for p in paths:
            if sum(i in rise for i in p) != 1: raise core.Violation("NOT-A-CUT", f"step {step}: prices of {rise} rise, recipe {p} has {sum(i in rise for i in p)} of them")
        if sorted(rise) != sorted(model.largest()): raise core.Violation("WRONG-CLOCK", f"step {step}: prices of {rise} rise, the rule picks {model.largest()} (sizes {sizes}, counts {cnt})")
        if tree.largest_categories()[-1] != [names[i] for i in rise]: raise core.Violation("WRONG-CLOCK", f"step {step}: names {tree.largest_categories()[-1]}")
        if abs(sut.exact(big) - max(F(sizes[i], cnt[i]) for i in rise)) > F(1, 10**9): raise core.Violation("SIZES", f"step {step}: largest size {big}, sizes {sizes} counts {cnt} of {rise}")
        if abs(sut.exact(comb) - F(sizes[model.i], cnt[model.i])) > F(1, 10**9): raise core.Violation("SIZES", f"step {step}: combined size {comb}, root has {sizes[model.i]}/{cnt[model.i]}")
        q = len(model.best()) - 1
        if tree.num_of_deals() != q: raise core.Violation("DEALS", f"step {step}: {tree.num_of_deals()} deals possible, expected {q} (sizes {sizes}, counts {cnt})")
        if len(paths) <= 3 and max(sizes) <= 9:
            e = exhaustive(paths, cnt, sizes); ctx.count("exhaustive")
            if e != q: raise core.Violation("DEALS", f"step {step}: {q} deals possible, exhaustive search finds {e}")
        prices = [i * 10 - 7 for i in range(tot)]
        got = tree.num_of_deals_explained(prices)
        exp = explained(model, names, prices, case["mech"] == "TI")
        if got[0] != q: raise core.Violation("DEALS", f"step {step}: explanation says {got[0]} deals, expected {q}")
        if got[1] != exp[1]: raise core.Violation("EXPLANATION", f"step {step}: explanation {got[1]!r}, expected {exp[1]!r}")
        if tuple(got[2:]) != exp[2:]: raise core.Violation("EXPLANATION", f"step {step}: least/most deals per recipe {got[2:]}, expected {exp[2:]}")
    ctx.sig(case["mech"], repr(case["struct"]), tuple(cnt), tuple(case["sizes"]), len(case["drops"]))


def smaller(case):
    for i in range(len(case["drops"])):
        c = copy.deepcopy(case); del c["drops"][i]; yield c
    for i, s in enumerate(case["sizes"]):
        if s:
            c = copy.deepcopy(case); c["sizes"][i] -= 1; yield c
