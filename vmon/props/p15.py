"""Trader categories and markets under histories of operations, against sorted lists."""
import copy
from fractions import Fraction as F
from .. import core, gen as G, sut

ID = "P15"
CASES = {"quick": 100000, "thorough": 3000000}
FILES = ["agents.py", "markets.py"]
RULE = "a case is a history of up to 40 operations on a market and its clones; distinct by the shape of the history; non-trivial when it both adds and removes traders"
ASSUMPTIONS = ["Removing or looking up a trader of an empty category is outside the contract and not exercised."]
REQUIRED = {"long descriptions": 50, "append": 1000, "append list": 200, "append_PS": 200, "clone": 300, "remove_highest_agents": 500, "get_highest_agents none": 50, "get_highest_agents": 300, "best_containing_PS": 300}


def val(rng):
    k = rng.random()
    if k < .4: return F(rng.randint(-10, 10))
    if k < .45: return F(1, 3) + rng.randint(-5, 5) * F(1, 10**20)      # exact fractions that no double tells apart
    if k < .8: return F(rng.randint(-5000, 5000), 64)
    return F(rng.choice([0, 1, -1, 10**6, -10**6, 99999999, -99999999]))


def gen(rng, i, tier):
    n = rng.randint(1, 5)
    vals = [[val(rng) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 20] if rng.random() < .96 else [30, 50, 70, 110, 140]))] for _ in range(n)]
    ops = []
    long = rng.random() < .006                           # crowded categories too
    if long: vals[rng.randrange(n)] = [val(rng) for _ in range(rng.choice([200, 300, 600, 1100, 2500]))]
    for _ in range(rng.randint(1, 8 if long else 40)):
        c = rng.randrange(n); o = rng.choice(["append", "append", "append_list", "append_trader", "append_PS", "rm_hi", "rm_his", "rm_lo", "rm_market", "clone", "clone_cat", "hi", "his", "lo", "ask_hi", "ask_best", "str", "empty", "original"])
        if long and rng.random() < .2: o = "str"
        several = [val(rng) for _ in range(rng.randint(0, 5) if rng.random() < .97 else rng.choice([12, 30, 60, 150]))]
        if rng.random() < .3: several.sort(reverse=rng.random() < .7)
        ops.append([o, c, val(rng), several, [rng.choice([0, 1, 1, 1, 2, 3] if rng.random() < .97 else [5, 10, 40, 100]) for _ in range(n)], [val(rng) for _ in range(n)], rng.randint(0, 4) if rng.random() < .9 else rng.choice([7, 15, 40, 70, 130, 700])])
    return {"vals": vals, "ops": ops, "typ": rng.choice(["frac", "int", "float", "mixed", "np"]), "tuple": rng.random() < .2}


def judge(case, ctx):
    typ = case["typ"]; n = len(case["vals"])
    def cv(v, i=0): return sut.conv(v, typ, i)
    def ex(l): return [sut.exact(x) for x in l]
    src = [[cv(v) for v in vs] for vs in case["vals"]]
    keep = [list(s) for s in src]
    if case["tuple"]: src = [tuple(s) for s in src]
    m = sut.markets.Market([sut.agents.AgentCategory(f"c{i}", s) for i, s in enumerate(src)])
    model = [sorted((sut.exact(v) for v in vs), reverse=True) for vs in src]
    smallest = min(len(x) for x in model)
    if m.size_of_smallest_category != smallest: raise core.Violation("SIZE", f"smallest category of {m} reported as {m.size_of_smallest_category} traders")
    worlds = [(m, model)]     # every clone lives on, and must stay what it is
    added = removed = 0
    for step, (o, c, v, lst, recipe, ps, k) in enumerate(case["ops"]):
        m, model = worlds[-1]
        cat = m.categories[c]; mc = model[c]
        def fail(kind, msg): raise core.Violation(kind, f"step {step} {o} on category {c}: {msg}")
        if o == "append": cat.append(cv(v)); mc.append(sut.exact(cv(v))); ctx.count("append"); added += 1
        elif o == "append_list":
            l = [cv(x) for x in lst]; l0 = list(l); cat.append(l); mc += ex(l0); ctx.count("append list"); added += 1
            if l != l0: fail("ARGUMENT-CHANGED", "the appended list was changed")
        elif o == "append_trader": m.append_trader(c, cv(v)); mc.append(sut.exact(cv(v))); ctx.count("append"); added += 1
        elif o == "append_PS":
            p = [cv(x) for x in ps]; m.append_PS(p); ctx.count("append_PS"); added += 1
            for i in range(n): model[i].append(sut.exact(p[i]))
        elif o == "rm_hi" and mc: cat.remove_highest_agent(); mc.pop(0); removed += 1
        elif o == "rm_his": q = min(k, len(mc)); cat.remove_highest_agents(q); del mc[:q]; ctx.count("remove_highest_agents"); removed += q > 0
        elif o == "rm_lo" and mc: cat.remove_lowest_agent(); mc.pop(); removed += 1
        elif o == "rm_market" and all(len(x) >= r for x, r in zip(model, recipe)):
            m.remove_highest_agents(list(recipe)); ctx.count("remove_highest_agents"); removed += 1
            for x, r in zip(model, recipe): del x[:r]
        elif o == "clone":
            worlds.append((m.clone(), [list(x) for x in model])); ctx.count("clone")
            if worlds[-1][0].size_of_smallest_category != min(len(x) for x in model): fail("SIZE", f"clone reports {worlds[-1][0].size_of_smallest_category} traders in its smallest category")
        elif o == "clone_cat":
            cc = cat.clone(); ctx.count("clone")
            if ex(cc.values) != mc or cc.name != cat.name: fail("CLONE", f"{cc} differs from {cat}")
            cc.append(cv(v))
            if len(mc): cc.remove_lowest_agent()
        elif o == "hi" and mc:
            if sut.exact(cat.highest_agent_value()) != mc[0]: fail("LOOKUP", f"highest is {cat.highest_agent_value()}, expected {float(mc[0])}")
        elif o == "his":
            if ex(cat.highest_agent_values(k)) != mc[:k]: fail("LOOKUP", f"highest {k} are {cat.highest_agent_values(k)}")
            r = cat.highest_agent_values(k); r.append(cv(v))
        elif o == "lo" and mc:
            if sut.exact(cat.lowest_agent_value()) != mc[-1]: fail("LOOKUP", f"lowest is {cat.lowest_agent_value()}, expected {float(mc[-1])}")
        elif o == "ask_hi":
            got = m.get_highest_agents(list(recipe))
            if any(len(x) < r for x, r in zip(model, recipe)):
                ctx.count("get_highest_agents none")
                if got is not None: fail("LOOKUP", f"deal {got} although a category lacks traders")
            else:
                ctx.count("get_highest_agents")
                if got is None or ex(got) != [y for x, r in zip(model, recipe) for y in x[:r]]: fail("LOOKUP", f"best deal of recipe {recipe} is {got}")
        elif o == "ask_best" and all(model):
            got = m.best_containing_PS(c, cv(v)); ctx.count("best_containing_PS")
            if ex(got) != [sut.exact(cv(v)) if i == c else model[i][0] for i in range(n)]: fail("LOOKUP", f"best deal around {float(v)} is {got}")
        elif o == "str":
            if any(len(x) > 150 for x in model): ctx.count("long descriptions")
            want = "Traders: [" + ", ".join(f"c{i}: {x.values}" for i, x in enumerate(m.categories)) + "]"
            if str(m) != want or repr(cat) != f"c{c}: {cat.values}": fail("TEXT", f"{str(m)!r}")
        elif o == "empty":
            e = m.empty_agent_categories()
            if [x.name for x in e] != [x.name for x in m.categories] or any(len(x) for x in e): fail("EMPTY", f"{e}")
            if len({id(x.values) for x in e}) != n: fail("ALIAS", "empty categories share their list")
            e[c].append(cv(v))
            if m.has_empty_category() != any(not x for x in model): fail("LOOKUP", "has_empty_category is wrong")
        elif o == "original": worlds.insert(0, worlds.pop())
        mc.sort(reverse=True)
        for x in model: x.sort(reverse=True)
        # every market, current or left behind, is exactly what its own history made it: sorted, nothing lost or shared
        for w, (mm, mod) in enumerate(worlds):
            for i in range(n):
                a = ex(mm.categories[i].values)
                if a != mod[i]: fail("STATE", f"market {w} category {i} holds {core.show(a)}, expected {core.show(mod[i])}")
                if mm.categories[i].size() != len(mod[i]) or len(mm.categories[i]) != len(mod[i]): fail("SIZE", f"size {mm.categories[i].size()}, expected {len(mod[i])}")
            ctx.count("states judged")
            if mm.num_categories != n: fail("STATE", "number of categories changed")
    if [list(s) for s in src] != keep: raise core.Violation("ARGUMENT-CHANGED", "the list a category was built from was changed")
    if added and removed: ctx.sig(typ, tuple(len(v) for v in case["vals"]), tuple((x[0], x[1]) for x in case["ops"]))


def smaller(case):
    for i in range(len(case["ops"])):
        c = copy.deepcopy(case); del c["ops"][i]; yield c
    for i, vs in enumerate(case["vals"]):
        for j in range(len(vs)):
            c = copy.deepcopy(case); del c["vals"][i][j]; yield c
