"""Workload generators: markets, recipes and recipe trees, from everyday to hostile."""
import itertools
from fractions import Fraction as F

PROFILES = ["ties", "distinct", "distinct", "small", "wide", "anysign", "exactzero", "constant", "pareto", "zeros", "dense", "fine", "hair", "huge", "near"]


def recipe(rng, n, allow_zero=True):
    k = rng.random()
    if k < .35: return [1] * n
    r = [rng.choice([1, 1, 1, 2, 2, 3, 4, 5]) for _ in range(n)]
    if k > .95: r[rng.randrange(n)] = rng.randint(6, 12) if k < .995 else rng.choice([49, 98, rng.randint(13, 110)])
    if allow_zero and rng.random() < .2 and n > 1:
        for _ in range(rng.randint(1, n - 1)): r[rng.randrange(n)] = 0
        if not any(r): r[rng.randrange(n)] = 1
    return r


def size(rng, tier, small=False):
    k = rng.random()
    if small: return rng.choice([0, 1, 1, 2, 2, 3, 4])
    if k < .55: return rng.choice([0, 1, 2, 2, 3, 3, 4, 5, 6])
    if k < .9: return rng.randint(3, 14)
    if k < .985: return rng.randint(10, 45)
    if k > .9993: return rng.randint(300, 1500)
    return rng.randint(40, 160 if tier == "quick" else 400)


def values(rng, n, buyer, scale, profile, uniq):
    """n exact values of one category."""
    s = 1 if buyer else -1
    if profile == "ties": return [F(s * rng.randint(0, max(2, int(scale) // 4))) for _ in range(n)]
    if profile == "small": return [F(s * rng.randint(0, max(1, int(scale)))) for _ in range(n)]
    if profile == "huge": return [F(s * rng.randint(1, int(scale))) + F(next(uniq), 64) for _ in range(n)]
    if profile in ("distinct", "wide", "dense"): return [s * F(rng.randint(1, int(scale) * 256)) / 256 + F(next(uniq), 65536) for _ in range(n)]
    if profile == "fine": return [s * (F(int(scale)) / 2 + F(rng.randint(0, 4096), 65536)) for _ in range(n)]
    if profile == "anysign": return [F(rng.randint(-int(scale), int(scale))) + rng.choice([F(0), F(1, 2), F(next(uniq), 1024)]) for _ in range(n)]
    if profile == "constant":
        v = F(s * rng.randint(0, int(scale)))
        return [v] * n
    if profile == "zeros": return [F(rng.choice([0, 0, s * rng.randint(0, int(scale))])) for _ in range(n)]
    if profile == "pareto": return [s * F(round(min(rng.paretovariate(1.1), 1e4) * 16), 16) for _ in range(n)]
    if profile == "hair":                                # small whole numbers, apart by a hair: near-ties and deals that barely gain or lose
        k = rng.choice([1, 1, 2, 4])
        return [F(s * k * rng.choice([1, 2, 3, 4, 5, 6])) + F(rng.choice([0, 0, 1, -1, 1, -1, 2, -3, 7, 40, -300]), 1 << 20) for _ in range(n)]
    if profile == "near":                                # different values, but hardly: many traders within a few millionths
        k = rng.choice([1, 1, 2, 4]); m = rng.choice([1, 1, 2, 3])
        return [F(s * k * rng.choice([1, 2, 3, 5, 8][:m])) + F(next(uniq) * 8 + rng.randrange(8), 1 << 22) * rng.choice([1, 1, -1]) for _ in range(n)]
    if profile == "exactzero": return [F(s * rng.choice([1, 2, 3, 4, 6, 12]) * rng.choice([1, 1, 2])) for _ in range(n)]
    raise ValueError(profile)


def market(rng, recipes, tier, ncat, small=False, bilateral=False, profile=None, distinct=False, deep=False):
    """Values for ncat categories, scaled so that the given recipes have a fair share of profitable deals."""
    prof = profile or rng.choice(["distinct", "wide", "dense", "distinct", "distinct", "wide", "dense", "huge", "near", "near"] if distinct else PROFILES)
    S = {"wide": rng.choice([1000, 10**5, 10**6]), "dense": 8}.get(prof, rng.choice([8, 20, 50, 100]))
    if bilateral: buyers = {rng.randrange(ncat)}
    else:
        pos = [i for i in range(ncat) if any(r[i] > 0 for r in recipes)]
        buyers = set(rng.sample(pos, rng.randint(1, max(1, len(pos) - 1)))) if rng.random() < .4 else {rng.choice(pos) if rng.random() < .4 else pos[0]}
    # scale the two sides so that a deal is profitable about half of the time
    cost = max([sum(r[i] for i in range(ncat) if i not in buyers) for r in recipes] + [1])
    gain = max(1, min([sum(r[i] for i in range(ncat) if i in buyers) for r in recipes if any(r[i] for i in buyers)] + [1]))
    up = max(1, F(cost, gain)) * rng.choice([F(1, 2), F(1), F(1), F(3, 2), F(3)])
    if prof == "huge":                                   # as large as the documented bound on values allows
        top = 45 * 10**6 // sum(max(r[i] for r in recipes) for i in range(ncat) if any(r[i] for r in recipes))
        S = rng.choice([top, top, top // 7]); S = int(min(S, top / up))
    base = size(rng, tier, small)
    uniq = itertools.count(1)
    vals = []
    for i in range(ncat):
        c = max([r[i] for r in recipes])
        k = rng.random()
        if k < .55: n = base
        elif k < .9: n = max(0, base + rng.randint(-2, 3))
        else: n = size(rng, tier, small)
        n = n * max(c, 1) + (rng.randint(0, c - 1) if c > 1 and rng.random() < .6 else 0)
        if deep: n = max(n, c)
        n = min(n, max(base, 2000))
        sc = max(2, int(S * up)) if i in buyers else S
        vals.append(values(rng, n, i in buyers, sc, prof, uniq))
    if rng.random() < .04:
        vals[rng.randrange(ncat)] = []
    if distinct and prof != "near": vals = spread(vals)
    for v in vals: rng.shuffle(v)
    return vals, prof


def spread(vals):
    """Make all values of a market different, and the sums of deals almost surely different."""
    out = []; k = 0
    for vs in vals:
        row = []
        for v in vs:
            k += 1
            row.append(v + F((k * k * 7 + k * 3) % 65521 * 2 + 1, 1 << 21) + F(k, 1 << 24))
        out.append(row)
    return out


def margin(rng, vals, r, fine=False):
    """Shift one trader so that some deal, often the last one worth making, gains or loses exactly a hair, or nothing."""
    tops = [sorted(v, reverse=True) for v in vals]; deals = []
    for j in range(min(len(v) // x for v, x in zip(tops, r) if x)):
        deals.append(sum(sum(v[j * x:(j + 1) * x]) for v, x in zip(tops, r)))
        if deals[-1] < 0: break
    if not deals: return vals
    j = len(deals) - 1 if rng.random() < .7 else rng.randrange(len(deals))
    c = rng.choice([i for i, x in enumerate(r) if x])
    v = tops[c][j * r[c] + rng.randrange(r[c])]
    hair = rng.choice([0, 1, -1, -1]) * F(1, 1 << rng.choice([10, 24, 50, 70] if fine else [10, 20, 24]))
    k = vals[c].index(v)
    return [vs if i != c else vs[:k] + [v - deals[j] + hair] + vs[k + 1:] for i, vs in enumerate(vals)]


def numtype(rng, vals, tree=False):
    allint = all(v.denominator == 1 for vs in vals for v in vs)
    k = rng.random()
    if tree:
        if allint and k < .25: return rng.choice(["int", "npint"])
        return "np" if k > .9 else ("mixed" if k > .8 else "float")
    if k < .45: return "frac"
    if allint and k < .7: return rng.choice(["int", "int", "npint"])
    return "np" if k > .93 else ("mixed" if k > .85 else "float")


def names(rng, n):
    k = rng.random()
    if k < .6: return None
    if k < .8: return ["agent"] * n                      # all categories share a name, as in the experiments
    if k < .9: return [rng.choice(["buyer", "seller", "mediator", "A"]) for _ in range(n)]
    return [rng.choice(["", "ŝ", "a b", "x:y", "%s", "{}", "0", "a rather long name of a category", "Seller 2", "z" * 300]) for _ in range(n)]


def history(rng, case):
    if rng.random() < .12: case["history"] = rng.choice(["late", "late", "left", "filled"])


def tree(rng, ncat, ncats_total=None, equal_depth=False, shuffle=.3, shape=None):
    """Random recipe tree over ncat distinct categories (nested list)."""
    order = list(range(ncats_total or ncat))
    if rng.random() < shuffle or (ncats_total or ncat) > ncat: rng.shuffle(order)
    order = order[:ncat]
    kids = {i: [] for i in order}
    if equal_depth:
        # all leaves at the same depth
        levels = [[order[0]]]; rest = order[1:]
        while rest:
            w = rng.randint(1, len(rest))
            if w < len(levels[-1]): 
                if len(rest) < len(levels[-1]): break
                w = len(levels[-1])
            lvl, rest = rest[:w], rest[w:]
            par = levels[-1]
            for j, c in enumerate(lvl): kids[par[j] if j < len(par) else rng.choice(par)].append(c)
            levels.append(lvl)
    else:
        shape = shape or rng.choice(["random", "random", "chain", "star", "bushy"])
        for i in range(1, ncat):
            if shape == "chain": p = order[i - 1] if rng.random() < .8 else order[rng.randrange(i)]
            elif shape == "star": p = order[0] if rng.random() < .7 else order[rng.randrange(i)]
            elif shape == "bushy": p = order[(i - 1) // 2]
            else: p = order[rng.randrange(i)]
            kids[p].append(order[i])
    def s(i): return None if not kids[i] else sum([[c, s(c)] for c in kids[i]], [])
    return [order[0], s(order[0])]


def single_case(rng, tier, mechs=("AP", "TR", "MC"), small=False, distinct=False, recipe_ones_for_tr=False, allow_zero=True, log=True, profile=None, mc_average=False, anysign=True):
    """A case for one of the single-recipe auctions."""
    mech = rng.choice(mechs)
    if mech == "MC":
        # McAfee's auction is bilateral: buyers have positive values and sellers negative ones. With more sides it is
        # McAfee's only without the average price.
        n = 2 if rng.random() < .85 else rng.choice([3, 3, 4, 5])
        vals, prof = market(rng, [[1] * n], tier, n, small, bilateral=True, distinct=distinct, profile=profile or (None if distinct else rng.choice([p for p in PROFILES if p != "anysign"])))
        b = max(range(n), key=lambda i: sum(vals[i]))
        side = [i == b or (n > 2 and i != (b + 1) % n and rng.random() < .3) for i in range(n)]
        vals = [[abs(v) if side[i] else -abs(v) for v in vs] for i, vs in enumerate(vals)]
        if anysign and rng.random() < .1:                # a buyer who must be paid, a seller who would pay
            flip = rng.choice([(b,), (b,), tuple(range(n))])
            vals = [[-v if i in flip and rng.random() < .3 else v for v in vs] for i, vs in enumerate(vals)]
        case = {"mech": "MC", "vals": vals, "recipe": [1] * n, "opts": {"price_heuristic": False} if rng.random() < .3 or (n > 2 and not mc_average) else {}}
    else:
        n = rng.choice([2, 2, 2, 3, 3, 4, 5, 6]) if rng.random() < .97 else rng.randint(7, 14)
        r = [1] * n if (mech == "TR" and recipe_ones_for_tr) else recipe(rng, n, allow_zero)
        if not any(r): r[0] = 1
        vals, prof = market(rng, [r], tier, n, small, distinct=distinct, profile=profile)
        case = {"mech": mech, "vals": vals, "recipe": r, "opts": {}}
        if mech == "AP" and rng.random() < .1: case["opts"] = {"max_iterations": rng.choice([1, 2, 10, 10**7])}
    case["prof"] = prof
    case["typ"] = numtype(rng, vals)
    if prof == "hair" and case["typ"] == "frac" and rng.random() < .5:      # exact arithmetic: hairs as thin as one likes
        h = 1 << rng.choice([20, 60]); case["vals"] = [[round(v) + (v - round(v)) / h for v in vs] for vs in vals]
    if not distinct and mech != "MC" and prof != "huge" and rng.random() < .05: case["vals"] = margin(rng, case["vals"], case["recipe"], case["typ"] == "frac")
    if case["typ"] in ("int", "npint") and any(v.denominator != 1 for vs in case["vals"] for v in vs): case["typ"] = "float"
    if rng.random() < .25: case["rtype"] = "tuple"
    nm = names(rng, len(vals))
    if nm: case["names"] = nm
    history(rng, case)
    if log and rng.random() < .04: case["log"] = rng.choice(["info", "debug"])
    return case


def tree_case(rng, tier, mechs=("TP", "TI"), small=False, distinct=False, equal_depth=False, log=True, maxcat=7, extra=True, unit_counts=False, single=True, profile=None, deep=False):
    mech = rng.choice(mechs)
    n = rng.choice([2, 2, 3, 3, 4, 4, 5, 6, maxcat])
    if maxcat >= 7 and rng.random() < .015: n = rng.randint(8, 13)
    if single and rng.random() < .02: n = 1
    total = n + (1 if extra and rng.random() < .12 else 0)      # sometimes a category that no recipe uses
    st = tree(rng, n, total, equal_depth=equal_depth)
    counts = None
    if mech == "TI" and not unit_counts and rng.random() < .85: 
        counts = [rng.choice([1, 1, 1, 2, 2, 3, 4]) for _ in range(total)]
        if rng.random() < .05: counts = [x if rng.random() < .5 else rng.randint(1, 10) for x in counts]
        if rng.random() < .01: counts[rng.randrange(total)] = rng.choice([49, 98, rng.randint(5, 110)])
    elif mech == "TI" and rng.random() < .5: counts = [1] * total
    case = {"mech": mech, "struct": st}
    if counts: case["counts"] = counts
    cnt = counts or [1] * total
    rs = [[cnt[i] if i in p else 0 for i in range(total)] for p in _paths(st)]
    vals, prof = market(rng, rs, tier, total, small, distinct=distinct, profile=profile, deep=deep)
    # a category shared by several recipes needs more traders than the others
    if len(rs) > 1 and rng.random() < .7:
        uses = [sum(r[i] > 0 for r in rs) for i in range(total)]
        for i in range(total):
            if uses[i] > 1 and vals[i]:
                s = vals[i]; m = min(uses[i], 3)
                add = [v * F(rng.randint(50, 130), 100) if not distinct else v + F(rng.randint(1, 5 * 256), 256) for _ in range(m - 1) for v in s]
                vals[i] = s + [F(round(v * 256), 256) if not distinct else v for v in add]
        if distinct and prof != "near": vals = spread(vals)
    if distinct and len({v for vs in vals for v in vs}) < sum(map(len, vals)): vals = spread(vals)
    if len(vals) > total: raise AssertionError
    case["vals"] = vals; case["prof"] = prof
    case["typ"] = numtype(rng, vals, tree=True)
    if case["typ"] == "mixed" and rng.random() < .5: case["typ"] = "float"
    nm = names(rng, total)
    if nm: case["names"] = nm
    history(rng, case)
    if log and rng.random() < .03: case["log"] = rng.choice(["info", "debug"])
    return case


def _paths(struct):
    node, kids = struct
    if kids is None: return [[node]]
    return [[node] + p for i in range(0, len(kids), 2) for p in _paths([kids[i], kids[i + 1]])]


def smaller(case):
    """Candidate reductions of a case (used to shrink a counterexample)."""
    import copy
    for k in ("log", "names", "rtype"):
        if k in case:
            c = copy.deepcopy(case); del c[k]; yield c
    for i, vs in enumerate(case["vals"]):
        if len(vs) > 3:
            for lo, hi in ((0, len(vs) // 2), (len(vs) // 2, len(vs))):
                c = copy.deepcopy(case); del c["vals"][i][lo:hi]; yield c
    # drop one whole deal's worth of traders, then single traders
    for j in range(max([len(v) for v in case["vals"]] + [0])):
        if all(len(v) > j for v in case["vals"]):
            c = copy.deepcopy(case)
            for v in c["vals"]: del v[j]
            yield c
    for i, vs in enumerate(case["vals"]):
        for j in range(len(vs)):
            c = copy.deepcopy(case); del c["vals"][i][j]; yield c
    for i, vs in enumerate(case["vals"]):
        for j, v in enumerate(vs):
            if v != int(v):
                c = copy.deepcopy(case); c["vals"][i][j] = F(int(v)); yield c
