"""The numbers an experiment derives from a recipe tree: depth, categories, children, and weights that balance every recipe."""
import copy, importlib, sys
from .. import core, gen as G, sut

ID = "P22"
CASES = {"quick": 300000, "thorough": 1500000}
FILES = ["tree_calculations.py"]
RULE = "a case is one recipe tree; distinct by the tree"
ASSUMPTIONS = ["Category 0 is the root (the buyers), as in the experiments, when weights are judged."]
REQUIRED = {"weights judged": 5000, "depth judged": 5000, "children judged": 5000, "several recipes": 2000}
_m = None


def worker_init(wid):
    global _m
    real = sys.stdout; sys.stdout = core.SINK
    try: _m = importlib.import_module("tree_calculations")
    finally: sys.stdout = real


def gen(rng, i, tier):
    n = rng.choice([1, 2, 3, 3, 4, 5, 6, 8, 10, 14])
    root0 = rng.random() < .7
    return {"tree": G.tree(rng, n, n if root0 or rng.random() < .5 else n + rng.randint(1, 4), shuffle=0 if root0 else 1, equal_depth=rng.random() < .15)}


def judge(case, ctx):
    t = case["tree"]; t0 = copy.deepcopy(t)
    paths = sut.paths_of(t); ids = {x for p in paths for x in p}
    depth, top = _m.get_depth_and_agents_size(t)
    if (depth, top) != (max(map(len, paths)), max(ids)): raise core.Violation("DEPTH", f"depth {depth} and largest category {top} for recipes {paths}")
    ctx.count("depth judged")
    kids = {}
    for p in paths:
        for a, b in zip(p, p[1:]): kids.setdefault(a, set()).add(b)
    size = max(ids) + 1
    got = _m.get_children_counts(t, [0] * size)
    if len(got) != size or any(got[x] != max(1, len(kids.get(x, ()))) for x in ids) or any(got[x] != 0 for x in range(size) if x not in ids) or any(type(x) is float for x in got):
        raise core.Violation("CHILDREN", f"children {got} for recipes {paths}")
    ctx.count("children judged")
    if len(paths) > 1: ctx.count("several recipes")
    w = _m.get_agents_analyze(t)
    if len(w) != size: raise core.Violation("WEIGHTS", f"{len(w)} weights for categories up to {max(ids)}")
    if t[0] == 0 and depth > 1:
        if w[0] != depth - 1: raise core.Violation("WEIGHTS", f"the root weighs {w[0]}, the longest recipe has {depth} categories")
        for p in paths:
            if sum(w[x] for x in p[1:]) != w[0]: raise core.Violation("WEIGHTS", f"recipe {p} has weights {[w[x] for x in p]}: sellers and buyer do not balance")
            if any(w[x] != 1 for x in p[1:-1]): raise core.Violation("WEIGHTS", f"recipe {p} has weights {[w[x] for x in p]}: only the last category takes up the difference")
        ctx.count("weights judged")
    if t != t0: raise core.Violation("TREE-CHANGED", f"{t0} became {t}")
    ctx.sig(repr(t))
