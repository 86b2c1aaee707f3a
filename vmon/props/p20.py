"""Stock data becomes market values without loss, duplication or change of sign."""
import collections, importlib, os, random, shutil, sys, tempfile
from fractions import Fraction as F
from .. import core, sut

ID = "P20"
CASES = {"quick": 24000, "thorough": 150000}
FILES = ["get_stocks_data.py"]
RULE = "a case is one generated folder of price files imported by one entry point; distinct by entry point, recipe, number of files and rows"
ASSUMPTIONS = ["Prices are multiples of one eighth, so that thousandths are whole numbers and double arithmetic is exact; a share of cases uses decimal prices and allows one thousandth of rounding.",
               "The folder of price files is set through the module's STOCKS variable and is a scratch folder."]
REQUIRED = {"tree prices with decimals": 100, "recipe prices": 1000, "tree prices": 400, "shuffled prices": 200, "general recipe": 200, "several files": 400, "imported again": 800}
_tmp = None; _mod = None


def worker_init(wid):
    global _tmp, _mod
    sys.path.insert(0, core.REPO)
    _mod = importlib.import_module("get_stocks_data")
    _tmp = tempfile.mkdtemp(prefix="vmon-p20-")
    import atexit, multiprocessing.util
    pid = os.getpid()
    def clean():
        if os.getpid() == pid: shutil.rmtree(_tmp, ignore_errors=True)
    atexit.register(clean); multiprocessing.util.Finalize(None, clean, exitpriority=1)


COLS = ["Open", "High", "Low", "Close"]


def gen(rng, i, tier):
    kind = rng.choice(["recipe", "recipe", "recipe", "tree", "shuffled"])
    nf = rng.choice([1, 1, 2, 3, 6]) if kind != "recipe" else rng.choice([1, 1, 2])
    dec = rng.random() < .15
    mag = rng.choice([900, 900, 900, 30000, 500000, 6000000])     # some shares cost hundreds of thousands, in some currencies millions
    files = []
    for f in range(nf):
        rows = rng.choice([1, 2, 3, 4, 5, 7, 8, 12])
        if rng.random() < .03: rows = rng.randint(20, 60)
        if rng.random() < .004: rows = rng.randint(200, 1300) if rng.random() < .85 else rng.randint(2000, 9000)
        pool = rng.sample(range(1, rng.choice([40000, 40000, 400000, 8 * 500000, 8 * 6000000])), rows * 4) if rng.random() < .7 else [rng.randint(0, 12) for _ in range(rows * 4)]
        again = rng.random() < .15
        files.append([[(round(rng.uniform(.01, mag), rng.choice([2, 3, 4, 6])) if dec else F(pool.pop(), 8)) for _ in range(4)] for _ in range(rows)])
        if again: files[-1] = files[-1][:1] + [list(rng.choice(files[-1])) for _ in files[-1][1:]]       # days with the same prices
    c = {"kind": kind, "files": files, "dec": dec, "sub": rng.randrange(1 << 30), "names": rng.sample(rng.choice([["A", "BB", "AMZN", "x.y", "T-1", "zz"], ["BRK.A", "BRK.B", "BRK", "BRK.A.2", "BRK-A", "brk"], ["GOOG", "GOOGL", "GOOGLE", "AGOOG", "GOO", "goog"]]), nf), "cols": rng.sample(range(4), 4), "extra": rng.random() < .5, "dates": rng.choice(["rising", "rising", "rising", "none", "same", "falling"])}
    if rng.random() < .25: c["then"] = rng.choice([0, 1, 3])
    if kind == "recipe":
        k = rng.random()
        if k < .5: r = rng.choice([(1, 1), (2, 1), (1, 2), (2, 1, 1), (1, 1, 1), (2, 2, 2), (3, 3, 3)])
        else: r = tuple(rng.choice([1, 1, 2, 3, 4]) for _ in range(rng.choice([2, 3, 3, 4, 5])))
        c["recipe"] = r
    if kind == "tree":
        n = rng.choice([2, 3, 4, 5])
        some = rng.choice([[1, 1, 1, 2, 3], [1, 1, 1, 2, 3], [1, .5, 2], [1, .5, .25]])
        c["counts"] = [rng.choice(some) for _ in range(n)]; c["weights"] = [rng.choice(rng.choice([[1, 1, 2, 3], [1, 2, 1.5, .5]])) for _ in range(n)]
    return c


def expected(rows, recipe):
    """Values per category before thousandths, as exact rationals."""
    col = {k: [F(r[COLS.index(k)]) for r in rows] for k in COLS}
    buyers, sellers = col["High"] + col["Close"], [-x for x in col["Open"] + col["Low"]]
    both = lambda a, b: [x + y for x, y in zip(col[a], col[b])]
    if recipe == (1, 1): return [buyers, sellers]
    if recipe == (2, 1): return [buyers, [-x for x in both("Open", "Low")]]
    if recipe == (1, 2): return [both("High", "Close"), sellers]
    if recipe == (2, 1, 1): return [buyers, [-x for x in col["Open"]], [-x for x in col["Low"]]]
    if len(recipe) == 3 and len(set(recipe)) == 1: return [both("High", "Close"), [-x for x in col["Open"]], [-x for x in col["Low"]]]
    m = len(recipe) - 1
    out = [[b * sum(recipe[1:]) for b in buyers for _ in range(recipe[0])]] + [[] for _ in range(m)]
    for i in range(len(sellers) * m): out[1 + i % m] += [sellers[i % len(sellers)]] * recipe[1 + i % m]
    return out


def judge(case, ctx):
    folder = tempfile.mkdtemp(dir=_tmp)
    try:
        imported(case, folder, ctx)
        if case.get("then") is not None and case["kind"] != "shuffled":                        # the files are extended or exchanged and imported again
            imported({**case, "files": [a[:case["then"]] + a[::-1] if case["then"] else [r[::-1] for r in a] for a in case["files"]]}, folder, ctx); ctx.count("imported again")
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def imported(case, folder, ctx):
    if True:
        for name, rows in zip(case["names"], case["files"]):
            with open(os.path.join(folder, name + ".csv"), "w") as f:
                order = [COLS[j] for j in case["cols"]]
                f.write(("" if case["dates"] == "none" else "Date,") + ",".join(order) + (",Adj Close,Volume\n" if case["extra"] else "\n"))
                for k, r in enumerate(rows): f.write({"none": "", "same": "2020-01-01,", "falling": f"{2999 - k}-01-02,"}.get(case["dates"], f"2020-01-{k},") + ",".join(repr(float(r[COLS.index(c)])) for c in order) + (",1.5,100\n" if case["extra"] else "\n"))
        if case["extra"] and not os.path.exists(os.path.join(folder, "subdir.csv")): os.mkdir(os.path.join(folder, "subdir.csv"))
        _mod.STOCKS = folder
        if case["kind"] == "shuffled" and hasattr(_mod, "keep_all_prices"): _mod.keep_all_prices.clear()
        random.seed(case["sub"])
        kind = case["kind"]; by = dict(zip(case["names"], case["files"]))
        if len(by) > 1: ctx.count("several files")
        if kind == "recipe": got, names = _mod.getStocksPrices(case["recipe"])
        elif kind == "tree": got, names = _mod.getStocksTreePrices([0, None], list(case["counts"]), list(case["weights"]))
        else: got, names = _mod.getStocksPricesShuffled()
        first = [list(a) for a in got] if kind == "shuffled" else None
        if sorted(names) != sorted(by) or len(got) != len(names): raise core.Violation("STOCKS", f"stocks {names} for files {sorted(by)}")
        for name, g in zip(names, got):
            rows = by[name]; every = [F(x) * 1000 for r in rows for x in r]
            if kind == "recipe":
                ctx.count("recipe prices")
                exp = expected(rows, case["recipe"])
                if case["recipe"] not in [(1, 1), (2, 1), (1, 2), (2, 1, 1)] and not (len(case["recipe"]) == 3 and len(set(case["recipe"])) == 1): ctx.count("general recipe")
                if len(g) != len(exp): raise core.Violation("CATEGORIES", f"{len(g)} categories for recipe {case['recipe']}")
                for k, (a, b) in enumerate(zip(g, exp)):
                    a = sorted(map(sut.exact, a)); b = sorted(x * 1000 for x in b)
                    slack = 2 if case["dec"] else 0
                    if len(a) != len(b) or any(abs(x - y) > slack for x, y in zip(a, b)):
                        raise core.Violation("PRICES", f"{name}, recipe {case['recipe']}, category {k}: {core.show(a)[:12]} ({len(a)}), the file has {core.show(b)[:12]} ({len(b)})")
            elif kind == "tree":
                ctx.count("tree prices")
                n = len(case["counts"])
                if len(g) != n: raise core.Violation("CATEGORIES", f"{len(g)} categories for counts {case['counts']}")
                tot = sum(case["counts"]); left = collections.Counter(every); allp = []
                for k in range(n):
                    want = {int(len(every) / tot * case["counts"][k]), int(len(every) * F(case["counts"][k]) / F(tot))}
                    if len(g[k]) not in want: raise core.Violation("SIZES", f"category {k} has {len(g[k])} traders, {len(every)} prices and counts {case['counts']} give {want}")
                    for v in g[k]:
                        p = sut.exact(v) / F(case["weights"][k]) * (1 if k == 0 else -1)
                        allp.append(p); left[p] -= 1
                        if left[p] < 0 and not case["dec"]: raise core.Violation("PRICES", f"category {k} has a value {v}: no unused price {float(p)} is left in the file")
                if case["dec"]:                           # whole thousandths of different prices, off by less than two
                    ctx.count("tree prices with decimals"); pool = sorted(every); j = 0
                    for p in sorted(allp):
                        while j < len(pool) and pool[j] < p - 2: j += 1
                        if j == len(pool) or pool[j] > p + 2: raise core.Violation("PRICES", f"a value of {float(p)} thousandths: no unused price that is near it is left in the file")
                        if p != int(p): raise core.Violation("PRICES", f"a value of {float(p)} thousandths, which is no whole number")
                        j += 1
            else:
                ctx.count("shuffled prices")
                if len(g) != len(every) or any(abs(a - b) > (2 if case["dec"] else 0) for a, b in zip(sorted(map(sut.exact, g)), sorted(every))): raise core.Violation("PRICES", f"{name}: the shuffled prices are not those of the file")
        if kind == "shuffled":
            again, names2 = _mod.getStocksPricesShuffled()
            if names2 == names and [list(a) for a in again] != first: raise core.Violation("REPEAT", "the shuffled prices come in another order the second time")
            for nm, a in zip(names2, again):
                if sorted(map(sut.exact, a)) != sorted(map(sut.exact, dict(zip(names, first))[nm])): raise core.Violation("PRICES", f"{nm}: the prices differ the second time")
        ctx.sig(kind, case.get("recipe"), tuple(map(len, case["files"])), tuple(case.get("counts") or ()), tuple(case.get("weights") or ()))


def smaller(case):
    import copy
    if len(case["files"]) > 1:
        for j in range(len(case["files"])):
            c = copy.deepcopy(case); del c["files"][j]; del c["names"][j]; yield c
    for j, rows in enumerate(case["files"]):
        if len(rows) > 1:
            c = copy.deepcopy(case); c["files"][j] = rows[:len(rows) // 2]; yield c
