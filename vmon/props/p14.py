"""Trade reports: counts, gains and text agree with the traders and prices they describe."""
import copy
from fractions import Fraction as F
from .. import core, gen as G, sut, refs

ID = "P14"
CASES = {"quick": 150000, "thorough": 2000000}
FILES = ["trade.py", "ascending_auction_recipetree_protocol.py", "ascending_auction_recipetree_integer_protocol.py", "recipetree.py", "recipetree_integer.py", "markets.py"]
RULE = "a case is one report, built directly or returned by an auction; non-trivial when it has at least one deal; distinct by kind, sizes, recipe and prices"
ASSUMPTIONS = ["The recipe-tree reports define their gain as the best trade among the remaining traders, which is what is checked."]
REQUIRED = {"direct": 1000, "listed": 500, "long deal lists": 100, "tree": 500, "auction": 500, "lottery": 300, "no trade": 200, "unused category": 100}


def gen(rng, i, tier):
    k = rng.random()
    if k < .4:
        n = rng.randint(1, 6); r = [rng.choice([0, 1, 1, 1, 2, 3, 5]) for _ in range(n)]
        if not any(r): r[0] = 1
        base = rng.randint(0, 6)
        vals = [[F(rng.randint(-50, 50), rng.choice([1, 1, 2, 4])) for _ in range(max(0, base * x + rng.choice([0, 0, 0, 1, 2, 3, -1])) if x else rng.randint(0, 3))] for x in r]
        return {"kind": "direct", "vals": vals, "recipe": r, "prices": [F(rng.randint(-60, 60), rng.choice([1, 3, 4])) for _ in r], "typ": rng.choice(["frac", "float", "int" if all(v.denominator == 1 for x in vals for v in x) else "float"])}
    if k < .55:
        w = rng.randint(1, 5)
        return {"kind": "listed", "vals": [[F(rng.randint(-50, 50), rng.choice([1, 2])) for _ in range(w)] for _ in range(rng.choice([0, 1, 2, 3, 8]) if rng.random() < .95 else rng.choice([25, 60, 110, 260, 1100]))]}
    if k < .75:
        c = G.tree_case(rng, tier, log=False); c["kind"] = "tree"
        return c
    c = G.single_case(rng, tier, log=False); c["kind"] = "auction"
    return c


def close(a, b, s): return abs(sut.exact(a) - b) <= s / 10**9


def judge_single(case, t, cats, r, prices, ctx):
    d = min(len(c) // x for c, x in zip(cats, r) if x > 0)
    if t.num_of_deals() != d: raise core.Violation("COUNT", f"{t.num_of_deals()} deals, the traders support {d}")
    scale = max([F(1)] + [abs(v) for c in cats for v in c] + [abs(p) for p in prices or []]) * (1 + sum(map(len, cats)))
    if d == 0:
        ctx.count("no trade")
        if t.gain_from_trade() != 0 or t.gain_from_trade(including_auctioneer=False) != 0: raise core.Violation("GAIN", f"no deals, but a gain of {t.gain_from_trade()}")
        if str(t) != "No trade": raise core.Violation("TEXT", f"no deals, but the report says {str(t)!r}")
        return 0
    total = sum((sum(c) * F(d * x, len(c)) for c, x in zip(cats, r) if x), F(0))
    paid = sum((p * d * x for p, x in zip(prices, r)), F(0))
    if not close(t.gain_from_trade(), total, scale): raise core.Violation("GAIN", f"gain {float(t.gain_from_trade())}, expected {float(total)}")
    if not close(t.gain_from_trade(including_auctioneer=True), total, scale): raise core.Violation("GAIN", f"gain {float(t.gain_from_trade(True))}, expected {float(total)}")
    if not close(t.gain_from_trade(including_auctioneer=False), total - paid, scale): raise core.Violation("GAIN", f"traders' gain {float(t.gain_from_trade(False))}, expected {float(total - paid)}")
    # text: one line per participating category, with the right number of traders and the right price
    want = []
    for c, x, p in zip(t.categories, r, t.prices):
        if x == 0: ctx.count("unused category"); continue
        k = len(c.values)
        if k > d * x: ctx.count("lottery")
        want.append(f"{c.name}: {c.values}: all {k} agents trade and pay {p}" if k == d * x else f"{c.name}: {c.values}: random {d * x} out of {k} agents trade and pay {p}")
    if str(t) != "\n".join(want).rstrip(): raise core.Violation("TEXT", f"report {str(t)!r}, expected {want!r}")
    return d


def judge(case, ctx):
    kind = case["kind"]; ctx.count(kind)
    if kind == "direct":
        typ = case["typ"]
        cats = [sut.agents.AgentCategory(f"c{i}", [sut.conv(v, typ) for v in vs]) for i, vs in enumerate(case["vals"])]
        pr = [sut.conv(p, "frac" if typ == "frac" else "float") for p in case["prices"]]
        t = sut.trade.TradeWithSinglePrice(cats, list(case["recipe"]), pr)
        d = judge_single(case, t, [[sut.exact(v) for v in c.values] for c in cats], case["recipe"], [sut.exact(p) for p in pr], ctx)
        if d: ctx.sig(kind, tuple(map(len, case["vals"])), tuple(case["recipe"]), [float(p) for p in case["prices"]])
    elif kind == "listed":
        ps = [tuple(v) for v in case["vals"]]
        t = sut.trade.TradeWithMaterialBalance(list(ps))
        if t.num_of_deals() != len(ps): raise core.Violation("COUNT", f"{t.num_of_deals()} deals, {len(ps)} listed")
        if sut.exact(t.gain_from_trade()) != sum((sum(p) for p in ps), F(0)): raise core.Violation("GAIN", f"gain {t.gain_from_trade()}")
        if str(t) != f"{len(ps)} deals: {ps}": raise core.Violation("TEXT", str(t))
        if ps:
            twice = [x for p in ps[:5] for x in (p, p)] + ps[:1]; t = sut.trade.TradeWithMaterialBalance(twice)
            if t.num_of_deals() != len(twice) or sut.exact(t.gain_from_trade()) != sum((sum(p) for p in twice), F(0)): raise core.Violation("GAIN", f"gain {t.gain_from_trade()} of {t.num_of_deals()} deals listed twice: {twice}")
            ctx.count("deals listed twice")
        if len(ps) > 20: ctx.count("long deal lists")
        if ps: ctx.sig(kind, [[float(v) for v in p] for p in ps])
    elif kind == "auction":
        o = sut.run(case)
        d = judge_single(case, o.trade, o.cats, case["recipe"], o.prices, ctx)
        if list(o.trade.ps_recipe) != list(case["recipe"]): raise core.Violation("RECIPE", f"the report's recipe is {o.trade.ps_recipe}")
        if d: ctx.sig(sut.describe(case, o), [float(p) for p in o.prices])
    else:
        o = sut.run(case); t = o.trade; cnt = sut.effective_counts(case)
        model = refs.TreeModel(case["struct"], o.cats, cnt)
        best = model.best(); opt = max(best)
        scale = max([F(1)] + [abs(v) for c in o.cats for v in c]) * (1 + sum(map(len, o.cats)))
        if o.deals != len(best) - 1: raise core.Violation("COUNT", f"{o.deals} deals, the traders support {len(best) - 1}")
        for g in (t.gain_from_trade(), t.gain_from_trade(including_auctioneer=False)):
            if not close(g, opt, scale): raise core.Violation("GAIN", f"gain {float(g)}, best trade among the remaining traders {float(opt)}")
        deals, count, gft = t.optimal_trade()
        if count != len(deals) or not close(gft, opt, scale): raise core.Violation("GAIN", f"listed trade of {count} deals gains {float(gft)}, best {float(opt)}")
        from . import p11
        names = case.get("names") or [f"c{i}" for i in range(len(cnt))]
        q, txt, lo, hi = p11.explained(model, names, list(t.prices), case["mech"] == "TI")
        if (t.min_num_of_deals(), t.max_num_of_deals()) != (lo, hi): raise core.Violation("COUNT", f"least/most deals per recipe {t.min_num_of_deals()}/{t.max_num_of_deals()}, expected {lo}/{hi}")
        want = "No trade" if o.deals == 0 else txt.rstrip()
        if str(t) != want: raise core.Violation("TEXT", f"report {str(t)!r}, expected {want!r}")
        if o.deals: ctx.sig(sut.describe(case, o))
        else: ctx.count("no trade")


def smaller(case): return G.smaller(case) if case["kind"] in ("tree", "auction") else []
