"""Simultaneous price clocks of a recipe tree."""
import copy, logging
from fractions import Fraction as F
from .. import core, gen as G, sut

ID = "P10"
CASES = {"quick": 90000, "thorough": 900000}
FILES = ["prices.py", "prices_integer.py"]
RULE = "a case is a history of simultaneous increases over the cuts of a random recipe tree; non-trivial when it has at least one increase that reaches a target; distinct by tree, counts, history"
ASSUMPTIONS = ["Prices are doubles that may start at minus one hundred million: equality of price sums is up to a relative 1e-9 of the largest price.",
               "The integer implementation deliberately does not reject increases that skip a recipe, so rejection is required of the binary one only."]
REQUIRED = {"reached target": 1000, "stopped at bound": 500, "rejected": 300, "starts judged": 2000, "unequal recipes": 500, "infeasible recipes refused": 20, "already at the target": 100, "goes on after a stop": 300, "targets a hair apart": 300, "target exactly at the bound": 200}


def odd(rng):
    """Now and then a start that is no round number."""
    return F(rng.randint(1, 1 << 16), 1 << 10) if rng.random() < .3 else F(0)


def gen(rng, i, tier):
    impl = rng.choice(["plain", "integer"])
    if rng.random() < .15:
        n = rng.randint(1, 5)
        rs = [[rng.choice([0, 1, 1] if impl == "plain" else [0, 1, 2, 3]) for _ in range(n)] for _ in range(rng.randint(1, 4))]
        for r in rs:
            if not any(r): r[rng.randrange(n)] = 1
        return {"impl": impl, "free": rs, "start": F(-rng.choice([1, 7, 100, 10**4, 10**8])) - odd(rng)}
    n = rng.choice([1, 2, 3, 3, 4, 4, 5, 6, 7, 8]) if rng.random() < .93 else rng.randint(9, 14)
    st = G.tree(rng, n, n + (rng.random() < .2))
    tot = n + 1 if max(x for p in sut.paths_of(st) for x in p) >= n else n
    cnt = [rng.choice([1, 1, 1, 2, 3, 4]) for _ in range(tot)] if impl == "integer" and rng.random() < .7 else [1] * tot
    if impl == "integer" and rng.random() < .1: cnt = [x if rng.random() < .5 else rng.randint(1, 12) for x in cnt]
    S = rng.choice([10, 100, 1000, 10**8])
    ops = []
    for _ in range(rng.randint(1, 20)):
        m = rng.random()
        if m < .8: ops.append(["cut", rng.random() ** 2, rng.randrange(1 << 30), rng.choice([1, 1, 1, 3])])
        else: ops.append(["bad", rng.randrange(1 << 30)])
    return {"impl": impl, "struct": st, "counts": cnt, "n": tot, "start": F(-S) - odd(rng), "bound": rng.choice([F(0)] * 5 + [F(rng.randint(-S, S // 10))]), "ops": ops,
            "log": rng.random() < .03}


def cut(rng, st, p):
    """A random set of categories with exactly one on every path."""
    node, kids = st
    if kids is None or rng.random() < p: return [node]
    return [x for i in range(0, len(kids), 2) for x in cut(rng, [kids[i], kids[i + 1]], p)]


def recipes(case): return case["free"] if "free" in case else [[case["counts"][i] if i in p else 0 for i in range(case["n"])] for p in sut.paths_of(case["struct"])]


def judge_start(p, rs, start, ctx):
    ctx.count("starts judged")
    p = [sut.exact(x) for x in p]
    if len(p) != len(rs[0]): raise core.Violation("START", f"{len(p)} initial prices for {len(rs[0])} categories")
    big = max([abs(x) for x in p] + [F(1)])
    sums = [sum(a * b for a, b in zip(p, r)) for r in rs]
    if max(sums) - min(sums) > big / 10**9: raise core.Violation("START-SUMS", f"initial prices {core.show(p)} give the recipes {rs} different sums {core.show(sums)}")
    if any(x > start + big / 10**9 for x in p): raise core.Violation("START-CAP", f"initial prices {core.show(p)} exceed the cap {float(start)}")
    if len(set(map(sum, rs))) > 1: ctx.count("unequal recipes")
    return p, sums


def judge(case, ctx):
    import random
    mod = sut.prices if case["impl"] == "plain" else sut.prices_integer
    rs = recipes(case); start = case["start"]
    if "free" in case:
        try: p = mod.calculate_initial_prices([list(r) for r in rs], float(start))
        except ValueError: ctx.count("infeasible recipes refused"); return
        judge_start(p, rs, start, ctx); return
    pv = mod.SimultaneousAscendingPriceVectors([list(r) for r in rs], float(start))
    p, sums = judge_start(pv.map_category_index_to_price(), rs, start, ctx)
    if pv.status is not None: raise core.Violation("STATUS", f"status {pv.status} before any increase")
    if case["log"]: mod.logger.setLevel(logging.INFO)
    cnt = case["counts"]; bound = case["bound"]
    if sums[0] > bound: bound = F(0)
    hits = 0; trace = []
    try:
        for step, op in enumerate(case["ops"]):
            rng = random.Random(op[-1] if op[0] == "bad" else op[2])
            p = [sut.exact(x) for x in pv.map_category_index_to_price()]
            big = max([abs(x) for x in p] + [F(1)]) * sum(map(max, rs))
            eps = big / 10**12
            if op[0] == "bad":
                if case["impl"] != "plain": continue
                inc = []
                for _ in range(rng.randint(0, 3)): inc.append((rng.randrange(case["n"]), float(p[0]) + 5.0, "x"))
                per = [sum(r[c] > 0 for c, _, _ in inc) for r in rs]
                if all(x == 1 for x in per): continue
                st0 = pv.status
                try: pv.increase_prices(inc)
                except ValueError: ctx.count("rejected")
                else: raise core.Violation("ACCEPTED", f"step {step}: increases {inc} hit the recipes {per} times and were accepted")
                if [sut.exact(x) for x in pv.map_category_index_to_price()] != p or pv.status is not st0: raise core.Violation("STATE-AFTER-REJECT", f"step {step}: a rejected increase changed the prices")
                continue
            ids = cut(rng, case["struct"], op[1]); rng.shuffle(ids)
            s = sum(a * b for a, b in zip(p, rs[0]))
            if s >= bound - eps:
                if rng.random() < .4: break
                bound = F(round(s + eps)) + rng.randint(1, 1000); ctx.count("goes on after a stop")    # the bound is moved up
            room = bound - s
            targets = []
            hair = rng.random() < .15; base = rng.random()
            for c in ids:
                share = F(base) + F(rng.randint(0, 1 << 20), 1 << rng.choice([34, 40, 44])) if hair else F(rng.randint(1, 1 << 20), 1 << 20) * op[3]
                tgt = float("inf") if rng.random() < .05 and len(ids) > 1 else float(p[c] + room * share / cnt[c])
                if rng.random() < .04: tgt = float(p[c])          # already there: the next of several equal traders
                targets.append(tgt)
            d = [((sut.exact(t) - p[c]) * cnt[c] if t != float("inf") else None) for t, c in zip(targets, ids)]
            fin = [x for x in d if x is not None]
            m = min(fin + [room])
            if hair and len(fin) > 1 and m < room: ctx.count("targets a hair apart")
            tie = False
            if rng.random() < .2 and all(x.denominator <= 1 << 24 and abs(x) < 1 << 16 for x in [*p, bound, *(p[c] + room / cnt[c] for c in ids)]):
                j = rng.randrange(len(ids)); targets[j] = float(p[ids[j]] + room / cnt[ids[j]])      # no rounding anywhere: this target brings the sum exactly to the bound
                fin = [(sut.exact(t) - p[c]) * cnt[c] for t, c in zip(targets, ids) if t != float("inf")]; tie = min(fin) == room; m = min(fin)
            if fin and not tie and abs(min(fin) - room) <= 4 * eps: continue      # rounding would decide
            if tie: ctx.count("target exactly at the bound")
            kw = {} if bound == 0 and step % 2 else {"sum_upper_bound": float(bound)}
            if m == 0: ctx.count("already at the target")
            pv.increase_prices([(c, t, f"c{c}") for c, t in zip(ids, targets)], **kw)
            q = [sut.exact(x) for x in pv.map_category_index_to_price()]
            want = "STOPPED_AT_ZERO_SUM" if not fin or room <= min(fin) else "STOPPED_AT_AGENT_VALUE"
            if pv.status is None or pv.status.name != want: raise core.Violation("STATUS", f"step {step}: status {pv.status}, expected {want}")
            for c in range(case["n"]):
                exp = p[c] + (m / cnt[c] if c in ids else 0)
                if abs(q[c] - exp) > eps: raise core.Violation("PRICE", f"step {step}: price of category {c} went from {float(p[c])} to {float(q[c])}, expected {float(exp)} (targets {targets} of {ids})")
                if q[c] < p[c] - eps: raise core.Violation("DESCENT", f"step {step}: price of category {c} fell")
            ss = [sum(a * b for a, b in zip(q, r)) for r in rs]
            if max(ss) - min(ss) > big / 10**9: raise core.Violation("UNEQUAL-SUMS", f"step {step}: price sums of the recipes are {core.show(ss)}")
            if max(ss) > bound + big / 10**9: raise core.Violation("OVERSHOOT", f"step {step}: price sums {core.show(ss)} above the bound {float(bound)}")
            if abs(sut.exact(pv.price_sum()) - ss[0]) > eps: raise core.Violation("SUM", f"step {step}: price_sum() says {pv.price_sum()}, prices add up to {float(ss[0])}")
            ctx.count("stopped at bound" if want == "STOPPED_AT_ZERO_SUM" else "reached target"); hits += 1
            trace.append(tuple(sorted(ids)))
    finally:
        mod.logger.setLevel(logging.WARNING)
    if hits: ctx.sig(case["impl"], repr(case["struct"]), tuple(cnt), tuple(trace), [float(x) for x in pv.map_category_index_to_price()])


def smaller(case):
    for i in range(len(case.get("ops", []))):
        c = copy.deepcopy(case); del c["ops"][i]; yield c
    if case.get("log"):
        c = copy.deepcopy(case); c["log"] = False; yield c
