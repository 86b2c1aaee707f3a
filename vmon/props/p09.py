"""A single ascending price clock: histories against an exact model."""
import logging
from fractions import Fraction as F
from .. import core, gen as G, sut

ID = "P09"
CASES = {"quick": 180000, "thorough": 3000000}
FILES = ["prices.py", "prices_integer.py"]
RULE = "a case is a history of increases and queries; non-trivial when it contains an increase that reaches its target and one that is stopped at the bound"
ASSUMPTIONS = ["Increases raise the price (the clock only ascends) and start from a price sum at or below the bound, as in the auctions."]
REQUIRED = {"reached target": 1000, "stopped at bound": 1000, "stopped exactly on target": 100, "increase after a stop": 100, "goes on after a stop": 100, "set back": 300, "with agent counts": 200, "observer category": 100, "a hair from the bound": 300}


def gen(rng, i, tier):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
    r = [rng.choice([0, 1, 1, 1, 2, 3, 4]) for _ in range(n)]
    if not any(r): r[0] = 1
    impl = rng.choice(["plain", "plain", "integer"])
    counts = [rng.choice([1, 1, 2, 3] if rng.random() < .9 else [4, 5, 6, 7, 9, 10, 12]) for _ in range(n)] if impl == "integer" and rng.random() < .6 else None
    S = rng.choice([10, 100, 1000, 10**8])
    init = [F(-rng.randint(1, S)) for _ in range(n)] if rng.random() < .5 else F(-S)
    bound = rng.choice([F(0)] * 6 + [F(rng.randint(-S, S))])
    ops = []
    for _ in range(rng.randint(1, 25)):
        c = rng.randrange(n); m = rng.random()
        # a target is a rise, relative to the current price; the history is resolved when it is run
        if m < .55: ops.append(["up", c, F(rng.randint(0, 4 * S), rng.choice([1, 1, 2, 4]))])
        elif m < .7: ops.append(["half", c, F(rng.randint(1, 64), 64)])       # a share of the way to the bound
        elif m < .76: ops.append(["exact", c])                                 # exactly to the bound
        elif m < .82: ops.append(["near", c, F(rng.choice([1, -1]), 1 << rng.choice([10, 20, 24, 30, 40, 60]))])   # a hair short of the bound, or beyond it
        elif m < .86: ops.append(["bound", c, F(rng.randint(0, S), rng.choice([1, 2]))])      # the bound is moved up for the rest of the history
        elif m < .9: ops.append(["set", c, F(rng.randint(0, S), rng.choice([1, 2]))])         # a price is set back by hand
        else: ops.append(["ask", c, F(rng.randint(-S, S))])
    return {"impl": impl, "recipe": r, "counts": counts, "init": init, "bound": bound, "ops": ops, "typ": rng.choice(["frac", "frac", "int", "float"]),
            "log": rng.random() < .03, "rtype": "tuple" if rng.random() < .2 else "list"}


def judge(case, ctx):
    r = case["recipe"]; n = len(r); typ = case["typ"]; bound = case["bound"]
    w = [x * (c or 1) for x, c in zip(r, case["counts"] or [1] * n)]
    init = case["init"] if isinstance(case["init"], list) else [case["init"]] * n
    # start at or below the bound
    model = list(init)
    s = sum(a * b for a, b in zip(model, w))
    if s > bound:
        j = next(i for i in range(n) if w[i]); d = -(-(s - bound) // w[j]); init = list(init); init[j] -= d; model = list(init); case = {**case, "init": init}
    exactly = typ == "frac"
    def cv(x): return sut.conv(x, "frac") if typ == "frac" else (int(x) if typ == "int" and x == int(x) else float(x))
    def ok(a, b):
        a = sut.exact(a)
        if exactly: return a == b
        return abs(a - b) <= (1 + max([abs(b)] + [abs(m) for m in model])) * sum(w) * 4 * F(1, 10**12)
    mod = sut.prices if case["impl"] == "plain" else sut.prices_integer
    start = [cv(x) for x in init] if isinstance(case["init"], list) else cv(case["init"])
    rr = tuple(r) if case["rtype"] == "tuple" else list(r)
    pv = mod.AscendingPriceVector(rr, start) if not case["counts"] else mod.AscendingPriceVector(rr, start, list(case["counts"]))
    if case["counts"]: ctx.count("with agent counts")
    if case["log"]: mod.logger.setLevel(logging.INFO)
    status = None; hit = stop = False
    try:
        for step, op in enumerate(case["ops"]):
            kind, c = op[0], op[1]
            s = sum(a * b for a, b in zip(model, w))
            room = (bound - s) / w[c] if w[c] else None
            if kind == "bound": bound += op[2]; continue
            if kind == "set":
                model[c] -= op[2]; model[c] = sut.exact(cv(model[c])); pv[c] = cv(model[c]); ctx.count("set back")
            elif kind == "ask":
                x = op[2]
                a = pv.price_sum_after_increase(c, cv(x))
                if not ok(a, s - w[c] * model[c] + w[c] * x): raise core.Violation("QUERY", f"step {step}: sum after a hypothetical increase is {a}")
                if not ok(pv.price_sum_without_category(c), s - w[c] * model[c]): raise core.Violation("QUERY", f"step {step}: sum without category {c} is {pv.price_sum_without_category(c)}, model {float(s - w[c] * model[c])}")
            else:
                if kind == "up": target = model[c] + op[2]
                elif room is None: continue
                elif kind == "half": target = model[c] + room * op[2]
                elif kind == "near":
                    if not exactly: continue
                    target = model[c] + room + op[2]
                else: target = model[c] + room
                target = sut.exact(cv(target))
                if w[c] == 0 and s >= bound - (0 if exactly else F(1, 10**6)): continue        # an observer after the auction is over (rounding may decide)
                if not exactly and room is not None and abs(target - model[c] - room) < 1e-6: continue   # rounding would decide
                if not exactly and room is not None and kind == "exact": continue
                if target < model[c]: continue
                kw = {} if bound == 0 and step % 2 else {"sum_upper_bound": cv(bound)}
                res = pv.increase_price_up_to_balance(c, cv(target), "cat%d" % c, **kw)
                new = s + w[c] * (target - model[c])
                if stop:
                    ctx.count("increase after a stop")
                    if room: ctx.count("goes on after a stop")
                if kind == "near": ctx.count("a hair from the bound")
                if w[c] == 0: ctx.count("observer category")
                if w[c] and new >= bound:
                    if new == bound: ctx.count("stopped exactly on target")
                    model[c] += room; status = "STOPPED_AT_ZERO_SUM"; stop = True; ctx.count("stopped at bound")
                else:
                    model[c] = target; status = "STOPPED_AT_AGENT_VALUE"; hit = True; ctx.count("reached target")
                if pv.status is None or pv.status.name != status: raise core.Violation("STATUS", f"step {step}: status {pv.status}, expected {status}")
            for j in range(n):
                if not ok(pv[j], model[j]): raise core.Violation("PRICE", f"step {step} {kind}: price of category {j} is {pv[j]}, model {float(model[j])}")
            if not ok(pv.price_sum(), sum(a * b for a, b in zip(model, w))): raise core.Violation("SUM", f"step {step}: price sum {pv.price_sum()}, model {float(sum(a * b for a, b in zip(model, w)))}")
            if exactly and sut.exact(pv.price_sum()) > bound: raise core.Violation("OVERSHOOT", f"step {step}: price sum {pv.price_sum()} above the bound {bound}")
    finally:
        mod.logger.setLevel(logging.WARNING)
    if hit and stop: ctx.sig(case["impl"], tuple(r), tuple(case["counts"] or ()), typ, len(case["ops"]), [float(x) for x in model])


def smaller(case):
    import copy
    for i in range(len(case["ops"])):
        c = copy.deepcopy(case); del c["ops"][i]; yield c
