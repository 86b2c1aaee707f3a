"""Randomly drawn traders: the requested number, whole values, the requested range or sign and distribution, and reproducible from the seed."""
import bisect, math, random
from .. import core, sut

ID = "P23"
CASES = {"quick": 120000, "thorough": 500000}
FILES = ["agents.py"]
RULE = "a case is one draw of a category; distinct by distribution, parameters and drawn values"
ASSUMPTIONS = ["Distribution checks use large samples and tolerances of at least six standard errors (eight for most)."]
REQUIRED = {"uniform": 2000, "normal": 2000, "gamma": 2000, "pareto": 2000, "large sample": 200, "all different": 40, "medians": 50, "ends of samples": 200}


def gen(rng, i, tier):
    kind = ["uniform", "normal", "gamma", "pareto"][i % 4]
    big = rng.random() < .03
    c = {"kind": kind, "n": rng.choice([1500, 4000, 4000, 9000]) if big else rng.choice([0, 1, 2, 3, 5, 10, 40]), "sub": rng.randrange(1 << 30), "sign": rng.choice([1, -1, 2, -3, 100, -1000, .5, -.5, -.125]), "name": rng.choice(["buyer", "", "x"])}
    if kind == "uniform":
        a, b = sorted([rng.choice([-1000, -100, -5, -1, 0, 1, 7, 100, 1000, rng.uniform(-500, 500)]) for _ in range(2)])
        c["par"] = [a, b]
    elif kind == "normal": c["par"] = [rng.choice([0, 5, 100, -40, 500.5, -3000, 10**6]), rng.choice([.5, 1, 10, 100, 2500])]
    elif kind == "gamma": c["par"] = [rng.choice([.25, .5, .8, 1, 1, 2, 3.5, 9, 40]), rng.choice([.5, 1, 10, 50, 3000])]
    else: c["par"] = [rng.choice([.5, 1, 1.16, 2.5, 2.5, 3, 5, 12])]
    if big and rng.random() < .4:                        # so wide that independent draws hardly ever coincide
        if kind == "uniform": a = rng.choice([0, -10**12, 1, 7 * 10**9]); c["par"] = [a, a + rng.choice([10**11, 10**13])]
        elif kind == "normal": c["par"] = [rng.choice([0, 10**10]), 10**10]
        elif kind == "gamma": c["par"] = [rng.choice([2, 3.5]), 10**10]
        else: c["sign"] = rng.choice([1, -1]) * 10**10
        c["wide"] = True
    return c


def draw(case):
    A = sut.agents.AgentCategory
    f = {"uniform": A.uniformly_random, "normal": A.normalvariate_random, "gamma": A.gammavariate_random, "pareto": A.paretovariate_random}[case["kind"]]
    random.seed(case["sub"])
    return f(case["name"], case["n"], *([] if case["kind"] == "uniform" else [case["sign"]]), *case["par"])


def expect(case):
    """Mean of the absolute drawn value before the sign multiple."""
    k, p = case["kind"], case["par"]
    if k == "uniform": return (p[0] + p[1]) / 2, (p[1] - p[0]) / math.sqrt(12)
    if k == "normal":
        mu, s = p
        m = s * math.sqrt(2 / math.pi) * math.exp(-mu * mu / (2 * s * s)) + mu * math.erf(mu / (s * math.sqrt(2)))
        return m, math.sqrt(max(0, mu * mu + s * s - m * m))
    if k == "gamma": return p[0] * p[1], math.sqrt(p[0]) * p[1]
    a = p[0]
    return a / (a - 1), math.sqrt(a / ((a - 1) ** 2 * (a - 2)))


def cdf(case):
    """Probability that the drawn value, before the sign multiple, is at most x."""
    from scipy.special import gammainc
    k, p = case["kind"], case["par"]
    if k == "uniform": return lambda x: min(1., max(0., (x - p[0]) / (p[1] - p[0])))
    if k == "normal":
        f = lambda z: .5 * math.erfc(-z / math.sqrt(2))
        return lambda x: 0. if x <= 0 else f((x - p[0]) / p[1]) - f((-x - p[0]) / p[1])
    if k == "gamma": return lambda x: 0. if x <= 0 else float(gammainc(p[0], x / p[1]))
    return lambda x: 0. if x <= 1 else 1 - x ** -p[0]


def shape(case, v, ctx):
    """The whole distribution: the largest gap between the sample and the requested distribution, and both ends of the sample."""
    n = len(v); f = cdf(case); s = 1 if case["kind"] == "uniform" else abs(case["sign"])
    xs = sorted(v if case["kind"] == "uniform" else [abs(x) for x in v])
    what = f"{case['kind']}{case['par']}" + ("" if case["kind"] == "uniform" else f" with sign {case['sign']}")
    eps = math.sqrt(14 / n)                              # exceeded with probability 10^-12
    if case["kind"] == "uniform": w = case["par"][1] - case["par"][0]; eps += 1 / w       # whether the end values stand for a whole or half a unit is left open
    for i in range(0, n, max(1, n // 200)):
        below = bisect.bisect_right(xs, xs[i])           # a whole value x stands for drawn values up to x + 1/2
        if abs(below / n - f((xs[i] + .5) / s)) > eps: raise core.Violation("DISTRIBUTION", f"{what}: {below} of {n} values are at most {xs[i]}, expected {n * f((xs[i] + .5) / s):.0f}")
    ends = [("above", lambda t: 1 - f(t / s), lambda t: n - bisect.bisect_right(xs, t))] + ([("below", lambda t: f(t / s), lambda t: bisect.bisect_left(xs, t))] if case["kind"] != "pareto" else [])
    for side, mass, count in ends:
        lo, hi = math.floor(xs[0]) - 1, math.ceil(xs[-1]) + 1
        want = 30 / n                                    # a threshold beyond which about thirty of the traders are expected, at least
        step = 1
        while side == "above" and mass(hi + .5) >= want: hi += step; step *= 2
        while side == "below" and mass(lo + .5) >= want: lo -= step; step *= 2
        while hi - lo > 1:
            t = (lo + hi) // 2
            if (mass(t + .5) >= want) == (side == "above"): lo = t
            else: hi = t
        t = (lo if side == "above" else hi) + .5
        e = n * mass(t)
        if not 30 <= e < n / 2 or case["kind"] == "uniform" and w < n / 4: continue                 # too few different values
        ctx.count("ends of samples")
        if abs(count(t) - e) > 8 * math.sqrt(e) + (0 if count(t) < e else 20) or count(t) == 0: raise core.Violation("DISTRIBUTION", f"{what}: {count(t)} of {n} values are {side} {t}, expected {e:.1f}")


def judge(case, ctx):
    kind, n, p, s = case["kind"], case["n"], case["par"], case["sign"]
    c = draw(case)
    v = c.values
    if c.name != case["name"] or len(v) != n or c.size() != n: raise core.Violation("SIZE", f"{len(v)} traders in {c.name!r}, {n} requested")
    if any(x != int(x) for x in v): raise core.Violation("WHOLE", f"{kind}{p} drew {[x for x in v if x != int(x)][:3]}")
    if list(v) != sorted(v, reverse=True): raise core.Violation("ORDER", f"not sorted: {v[:10]}")
    if kind == "uniform":
        if any(not (p[0] - .5 <= x <= p[1] + .5) for x in v): raise core.Violation("RANGE", f"values outside {p}: {v[:5]} ... {v[-5:]}")
    else:
        if any(x * s < 0 for x in v): raise core.Violation("SIGN", f"{kind}{p} with sign {s} drew {v[:3]} ... {v[-3:]}")
        if kind == "pareto" and any(abs(x) < abs(s) - .5 for x in v): raise core.Violation("RANGE", f"a Pareto value below {s}: {v[:3]} ... {v[-3:]}")
    if sorted(draw(case).values) != sorted(v): raise core.Violation("SEED", "the same seed draws other traders")
    ctx.count(kind)
    if n >= 1000:
        ctx.count("large sample")
        if case.get("wide"):
            ctx.count("all different")
            if len(set(v)) < n - 8: raise core.Violation("DISTRIBUTION", f"{kind}{p}: only {len(set(v))} of {n} traders differ")
        if not (kind == "uniform" and p[0] == p[1]): shape(case, v, ctx)
        if kind == "pareto":                              # the middle value, which exists for every parameter
            med = 2 ** (1 / p[0]); mid = sorted(abs(x) for x in v)[n // 2]
            if abs(mid - abs(s) * med) > 8 * abs(s) * med / (p[0] * math.sqrt(n)) + .51: raise core.Violation("DISTRIBUTION", f"pareto{p} with sign {s}: median {mid}, expected {abs(s) * med}")
            ctx.count("medians")
            if p[0] < 2.5: ctx.sig(kind, tuple(p), s, n, tuple(v[:4])); return
        m, sd = expect(case)
        k = 1 if kind == "uniform" else s
        got = sum(v) / n
        tol = 8 * abs(k) * sd / math.sqrt(n) + .51 + (abs(k) * m * .25 if kind == "pareto" else 0)
        if abs(got - k * m) > tol: raise core.Violation("DISTRIBUTION", f"{kind}{p} with sign {k}: mean {got}, expected {k * m} within {tol}")
        if kind == "uniform":
            lo, hi = round(p[0]), round(p[1]); w = p[1] - p[0]
            if w > 0 and (min(v) > p[0] + w * .02 + .5 or max(v) < p[1] - w * .02 - .5): raise core.Violation("DISTRIBUTION", f"uniform over {p} only reached [{min(v)}, {max(v)}]")
            if w >= 6 and len(set(v)) < min(6, w / 2): raise core.Violation("DISTRIBUTION", f"only {len(set(v))} different values over {p}")
        elif sd * abs(k) > 2:
            var = sum((x - got) ** 2 for x in v) / n
            if kind != "pareto" and not (.6 < math.sqrt(var) / (sd * abs(k)) < 1.6): raise core.Violation("DISTRIBUTION", f"{kind}{p}: standard deviation {math.sqrt(var)}, expected {sd * abs(k)}")
    ctx.sig(kind, tuple(p), s, n, tuple(v[:4]))


def smaller(case):
    if case["n"] > 1 and case["n"] < 1000: yield {**case, "n": case["n"] // 2}
