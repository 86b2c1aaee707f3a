"""Small independent reference models (exact arithmetic)."""
import math
import numpy as np
from fractions import Fraction as F

BIG = 10**8


def optimum(vals, recipe, include_zero=True):
    """Best trade of a single-recipe market: (k, GFT, deal sums in decreasing order)."""
    srt = [sorted((F(v) for v in vs), reverse=True) for vs in vals]
    sums = []; j = 0
    while all((j + 1) * r <= len(s) for s, r in zip(srt, recipe)):
        sums.append(sum(sum(s[j * r:(j + 1) * r]) for s, r in zip(srt, recipe))); j += 1
    good = []
    for x in sums:
        if x < 0 or (x == 0 and not include_zero): break
        good.append(x)
    return len(good), sum(good, F(0)), good


def brute_optimum(vals, recipe):
    """Best total gain over every number of deals, by exhaustive choice of subsets (tiny markets only)."""
    import itertools
    best = F(0); best_k = 0
    kmax = min([len(v) // r for v, r in zip(vals, recipe) if r > 0])
    for k in range(1, kmax + 1):
        tot = F(0)
        for v, r in zip(vals, recipe):
            if r: tot += max(sum(c) for c in itertools.combinations(v, k * r))
        if tot >= best: best, best_k = tot, k
    return best_k, best


def ascending(vals, recipe):
    """Multi-clock ascending auction with one recipe. Returns (deals, prices or None, remaining values)."""
    cats = [sorted((F(v) for v in vs), reverse=True) for vs in vals]
    n = len(cats); idx = [i for i in range(n) if recipe[i] > 0]
    p = [F(-BIG)] * n
    while True:
        best = max(F(len(cats[i]), recipe[i]) for i in idx)
        m = next(i for i in idx if F(len(cats[i]), recipe[i]) == best)
        if not cats[m]: break
        rest = sum(p[i] * recipe[i] for i in range(n) if i != m)
        low = cats[m][-1]
        if rest + recipe[m] * low >= 0:
            p[m] = -rest / recipe[m]; break
        p[m] = low; cats[m].pop()
    d = min(len(cats[i]) // recipe[i] for i in idx)
    return d, (p if d else None), cats


def trade_reduction(vals, recipe, gft0=True):
    """External-competition (trade reduction) auction. Returns (deals, prices or None, traders)."""
    cats = [sorted((F(v) for v in vs), reverse=True) for vs in vals]
    n = len(cats)
    def top():
        if any(len(cats[i]) < recipe[i] for i in range(n)): return None
        return [cats[i][:recipe[i]] for i in range(n)]
    def pop():
        for i in range(n): del cats[i][:recipe[i]]
    sets = []
    while True:
        t = top()
        if t is None or sum(map(sum, t)) < 0: break
        sets.append(t); pop()
    traders = [[] for _ in range(n)]
    if not sets: return 0, None, traders
    sets.sort(key=lambda t: sum(map(sum, t)))
    t = top()
    if t is not None: sets.insert(0, t); pop()
    for c in cats:
        if not c: c.append(F(-BIG))
    found = None
    for t in sets:
        for i in range(n):
            for v in reversed(t[i]):
                if found is None:
                    others = sum(cats[j][0] * recipe[j] for j in range(n) if j != i)
                    g = others + v * recipe[i]
                    if g > 0 or (gft0 and g == 0):
                        found = [cats[j][0] for j in range(n)]
                        found[i] = -others / recipe[i]
                        traders[i].append(v)
                    else:
                        cats[i].append(v); cats[i].sort(reverse=True)
                else: traders[i].append(v)
    traders = [sorted(x, reverse=True) for x in traders]
    d = min(len(traders[i]) // recipe[i] for i in range(n) if recipe[i] > 0)
    return d, (found if d else None), traders


def mcafee(vals, heuristic=True):
    """McAfee's double auction; category with the positive values are the buyers. Returns (deals, prices or None, traders)."""
    cats = [sorted((F(v) for v in vs), reverse=True) for vs in vals]
    k, _, _ = optimum(vals, [1] * len(vals))
    if k == 0: return 0, None, [[] for _ in vals]
    last = [c[k - 1] for c in cats]
    nxt = [c[k] if len(c) > k else F(-BIG) for c in cats]
    cand = sum(map(abs, nxt)) / len(nxt)
    def good(v): return cand <= v if v > 0 else (-cand <= v if v < 0 else cand <= 0)
    if heuristic and all(good(v) for v in last):
        pr = [-cand if v < 0 else cand for v in last]
        return k, pr, [c[:k] for c in cats]
    return k - 1, (last if k > 1 else None), [c[:k - 1] for c in cats]


class TreeModel:
    """Recipe tree over exact values."""
    def __init__(self, struct, vals, counts):
        self.i = struct[0]; self.cnt = counts[self.i]
        self.v = sorted((F(x) for x in vals[self.i]), reverse=True)
        kids = struct[1]
        self.kids = [] if kids is None else [TreeModel([kids[j], kids[j + 1]], vals, counts) for j in range(0, len(kids), 2)]

    def best(self):
        """best()[q] = largest total value of q deals inside this subtree (max-plus dynamic programme,
        no greedy or concavity argument); stops at the largest feasible q."""
        d = math.lcm(*(x.denominator for n in self.nodes() for x in n.v), 1)   # whole numbers from here on
        top = sum(abs(x) for n in self.nodes() for x in n.v) * d
        return [F(int(x), d) for x in self._best(d, np.int64 if top < 1 << 61 else object)]

    def _best(self, d, typ):
        own = [0]; c = self.cnt; v = [int(x * d) for x in self.v]
        while len(own) * c <= len(v): own.append(own[-1] + sum(v[(len(own) - 1) * c:len(own) * c]))
        own = np.array(own, dtype=typ)
        if not self.kids: return own
        acc = np.zeros(1, dtype=typ)
        for k in self.kids:
            b = k._best(d, typ)
            if len(b) > len(acc): acc, b = b, acc
            new = np.full(len(acc) + len(b) - 1, -1 << (62 if typ is not object else 400), dtype=typ)
            for y in range(len(b)):
                seg = new[y:y + len(acc)]; np.maximum(seg, acc + b[y], out=seg)
            acc = new
        m = min(len(own), len(acc))
        return own[:m] + acc[:m]

    def optimum(self):
        f = self.best()
        g = max(f); k = max(q for q in range(len(f)) if f[q] == g)
        return k, g

    def deals(self):
        own = len(self.v) // self.cnt
        return own if not self.kids else min(own, sum(k.deals() for k in self.kids))

    def chances(self, frac=F(1), out=None):
        """Probability that a remaining trader of each category trades, when every level draws its deals at random."""
        out = {} if out is None else out
        q = self.deals()
        out[self.i] = frac * F(q * self.cnt, len(self.v)) if self.v else F(0)
        m = sum(k.deals() for k in self.kids)
        for k in self.kids: k.chances(frac * F(q, m) if m else F(0), out)
        return out

    def ranked(self):
        """(total value, leaf category) of the best deals of this subtree, best first."""
        own = [sum(self.v[j * self.cnt:(j + 1) * self.cnt]) for j in range(len(self.v) // self.cnt)]
        if not self.kids: return [(x, self.i) for x in own]
        kid = sorted((d for k in self.kids for d in k.ranked()), key=lambda d: -d[0])
        return [(a + d[0], d[1]) for a, d in zip(own, kid)]

    def per_leaf(self):
        """Number of deals of the optimal trade per leaf, i.e. per recipe (unambiguous when all values differ)."""
        out = {}
        for x, leaf in self.ranked():
            if x >= 0: out[leaf] = out.get(leaf, 0) + 1
        return out

    def size(self): return len(self.v)

    def nodes(self):
        yield self
        for k in self.kids: yield from k.nodes()

    def largest(self):
        """The categories whose prices rise: a category is chosen when it has more traders (per deal) than its
        immediate children together can serve, otherwise the choice is made inside each child."""
        kid = sum(-(-k.size() // k.cnt) for k in self.kids)
        if kid == 0 or F(self.size(), self.cnt) > kid: return [self.i]
        return [x for k in self.kids for x in k.largest()]


class KnifeEdge(Exception):
    """The reference met a decision that doubles could take either way."""


def tree_auction(struct, vals, counts, recipes, init, eps=None):
    """Simultaneous-clock ascending auction on a recipe tree, in exact arithmetic, from the given initial prices.
    With eps, decisions closer than eps raise KnifeEdge."""
    root = TreeModel(struct, vals, counts)
    nodes = {x.i: x for x in root.nodes()}
    p = [F(x) for x in init]
    bound = lambda: sum(a * b for a, b in zip(p, recipes[0]))
    def close(a, b):
        if eps is not None and abs(a - b) < eps: raise KnifeEdge()
    steps = 0
    while True:
        steps += 1
        if steps > 100000: raise RuntimeError("reference did not stop")
        up = root.largest()
        if root.size() == 0: break
        inc = -bound()
        stop = True
        for i in up:
            x = nodes[i]
            if x.v:
                d = (x.v[-1] - p[i]) * x.cnt
                if stop: close(d, inc)
                if d < inc: inc = d; stop = False
        if eps is not None and sum(1 for i in up if nodes[i].v and abs((nodes[i].v[-1] - p[i]) * nodes[i].cnt - inc) < eps) > (0 if stop else 1): raise KnifeEdge()
        for i in up: p[i] += inc / nodes[i].cnt
        if stop: break
        for i in range(len(vals)):
            x = nodes.get(i)
            if x is not None and x.v:
                if not (i in up and (x.v[-1] - (p[i] - inc / x.cnt)) * x.cnt == inc): close(x.v[-1], p[i])
                if x.v[-1] <= p[i]: x.v.pop()
    d = root.deals()
    return d, (p if d else None), {i: list(x.v) for i, x in nodes.items()}
