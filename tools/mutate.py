#!/opt/venv/bin/python
"""Development tool (no check uses it): mutation sweep over the library.

  mutate.py list                       number of mutants per file
  mutate.py run OUT.jsonl [FILES..]    every mutant that compiles and passes the stable tests is given to the checks of its
                                       file, at a share of their cases (VMON_SCALE); the survivors are what to look at
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor, as_completed
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = "/repo"
sys.path.insert(0, os.path.join(V, "tools")); import seed as S
FILES = """agents.py markets.py trade.py prices.py prices_integer.py recipetree.py recipetree_integer.py tree_calculations.py get_stocks_data.py
 mcafee_protocol.py trade_reduction_protocol.py ascending_auction_protocol.py ascending_auction_recipetree_protocol.py ascending_auction_recipetree_integer_protocol.py
 experiment.py experiment_comparing_sbb.py experiment_ascending_auction_recipetree_random.py experiment_ascending_auction_recipetree_stock.py
 experiment_ascending_auction_recipetree_integer_random.py experiment_ascending_auction_recipetree_integer_stock.py stock/experiment_stock.py
 stock/experiment_compare_iterations_autions.py stock/experiment_compare_iterations_autions_without_mcafee.py stock/experiment_compare_sbb_shufled_stock.py""".split()
CHECKS = {"agents.py": "P15 P23 P12 P14 P07 P16", "markets.py": "P07 P15 P13 P12 P14", "trade.py": "P14 P13 P07 P21 P05", "prices.py": "P09 P10 P01 P13 P18", "prices_integer.py": "P09 P10 P01 P13 P18",
          "recipetree.py": "P11 P08 P06 P18 P01 P17 P14 P13 P12", "recipetree_integer.py": "P11 P08 P06 P18 P01 P17 P14 P13 P12", "tree_calculations.py": "P22", "get_stocks_data.py": "P20",
          "mcafee_protocol.py": "P18 P03 P01 P05 P13 P12 P19 P16 P14", "trade_reduction_protocol.py": "P18 P05 P13 P03 P01 P17 P12 P19 P16 P14", "ascending_auction_protocol.py": "P18 P01 P05 P13 P12 P17 P19 P16 P14 P03",
          "ascending_auction_recipetree_protocol.py": "P18 P06 P01 P17 P12 P16 P13 P14 P03", "ascending_auction_recipetree_integer_protocol.py": "P18 P06 P01 P17 P12 P16 P13 P14 P03"}
CHECKS.update({f: "P25" for f in ("recipetree.old.py", "old/SimultaneousAscendingPriceVector.py", "old/ascending_auction_multirecipe_protocol.py", "old/ascending_auction_multibuyer_protocol.py")})
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "*"}


def mutants(path):
    """[(description, new source)] of one file, by editing the source text of single nodes."""
    src = open(path, encoding="utf-8", newline="").read(); tree = ast.parse(src)
    lines = src.splitlines(keepends=True); starts = [0]
    raw = src.encode(); blines = raw.splitlines(keepends=True)
    for l in blines: starts.append(starts[-1] + len(l))
    pos = lambda ln, col: starts[ln - 1] + col
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    seg = lambda n: raw[slice(*span(n))].decode()
    out = []
    def put(n, new, what):
        a, b = span(n)
        if raw[a:b].decode() != new: out.append((f"{n.lineno}: {what}: {seg(n)[:60]!r} -> {new[:60]!r}", (raw[:a] + new.encode() + raw[b:]).decode()))
    def skip(n):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): return True
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            t = seg(n.value.func)
            if t.startswith(("logger.", "print", "logging.", "doctest.")): return True
        if isinstance(n, ast.If) and "__main__" in seg(n.test): return True
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Assert, ast.Raise)): return True
        if isinstance(n, ast.FunctionDef) and n.name in ("__repr__",): return True
        return False
    def visit(n, infn):
        if skip(n): return
        if infn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                l, r = seg(n.left), seg(n.comparators[0])
                for o in CMP.get(type(n.ops[0]), []): put(n, f"{l} {o} {r}", "compare")
            if isinstance(n, ast.BinOp) and type(n.op) in BIN: put(n, f"({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})", "arith"); put(n, f"({seg(n.left)})", "arith-left")
            if isinstance(n, ast.BoolOp):
                o = " or " if isinstance(n.op, ast.And) else " and "
                put(n, "(" + o.join("(" + seg(v) + ")" for v in n.values) + ")", "bool")
                for v in n.values: put(n, "(" + seg(v) + ")", "bool-one")
            if isinstance(n, ast.UnaryOp): put(n, "(" + seg(n.operand) + ")", "unary")
            if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                if not isinstance(n, ast.While): put(n.test, "True", "cond")
                put(n.test, "False", "cond")
            if isinstance(n, ast.Constant):
                if n.value is True: put(n, "False", "const")
                elif n.value is False: put(n, "True", "const")
                elif isinstance(n.value, int): put(n, str(n.value + 1), "const"); put(n, f"({n.value - 1})", "const")
                elif isinstance(n.value, float): put(n, f"{n.value * 2}", "const"); put(n, f"{n.value / 2}", "const")
            if isinstance(n, ast.Call):
                f = seg(n.func)
                sw = {"min": "max", "max": "min"}
                if f in sw: put(n.func, sw[f], "call")
                if f in ("list", "abs", "int", "round", "sorted", "reversed", "tuple", "set") and len(n.args) == 1 : put(n, "(" + seg(n.args[0]) + ")", "unwrap")
                if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "clone", "tolist"): put(n, seg(n.func.value), "nocopy")
                for k in n.keywords:
                    a, b = span(k)
                    t = raw[:a].decode().rstrip()
                    if k.arg and t.endswith(","): out.append((f"{n.lineno}: drop keyword {k.arg}", t[:-1] + raw[b:].decode()))
                if f == "range" and len(n.args) == 1: put(n, f"range(1, {seg(n.args[0])})", "range"); put(n, f"range({seg(n.args[0])} - 1)", "range")
            if isinstance(n, ast.Slice) and n.lower is None and n.upper is None: pass
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
                put(n, seg(n.value), "noslice")
            if isinstance(n, (ast.AugAssign, ast.Break, ast.Continue)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call): put(n, "pass", "delete")
            if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub)): put(n, f"{seg(n.target)} {'-' if isinstance(n.op, ast.Add) else '+'}= {seg(n.value)}", "aug"); put(n, f"{seg(n.target)} = {seg(n.value)}", "aug-assign")
            if isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant): put(n, "return None", "return")
        for f, v in ast.iter_fields(n):
            if f == "keywords": v = [k.value for k in v]
            if f in ("annotation", "returns", "decorator_list"): continue
            for c in (v if isinstance(v, list) else [v]):
                if isinstance(c, ast.JoinedStr): continue
                if isinstance(c, ast.AST): visit(c, infn or isinstance(n, (ast.FunctionDef, ast.Lambda)))
    visit(tree, False)
    good = []
    for d, s in out:
        try: compile(s, path, "exec"); good.append((d, s))
        except SyntaxError: pass
    return good


def work(slot, job):
    f, d, s, checks = job
    r = slot + "/repo"; p = os.path.join(r, f); old = open(p, "rb").read()
    open(p, "wb").write(s.encode())
    try:
        bad = S.tests(slot, r, 60)
        if bad: return {"file": f, "what": d, "status": "tests", "n": len(bad)}
        env = {**os.environ, "VERIF_REPO": r, "VMON_WORKERS": "1"}
        for c in checks:
            try: q = subprocess.run(["/opt/venv/bin/python", os.path.join(slot, "verif/run.py"), c, "quick"], cwd=slot, env=env, capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired: continue
            if q.returncode == 1: return {"file": f, "what": d, "status": "caught", "by": c, "msg": q.stdout.splitlines()[0][:150]}
        return {"file": f, "what": d, "status": "SURVIVED", "line": s.splitlines()[int(d.split(":")[0]) - 1].strip()[:200]}
    finally: open(p, "wb").write(old)


def main():
    cmd = sys.argv[1]; files = sys.argv[3:] or FILES
    jobs = []
    for f in files:
        ms = mutants(os.path.join(REPO, f)); print(f, len(ms), flush=True)
        jobs += [(f, d, s, CHECKS.get(f, "P21").split()) for d, s in ms]
    if cmd == "list": return
    out = sys.argv[2]; done = set()
    if os.path.exists(out): done = {(json.loads(l)["file"], json.loads(l)["what"]) for l in open(out)}
    jobs = [j for j in jobs if (j[0], j[1]) not in done]
    n = int(os.environ.get("SLOTS", "8")); slots = []
    for k in range(n):
        d = tempfile.mkdtemp(prefix="mut-", dir="/tmp"); subprocess.run(["cp", "-a", REPO, d + "/repo"], check=True)
        os.mkdir(d + "/verif")
        for x in ("run.py", "vmon", "known_findings.json"): subprocess.run(["cp", "-a", os.path.join(V, x), d + "/verif/"], check=True)
        slots.append(d)
    import queue
    free = queue.Queue()
    for s in slots: free.put(s)
    def go(j):
        s = free.get()
        try: return work(s, j)
        except Exception as e: return {"file": j[0], "what": j[1], "status": "ERROR", "msg": repr(e)[:200]}
        finally: free.put(s)
    with ThreadPoolExecutor(n) as ex, open(out, "a") as o:
        for res in (f.result() for f in as_completed([ex.submit(go, j) for j in jobs])): o.write(json.dumps(res) + "\n"); o.flush()
    for s in slots: shutil.rmtree(s, ignore_errors=True)


if __name__ == "__main__": main()
