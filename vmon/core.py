"""Harness: drives workloads through the real code in parallel workers, lets a monitor judge every
execution, shrinks and stores a counterexample, and writes the evidence file.

Exit codes: 0 held on everything explored, 1 VIOLATION printed, 3 inconclusive, 4 error of the harness.
"""
import collections, hashlib, json, multiprocessing, os, random, resource, signal, sys, time, traceback, types
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True


# ---------------------------------------------------------------- output of the code under test
class Sink:
    """Swallows whatever the code under test prints or logs."""
    def __init__(self): self.n = 0
    def write(self, s):
        self.n += len(s); return len(s)
    def flush(self): pass
    def isatty(self): return False


REAL_STDOUT = sys.stdout
SINK = Sink()


def say(*a):
    print(*a, file=REAL_STDOUT, flush=True)


# ---------------------------------------------------------------- line coverage (what the monitors saw)
class LineCoverage:
    TOOL = 3
    def __init__(self): self.lines = collections.defaultdict(set)
    def start(self):
        m = sys.monitoring
        try: m.use_tool_id(self.TOOL, "vmon-cov")
        except ValueError: return
        prefix = REPO + os.sep
        def on_line(code, line):
            f = code.co_filename
            if f.startswith(prefix): self.lines[f[len(prefix):]].add(line)
            return m.DISABLE
        m.register_callback(self.TOOL, m.events.LINE, on_line)
        m.set_events(self.TOOL, m.events.LINE)


def executable_lines(path):
    """Line numbers that hold code inside functions of a source file."""
    src = open(path, encoding="utf-8").read()
    out = set()
    def walk(co, inside):
        if inside:
            out.update(l for (_, _, l) in co.co_lines() if l)
            out.discard(co.co_firstlineno)
        for c in co.co_consts:
            if isinstance(c, types.CodeType): walk(c, True)
    walk(compile(src, path, "exec"), False)
    return out


# ---------------------------------------------------------------- exceptions that steer the harness
class CaseTimeout(BaseException): pass
class StepLimit(BaseException): pass


class StepCounter:
    """Logical step counter: counts executed lines of the code under test, and stops it beyond a bound.
    (A function call or loop iteration in the code under test executes at least one line.)"""
    TOOL = 4
    def __init__(self): self.count = 0; self.limit = 0
    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, "vmon-steps")
        prefix = REPO + os.sep
        me = self
        def on_line(code, line):
            if not code.co_filename.startswith(prefix): return m.DISABLE
            me.count += 1
            if me.count > me.limit: raise StepLimit(me.count)
        def on_jump(code, src, dst): return on_line(code, None)         # a loop within one line executes no new line
        m.register_callback(self.TOOL, m.events.LINE, on_line)
        m.register_callback(self.TOOL, m.events.JUMP, on_jump)
        m.set_events(self.TOOL, m.events.LINE | m.events.JUMP)
        m.restart_events()
        return self
    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.register_callback(self.TOOL, m.events.LINE, None); m.register_callback(self.TOOL, m.events.JUMP, None)
        m.free_tool_id(self.TOOL)
        return False


class Violation(Exception):
    def __init__(self, kind, message):
        super().__init__(f"{kind}: {message}")
        self.kind, self.message = kind, message


# ---------------------------------------------------------------- case (de)serialisation
def enc(x):
    if isinstance(x, bool) or x is None or isinstance(x, (int, str)): return x
    if isinstance(x, Fraction): return {"q": f"{x.numerator}/{x.denominator}"}
    if isinstance(x, float): return {"f": x.hex()}
    if isinstance(x, dict): return {"d": [[enc(k), enc(v)] for k, v in x.items()]}
    if isinstance(x, tuple): return {"t": [enc(v) for v in x]}
    if isinstance(x, list): return [enc(v) for v in x]
    raise TypeError(type(x))


def dec(x):
    if isinstance(x, list): return [dec(v) for v in x]
    if isinstance(x, dict):
        if "q" in x: return Fraction(x["q"])
        if "f" in x: return float.fromhex(x["f"])
        if "d" in x: return {dec(k): dec(v) for k, v in x["d"]}
        if "t" in x: return tuple(dec(v) for v in x["t"])
    return x


def show(x):
    """Human-readable form for samples and messages."""
    if isinstance(x, Fraction): return int(x) if x.denominator == 1 else float(x)
    if isinstance(x, dict): return {str(k): show(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [show(v) for v in x]
    return x


class Ctx:
    """What a worker observed."""
    def __init__(self):
        self.counters = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.known = collections.Counter()
    def count(self, key, n=1): self.counters[key] += n
    def sig(self, *parts):
        """Register a non-trivial case by its signature."""
        self.sigs.add(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest())


WATCHDOG_S = 60
CONFIRM_S = 120


def judge_case(prop, case, ctx):
    """Run one case; returns None or (kind, message)."""
    def on_alarm(*_): raise CaseTimeout()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, getattr(prop, "WATCHDOG_S", WATCHDOG_S))
    try:
        try:
            prop.judge(case, ctx)
            return None
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Violation as v:
        return (v.kind, v.message)
    except CaseTimeout:
        ctx.count("watchdog fired")
        return ("WATCHDOG", "the wall-clock watchdog fired")
    except (KeyboardInterrupt, SystemExit):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        last = tb[-1] if tb else None
        inside = any(f.filename.startswith(REPO + os.sep) for f in tb)
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb[-3:]))
        if inside:
            return ("CRASH", f"unexpected {type(e).__name__}: {e} in {where}")
        return ("HARNESS", f"{type(e).__name__}: {e} in {where}\n{traceback.format_exc()}")


def confirm_hang(prop, case):
    """The watchdog is wall-clock; decide on logical steps instead."""
    limit = getattr(prop, "HANG_STEPS", 30_000_000)
    sc = StepCounter(); sc.limit = limit
    def on_alarm(*_): raise CaseTimeout()
    signal.signal(signal.SIGALRM, on_alarm); signal.setitimer(signal.ITIMER_REAL, CONFIRM_S)
    try:
        with sc: prop.judge(case, Ctx())
    except CaseTimeout:                                  # cases take a second at most
        return ("HANG", f"still running after {CONFIRM_S} seconds and {sc.count} executed lines")
    except StepLimit:
        return ("HANG", f"still running after {limit} executed lines")
    except Violation as v:
        return (v.kind, v.message)
    except Exception:
        pass
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return None


def limit_memory():
    """Unbounded growth ends in a MemoryError; all workers together stay below the memory of the sandbox."""
    n = 7 << 29
    resource.setrlimit(resource.RLIMIT_AS, (n, n))


def worker(prop, tier, seed, wid, nw, total, deadline, stop, q):
    sys.stdout = SINK
    limit_memory()
    cov = LineCoverage(); cov.start()
    ctx = Ctx()
    done = 0; bad = None
    try:
        if hasattr(prop, "worker_init"): prop.worker_init(wid)
        for i in range(wid, total, nw):
            if stop.is_set() or time.time() > deadline: break
            rng = random.Random(f"{prop.ID}|{seed}|{i}")
            case = prop.gen(rng, i, tier)
            if case is None: continue
            res = judge_case(prop, case, ctx)
            done += 1
            if res is not None and res[0] == "WATCHDOG" and ctx.counters["slow, but ends"] < 2:
                res = confirm_hang(prop, case)           # slow is not wrong: decide on executed lines
                if res is None: ctx.count("slow, but ends")
            if len(ctx.samples) < 2 and done % 7 == 1: ctx.samples.append(show(case))
            if res is not None:
                bad = (i, case, res); stop.set(); break
        q.put(("ok", wid, done, ctx.counters, ctx.sigs, ctx.samples, dict(ctx.known), {k: set(v) for k, v in cov.lines.items()}, bad))
    except BaseException as e:
        q.put(("err", wid, f"{type(e).__name__}: {e}\n{traceback.format_exc()}"))


def candidates(prop, case):
    """Smaller cases; proposing them must never get in the way of the verdict."""
    try: yield from prop.smaller(case)
    except Exception: return


def shrink(prop, case, kind, budget_s=20.0):
    """Greedy reduction: the property module proposes smaller cases."""
    if not hasattr(prop, "smaller"): return case
    t0 = time.time(); improved = True
    while improved and time.time() - t0 < budget_s:
        improved = False
        for cand in candidates(prop, case):
            if time.time() - t0 > budget_s: break
            try: r = judge_case(prop, cand, Ctx())
            except BaseException: continue
            if r is not None and r[0] == kind:
                case = cand; improved = True; break
    return case


def replay(prop, path):
    data = json.load(open(path)); limit_memory()
    case = dec(data["case"])
    sys.stdout = SINK
    try:
        if hasattr(prop, "worker_init"): prop.worker_init(0)
        res = judge_case(prop, case, Ctx())
        if res is not None and res[0] == "WATCHDOG": res = confirm_hang(prop, case)
    finally:
        sys.stdout = REAL_STDOUT
    say("case:", json.dumps(show(case)))
    if res is None:
        say("replay: the property held on this case"); return 0
    say(f"replay: {res[0]}: {res[1]}")
    say(f"VIOLATION property={prop.ID} replay={path}")
    return 1


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path): return []
    return [f for f in json.load(open(path)).get("findings", []) if f.get("property") == pid]


def run(prop, tier, seed):
    t0 = time.time()
    scale = float(os.environ.get("VMON_SCALE", "1"))     # development only: a share of the cases
    total = max(1, int(prop.CASES[tier] * scale))
    budget = getattr(prop, "BUDGET_S", {"quick": 200, "thorough": 680})[tier]
    nw = max(1, min(int(os.environ.get("VMON_WORKERS", "8")), os.cpu_count() or 1))
    known_hits = []
    # Known findings: the listed inputs are re-run; each one that still fails is announced and suppresses nothing else.
    if hasattr(prop, "known"):
        sys.stdout = SINK
        try: known_hits = prop.known(load_known(prop.ID))
        finally: sys.stdout = REAL_STDOUT
        for k in known_hits: say(f"KNOWN-FINDING: property={prop.ID} {k}")
    ctxm = multiprocessing.get_context("fork")
    q = ctxm.Queue(); stop = ctxm.Event()
    procs = [ctxm.Process(target=worker, args=(prop, tier, seed, w, nw, total, t0 + budget, stop, q), daemon=False) for w in range(nw)]
    for p in procs: p.start()
    results = []; hard = t0 + budget + getattr(prop, "WATCHDOG_S", WATCHDOG_S) + CONFIRM_S + 20
    while len(results) < nw:
        try: results.append(q.get(timeout=2))
        except Exception:
            dead = [p for p in procs if p.exitcode not in (None, 0)]
            if dead or time.time() > hard:
                for p in procs: p.kill()
                say(f"ERROR of the check: worker died or overran ({[p.exitcode for p in procs]})")
                return 4
    for p in procs: p.join()
    limit_memory()
    errs = [r for r in results if r[0] == "err"]
    if errs:
        say("ERROR of the check:", errs[0][2]); return 4
    counters = collections.Counter(); sigs = set(); samples = []; lines = collections.defaultdict(set); done = 0; bads = []
    for (_, wid, d, c, s, sm, kn, ln, bad) in results:
        done += d; sigs |= s; samples += sm
        for k, x in c.items(): counters[k] = max(counters[k], x) if k.startswith("most ") else counters[k] + x
        for f, l in ln.items(): lines[f] |= l
        if bad: bads.append(bad)
    extra_cov = {}
    code = 0; viol = 0
    # checks that run once, outside the pool
    if not bads and hasattr(prop, "once"):
        sys.stdout = SINK
        try:
            c2 = Ctx()
            r = None
            try: prop.once(tier, seed, c2)
            except Violation as v: r = (v.kind, v.message)
            counters.update(c2.counters); sigs |= c2.sigs; samples += c2.samples
            done += c2.counters.get("once cases", 0)
            if r: bads.append((-1, getattr(prop, "once_case", {"once": True}), r))
        finally:
            sys.stdout = REAL_STDOUT
    bads.sort(key=lambda b: b[0])
    if bads and hasattr(prop, "worker_init"): prop.worker_init(0)
    inconclusive = []
    for (i, case, (kind, msg)) in bads:
        if kind == "HARNESS":                            # the monitor could not make sense of an answer of the code under test
            say("the answer could not be evaluated:", msg[-1500:]); kind = "UNEXPECTED-ANSWER"; msg = msg.splitlines()[0]
        sys.stdout = SINK
        try:
            if kind == "WATCHDOG":
                r = confirm_hang(prop, case)
                if r is None:
                    inconclusive.append("a case exceeded the wall-clock watchdog"); continue
                kind, msg = r
            elif i >= 0 and kind not in ("UNEXPECTED-ANSWER", "HANG"):
                small = shrink(prop, case, kind)
                r = judge_case(prop, small, Ctx())
                if r is not None: case, (kind, msg) = small, r
        finally:
            sys.stdout = REAL_STDOUT
        body = json.dumps({"property": prop.ID, "kind": kind, "message": msg, "seed": seed, "tier": tier, "index": i,
                           "case": enc(case), "readable": show(case)}, indent=1, default=str)
        h = hashlib.sha1(body.encode()).hexdigest()[:10]
        d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop.ID}-{h}.json")
        open(path, "w").write(body)
        say(f"{kind}: {msg}")
        say("case:", json.dumps(show(case), default=str)[:2000])
        say(f"VIOLATION property={prop.ID} replay={path}")
        code = 1; viol += 1
        break
    if code == 0:
        share = min(1.0, done / prop.CASES[tier])              # a run cut short by its time budget must have seen its share
        for name, need in getattr(prop, "REQUIRED", {}).items():
            need = need if share > .95 else int(need * share * .8)
            if counters.get(name, 0) < need: inconclusive.append(f"only {counters.get(name, 0)} observations of '{name}' (need {need})")
        if done == 0 or share < .02 * min(1, scale): inconclusive.append(f"only {done} cases were run")
    covinfo = {}
    for f in prop.FILES:
        try: ex = executable_lines(os.path.join(REPO, f))
        except Exception: continue
        covinfo[f] = {"executable_lines_in_functions": len(ex), "executed": len(ex & lines.get(f, set()))}
    wall = time.time() - t0
    ev = {"property": prop.ID, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": done, "distinct_nontrivial": len(sigs), "rule": prop.RULE,
                       "samples": samples[:4], "planned_cases": total,
                       "observations": dict(sorted(counters.items())), "lines_of_anchor_files_executed": covinfo,
                       "workers": nw, "known_findings_reproduced": list(known_hits)},
          "assumptions": getattr(prop, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": viol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{prop.ID}.json"), "w"), indent=1, default=str)
    if code == 0 and inconclusive:
        say("INCONCLUSIVE:", "; ".join(inconclusive)); return 3
    if code == 0:
        say(f"OK property={prop.ID} tier={tier} seed={seed}: held on {done} executions, {len(sigs)} distinct non-trivial, {wall:.1f}s")
    return code
