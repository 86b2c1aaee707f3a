#!/opt/venv/bin/python
"""Development tool (no check uses it): makes and confirms planted bugs under /verif/seeded.

  seed.py make FILE.py [ID..]   FILE defines BUGS = [dict(id, property, edits=[(file, old, new)..], demo=python text, needs, breaks)]
  seed.py run [ID..]            runs the property's quick check (or all, with ALL=1) against each planted bug, in a scratch copy
"""
import json, os, runpy, shutil, subprocess, sys, tempfile, difflib, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PRE = "import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\n"
SH = '#!/bin/bash\n# exit 0 on the unchanged tree, nonzero with the patch; run with the repository as cwd\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nexec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def copy():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    r = os.path.join(d, "repo")
    subprocess.run(["cp", "-a", REPO, r], check=True)
    return d, r


def tests(d, r, limit=400):
    t = open("/opt/vp/test.sh").read().replace("/opt/vp/reports", d + "/reports").replace("cd /repo", "cd " + r)
    if limit < 400: t = t.replace("--timeout=120", "--timeout=%d" % limit)
    b = open("/opt/vp/build.sh").read().replace("cd /repo", "cd " + r).replace("PYTHONPATH=/repo", "PYTHONPATH=" + r)
    open(d + "/t.sh", "w").write(t); open(d + "/b.sh", "w").write(b)
    if subprocess.run(["bash", d + "/b.sh"], capture_output=True).returncode: return ["BUILD"]
    try: subprocess.run(["bash", d + "/t.sh", d + "/out.json"], capture_output=True, timeout=limit)
    except subprocess.TimeoutExpired: return ["TIMEOUT"]
    passed = set(json.load(open(d + "/out.json"))["passed"])
    return [s for s in json.load(open("/opt/vp/BASELINE.json"))["stable"] if s not in passed]


def demo(folder, r):
    return subprocess.run(["bash", os.path.join(folder, "demo.sh")], cwd=r, capture_output=True, text=True, timeout=300)


def make(bug):
    d, r = copy()
    try:
        for f, old, new, *k in bug["edits"]:
            p = os.path.join(r, f); s = open(p, encoding="utf-8", newline="").read()
            if "\r\n" in s: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            n = s.count(old)
            if k and n == k[0]: n = 1; i = s.rfind(old); s = s[:i] + new + s[i + len(old):]; old = new = ""
            if n != 1 and not bug.get("multi"): return bug["id"], "edit in %s matches %d times" % (f, n)
            if old: s = s.replace(old, new)
            open(p, "w", encoding="utf-8", newline="").write(s)
        diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True).stdout
        folder = os.path.join(d, "s"); os.mkdir(folder)
        open(folder + "/patch.diff", "wb").write(diff)
        open(folder + "/demo.py", "w").write(PRE + bug["demo"].strip() + "\n")
        open(folder + "/demo.sh", "w").write(SH)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(folder + "/meta.json", "w"), indent=1)
        bad = tests(d, r)
        if bad: return bug["id"], "stable tests fail: %s" % bad[:4]
        try: with_bug = demo(folder, r)
        except subprocess.TimeoutExpired: return bug["id"], "demo hangs"
        subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
        without = demo(folder, r)
        if without.returncode: return bug["id"], "demo fails on the unchanged tree: " + without.stderr[-600:]
        if not with_bug.returncode: return bug["id"], "demo passes with the bug"
        if subprocess.run(["git", "-C", r, "apply", "--check", folder + "/patch.diff"]).returncode: return bug["id"], "does not apply"
        dest = os.path.join(V, "seeded", bug["id"])
        if os.path.isdir(dest): shutil.rmtree(dest)
        shutil.copytree(folder, dest)
        return bug["id"], "ok: " + (with_bug.stderr.strip().splitlines() or ["exit %d" % with_bug.returncode])[-1][:160]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(bid, pids=None):
    src = os.path.join(V, "seeded", bid)
    meta = json.load(open(src + "/meta.json"))
    d, r = copy()
    out = {}
    try:
        subprocess.run(["git", "-C", r, "apply", src + "/patch.diff"], check=True)
        for pid in pids or [meta["property"]]:
            t = time.time()
            p = subprocess.run(["/opt/venv/bin/python", os.path.join(V, "run.py"), pid, "quick"], cwd=V, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=r, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
            out[pid] = (p.returncode, round(time.time() - t), [l for l in p.stdout.splitlines() if "VIOLATION" in l or "KNOWN" in l][:2], p.stdout[-300:] + p.stderr[-300:] if p.returncode not in (0, 1) else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return bid, meta["property"], out


if __name__ == "__main__":
    if sys.argv[1] == "make":
        bugs = runpy.run_path(sys.argv[2])["BUGS"]
        if sys.argv[3:]: bugs = [b for b in bugs if b["id"] in sys.argv[3:]]
        with ThreadPoolExecutor(6) as ex:
            for i, m in ex.map(make, bugs): print(i, m, flush=True)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
        allp = [m["property"] if "property" in m else m["id"] for m in json.load(open(V + "/MANIFEST.json"))["checks"]] if os.environ.get("ALL") else None
        for b in ids:
            bid, prop, out = run(b, allp)
            hit = [p for p, o in out.items() if o[0] == 1]
            odd = {p: (o[0], o[3]) for p, o in out.items() if o[0] not in (0, 1)}
            if not os.environ.get("NOREC"):
                cf = V + "/tools/caught.json"; known = json.load(open(cf)) if os.path.exists(cf) else {}
                known[bid] = sorted((set(known.get(bid, [])) - set(out)) | set(hit)); json.dump(dict(sorted(known.items())), open(cf, "w"), indent=0)
            print("%-6s %-4s %s caught by %s %s %s" % ("CAUGHT" if prop in hit else "MISSED", prop, bid, ",".join(hit), {p: o[1] for p, o in out.items()} if not allp else "", odd or ""), flush=True)
