#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on $REPO (default /repo).

1. deductive part: every contract on the property's chain is verified against the function bodies of the current tree
   (cppvc: clang AST -> obligations -> z3);
2. bounded companion: the real code runs generated histories against a reference model (replay/lfsx, replay/cfgx); it
   stands in for functions outside the verifier's reach and searches the failing input of a failed obligation.
exit 0: nothing failed; exit 1 and a VIOLATION line: an obligation is not discharged or a failing input was found."""
import glob, hashlib, json, os, shutil, subprocess, sys, tempfile, threading, time
if os.environ.get("PYTHONHASHSEED") != "0": os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))   # same obligations, same order
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path[:0] = [os.path.join(VERIF, "cppvc"), VERIF]
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
PROP = sys.argv[1]
REPO = os.environ.get("REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick"); SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TH = TIER == "thorough"
WALL = 2400 if TH else 430
SEARCH = int(os.environ.get("VERIF_SEARCH", "600")) if TH else 45          # seconds per search process of the companion
EXTRA = 600 if TH else 100          # seconds of search after a failed obligation
NPROC = 6 if TH else 4
CFG_ONLY = {"C14", "C19"}
CFG_TOO = {"C04", "C06", "C10", "C11", "C12", "C13", "C15", "C16", "C18"}
T0 = time.time()
OUT = os.path.join(VERIF, "out", PROP); os.makedirs(OUT, exist_ok=True); os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
TMP = tempfile.mkdtemp(prefix="lazyfs-check-")

def log(*a): print("[%6.1fs]" % (time.time() - T0), *a, flush=True)

# ------------------------------------------------------------------ companion
class Companion:
    def __init__(self): self.dir = os.path.join(TMP, "hx"); self.built = None; self.err = ""; self.found = None; self.stats = []; self.sample = ""
    def build(self):
        env = dict(os.environ, REPO=REPO)
        p = subprocess.run(["bash", os.path.join(VERIF, "replay", "build.sh"), self.dir], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        self.built = p.returncode == 0
        if not self.built: self.err = p.stdout.decode(errors="replace")[-3000:]
    def search(self, secs, nproc, salt):
        if not self.built or self.found: return
        jobs = []
        for i in range(nproc):
            tool = "cfgx" if PROP in CFG_ONLY or (PROP in CFG_TOO and i == nproc - 1 and nproc > 1) else "lfsx"
            prof = "C14" if tool == "cfgx" and PROP != "C19" else PROP
            sc = os.path.join(TMP, "s%s%d" % (salt, i)); os.makedirs(sc, exist_ok=True); out = os.path.join(TMP, "f%s%d" % (salt, i))
            cmd = [os.path.join(self.dir, tool), "search", prof, str(SEED * 1000003 + hash_i(salt) * 101 + i), str(secs), "100000000", sc, out]
            jobs.append((tool, out, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)))
        end = time.time() + secs + 120
        for tool, out, p in jobs:
            try: txt = p.communicate(timeout=max(1, end - time.time()))[0].decode(errors="replace")
            except subprocess.TimeoutExpired: p.kill(); p.communicate(); continue
            for l in txt.split("\n"):
                if l.startswith("STATS"): self.stats.append(dict(kv.split("=") for kv in l.split()[1:]))
            if "SAMPLE\n" in txt and not self.sample: self.sample = txt.split("SAMPLE\n", 1)[1][:1500]
            if p.returncode == 1 and "FOUND" in txt and self.found is None and os.path.exists(out):
                # the failure must reproduce before it is believed
                sc = os.path.join(TMP, "rp"); os.makedirs(sc, exist_ok=True)
                try: r = subprocess.run([os.path.join(self.dir, tool), "replay", out, sc], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=200)
                except subprocess.TimeoutExpired: continue
                if r.returncode == 1: self.found = (tool, open(out).read(), txt)
def hash_i(s): return int(hashlib.sha1(s.encode()).hexdigest()[:6], 16)

def known(prop):
    out = []
    for l in open(os.path.join(VERIF, "known-findings.txt")):
        l = l.strip()
        if l.startswith("finding: property=%s " % prop): out.append(l.split(" ", 2)[2])
    return out

def main():
    for k in known(PROP): print("KNOWN-FINDING: property=%s %s" % (PROP, k))
    comp = Companion(); results = []; ferr = None
    def side():
        comp.build()
        if comp.built: comp.search(SEARCH, NPROC, "a")
    th = threading.Thread(target=side); th.start()
    import verify, lib
    from contracts import all as reg_
    from frontend import Program, UNITS, FrontendError
    items = []; trusted_con = []
    try:
        reg = reg_.registry(); items = [n for n, c in reg.items() if PROP in c.props and not c.assumed]
        if items:
            prog = Program(REPO).load(list(UNITS))
            results = verify.run(prog, reg, items, reg_.CONSTS, PROP, jobs=7, wall=WALL, budget=verify.BUDGET_TH if TH else verify.BUDGET)
        trusted_con = sorted(n for n, c in reg.items() if c.assumed and PROP in c.props)
    except FrontendError as e: ferr = str(e)
    verify.report(results, verbose=True)
    others = []
    if TH and items and results and all(o["r"] == "proved" for r in results for o in r["obls"]):
        for bs in (512, 65536):                 # the block size is a constant of the proofs: repeat them with others
            out = os.path.join(TMP, "bs%d.json" % bs)
            subprocess.run([sys.executable, os.path.join(HERE, "proofs.py"), PROP, out], env=dict(os.environ, CPPVC_BS=str(bs), REPO=REPO, WALL="1500"), stdout=subprocess.DEVNULL)
            if os.path.exists(out): others.append(json.load(open(out))); log("block size %d: %d of %d obligations discharged" % (bs, others[-1]["discharged"], others[-1]["obligations"]))
    th.join()
    obls = [o for r in results for o in r["obls"]]; bad = [o for o in obls if o["r"] != "proved"] + [dict(o, name="%s (block size %d)" % (o["name"], x["block_size"])) for x in others for o in x["failed"]]
    und = [r for r in results if r["status"] != "ok"]
    log("obligations %d, not discharged %d, functions undecided %d; companion built=%s found=%s" % (len(obls), len(bad), len(und), comp.built, bool(comp.found)))
    if bad and not comp.found and comp.built: comp.search(EXTRA, 8, "b")
    elif (und or (items and not results)) and not comp.found and comp.built and not TH: comp.search(60, 8, "c")   # the bounded stand-in carries more weight
    rc = 0; replay = None
    if comp.found or bad:
        replay = os.path.join(OUT, "replay-%s.txt" % ("input" if comp.found else "obligation"))
        with open(replay, "w") as f:
            if comp.found:
                f.write(comp.found[1] + "\n# replay: REPO=%s bash replay/build.sh DIR && DIR/%s replay THIS-FILE SCRATCH-DIR\n" % (REPO, comp.found[0]))
            for o in bad: f.write("# failed obligation: %s (%s at %s): %s\n#   %s\n" % (o["name"], o["kind"], o["where"], o["r"], (o.get("model") or "")[:3000].replace("\n", "\n#   ")))
        rc = 1
        print("VIOLATION property=%s replay=%s%s" % (PROP, replay, "" if comp.found else " no-failing-input-found"))
    if rc == 0 and not comp.built and (not items or ferr or all(r["status"] != "ok" for r in results)):
        print("ERROR: neither the verifier nor the companion could process this tree\n" + (ferr or "") + comp.err); rc = 2
    runs = sum(int(s.get("runs", 0)) for s in comp.stats); dist = sum(int(s.get("distinct", 0)) for s in comp.stats)
    ok_fns = sorted(set(r["fn"] for r in results) - set(r["fn"] for r in und))
    bytag = {}
    for o in obls: bytag[o["kind"]] = bytag.get(o["kind"], 0) + 1
    cov = {}
    if items:
        cov.update(obligations=len(obls), discharged=sum(o["r"] == "proved" for o in obls), checker_cmd="python3-vt checks/check.py %s (cppvc: clang %s JSON AST of %s -> z3 %s)" % (PROP, "18", REPO, zver()),
                   trusted_base=sorted(set(t for r in results for t in r["trusted"])) + ["contract assumed: " + x for x in trusted_con] + ["clang front end", "cppvc symbolic execution and container models", "z3"],
                   functions_under_contract=ok_fns, functions_inlined=sorted(set(x for r in results for x in r["inlined"])),
                   obligations_by_kind=bytag, solver_seconds=round(sum(r.get("solver", 0) for r in results), 2), generation_seconds=round(sum(r.get("gen", 0) for r in results), 2),
                   quick_solver_queries=sum(r.get("quick", 0) for r in results),
                   undecided=[dict(function=r["fn"], case=r["case"], why=r["why"][:300], stand_in="bounded: companion histories below") for r in und],
                   failed=[o["name"] for o in bad], vacuity={"%s %s" % (r["fn"], r["case"]): r.get("pre_sat", "?") for r in results})
    if others: cov["other_block_sizes"] = [{k: x[k] for k in ("block_size", "functions", "obligations", "discharged", "undecided")} for x in others]
    cov["bounded_companion"] = dict(label="bounded, never counted as proved", built=bool(comp.built), runs=runs, distinct_nontrivial=dist, operations=sum(int(s.get("ops", 0)) for s in comp.stats), sample=comp.sample)
    if not items or not results: cov.update(evaluations=runs, distinct_nontrivial=dist, rule="random histories over small geometries, compared step by step with a reference model; non-trivial: at least one data operation", samples=[comp.sample])
    ev = dict(property=PROP, tier=TIER, seed=SEED, level="proof" if items and results else "exploration", coverage=cov, assumptions=reg_.ASSUMPTIONS, wall_s=round(time.time() - T0, 1), violations=1 if rc == 1 else 0)
    with open(os.path.join(VERIF, "evidence", PROP + ".json"), "w") as f: json.dump(ev, f, indent=1)
    log("exit", rc)
    return rc
def zver():
    import z3; return z3.get_version_string()
try: rc = main()
finally: shutil.rmtree(TMP, ignore_errors=True)
sys.stdout.flush(); os._exit(rc)
