"""Contracts, the per-function verification driver and the discharge of obligations with z3."""
import os, sys, time, json, traceback, multiprocessing as mp
import z3
from sym import *
import sym, lib
from exec import Exec, Frame, Out, Obl, Killed, PathEnd, norm, SINGLETON, has_quant, in_range, LoopCtx
from frontend import Program, FrontendError

class Ctx:
    """what a specification may look at: pre state, post state, arguments, result"""
    def __init__(self, ex, st0, st, args, ret=None): self.ex = ex; self.st0 = st0; self.st = st; self.args = args; self.ret = ret; self.g = {}
    def a(self, name): return self.args[name]
    def az(self, name):
        v = self.args[name]
        if isinstance(v, LV): v = self.ex._read(self.st0, v)
        return v.z
    def f(self, cls, field, ref=None, old=False):
        st = self.st0 if old else self.st
        return self.ex._read(st, LCell(self.ex.cell_name(cls, field), ref))
    def g_(self, name, sort, old=False): return self.ex.ghost(self.st0 if old else self.st, name, sort)
    def cell(self, name, old=False): return (self.st0 if old else self.st).heap.get(name)

class Contract:
    shares = 1          # worker processes the obligations are dealt to
    name = None            # "Class::fn"
    nargs = None
    units = ()
    loops = {}
    modifies = ()          # heap cells the function may change
    inline_at_call = False
    props = ()             # the properties whose argument rests on this function
    assumed = False        # a trusted contract: never verified
    opts = {}
    consts = {}
    def cases(self): return [None]
    def cases_for(self, prop): return self.cases()
    def args(self, C, case): raise NotImplementedError      # -> dict of argument values (called once, state C.st)
    def this(self, C): return LObj(self.name.split("::")[0], None)
    def pre(self, C): return []
    def post(self, C): return []
    def kill(self, C): return []         # obligations on every state in which the process kills itself
    def use_at_call(self, ex, st, fn, this, args): return not self.inline_at_call
    def event(self, C): return None
    def apply(self, ex, st, fn, this, args, n):
        st0 = st.copy(); names = [p.get("name") for p in fn.params]
        C = Ctx(ex, st0, st, dict(zip(names, args))); C.this = this
        for lab, f, props in norm(self.pre(C)): ex.oblige(st, "call %s: %s" % (self.name, lab), f, "pre", n, props)
        self.check_locks(ex, st, n)
        for m in self.mod_cells(C):
            l = st.heap.get(m)
            if l is None: continue
            st.heap[m] = [fresh_leaf(x.sort(), m + "_after_" + fn.name) for x in l]
        for slot in self.mod_slots(C):
            v = st.env[slot]; st.env[slot] = fresh(v.t, "out"); ex.note_range(st, st.env[slot])
        C.ret = self.fresh_ret(C, fn)
        if isinstance(C.ret, Val): ex.note_range(st, C.ret)
        for lab, f, props in norm(self.post(C)): st.assume(f)
        e = self.event(C)
        if e is not None: st.trace.append(e)
        self.after(C)
        return C.ret
    def after(self, C): pass
    def check_locks(self, ex, st, n):
        for l in self.locks_needed_free:
            held = [k for k in st.locks if k[0] == l]
            ex.oblige(st, "call %s: lock %s is not held" % (self.name, l), not held or (l, "S") in self.shared_ok and all(st.locks[k][0] == "S" for k in held), "lock", n, ("C18",))
        r = self.min_rank
        if r is not None:
            for k in st.locks:
                ex.oblige(st, "call %s: lock order after %s" % (self.name, k[0]), lib.RANKS.get(k[0], -1) < r or (k[0], st.locks[k][0]) in self.shared_ok, "lock", n, ("C18",))
    def lemmas(self, C): return []
    def ghost_update(self, D): pass      # assignments to ghost cells at the end of the body
    locks_needed_free = (); shared_ok = (); min_rank = None
    def mod_cells(self, C): return self.modifies
    def mod_slots(self, C): return ()
    def fresh_ret(self, C, fn):
        try: t = parse_type(fn.ret)[0]
        except Unsupported: return None
        if t[0] == "void": return None
        if t[0] in ("obj", "opaque"): raise Unsupported("return type " + fn.ret)
        return fresh(t, "ret_" + fn.name)

class Result:
    pass

def generate(prog, reg, con, case, consts):
    """all obligations of one function body against its contract.  A first pass finds the cells the function and its
    specification look at; they all exist in the initial state of the pass that counts, so that branches, calls and
    loops agree on them"""
    cells = {}
    for _ in range(6):
        r = generate1(prog, reg, con, case, consts, cells)
        if not set(r[0].created) - set(cells): return r
        cells = {**cells, **r[0].created}
    raise Unsupported("the cells of the function do not stabilise")
def generate1(prog, reg, con, case, consts, cells):
    key = con.name; l = prog.funcs.get(key)
    if not l: raise Unsupported("function %s not found" % key)
    fn = next(f for f in l if con.pick(f)) if hasattr(con, "pick") else prog.fn(key, con.nargs)
    cs = dict(consts); cs.update(con.consts); cs.update(con.case_consts(case)) if hasattr(con, "case_consts") else None; cs = {k: v for k, v in cs.items() if v is not None}
    ex = Exec(prog, reg, lib, key, cs, dict(con.opts)); ex.names = {}
    if fn.body is None: raise Unsupported("no body for " + key)
    st = State(); st.heap = {k: list(cells[k]) for k in sorted(cells)}; C = Ctx(ex, st, st, {}); C.case = case
    C.this = con.this(C)
    args = con.args(C, case); C.args = args
    for lab, f, props in norm(con.pre(C)): st.assume(f)
    for lab, claim, use in con.lemmas(C):           # facts of arithmetic: discharged on their own, from nothing
        ex.obls.append(Obl("lemma:" + lab, "lemma", [], claim, "", (), key, False)); st.assume(use)
    st0 = st.copy(); locks0 = dict(st.locks)
    C.st0 = st0; ex.entry_state = st0
    names = [p.get("name") for p in fn.params]
    vals = []
    for i, p in enumerate(names):
        if p in args: vals.append(args[p])
        elif len(args) == len(names): vals.append(list(args.values())[i])
        else: raise Unsupported("parameter %s of %s" % (p, key))
    live = [f for f in st.pc]
    ex.entry_pc = live
    outs = ex.run_body(st, fn, C.this, vals, con)
    nret = 0
    for o in outs:
        if o.k not in ("ret", "fall"): continue
        nret += 1
        D = Ctx(ex, st0, o.st, args, o.v); D.case = case; D.this = C.this; D.g = C.g; D.out = o; D.locks0 = locks0
        # cells created lazily during execution have the same initial value
        for k, v in o.st.heap.items():
            if k not in st0.heap: init_cell(ex, st0, k, v)
        ex.frames.append(Frame(fn, C.this))
        try:
            con.ghost_update(D)
            extra = [k for k in o.st.locks if k not in locks0]
            ex.oblige(o.st, "every lock is released on return", not extra and len(o.st.locks) == len(locks0) or con_lock_ok(con, D), "lock", fn.body, ("C18",))
            posts = norm(con.post(D))
            for lab, f, props in posts: ex.oblige(o.st, "post:" + lab, f, "post", fn.body, props)
            if con.modifies is not None:
                allowed = set(con.mod_cells(D)) | {"mem", "buflen", "errno", "fs.isopen", "fs.fd", "clock"}
                for k, v in o.st.heap.items():
                    if k in allowed or k.endswith(".$alive"): continue
                    w = st0.heap.get(k)
                    if w is None or all(x.eq(y) for x, y in zip(v, w)): continue
                    fr = con.frame(D, k, w, v) if hasattr(con, "frame") else None
                    ex.oblige(o.st, "frame:%s is unchanged" % k, z3.And([x == y for x, y in zip(v, w)]) if fr is None else fr, "frame", fn.body, con.frame_props if hasattr(con, "frame_props") else ())
        finally: ex.frames.pop()
    for ks in ex.kills:
        D = Ctx(ex, st0, ks, args, None); D.case = case; D.this = C.this; D.g = C.g
        for k, v in ks.heap.items():
            if k not in st0.heap: init_cell(ex, st0, k, v)
        ex.frames.append(Frame(fn, C.this))
        try:
            for lab, f, props in norm(con.kill(D)): ex.oblige(ks, "kill:" + lab, f, "kill", fn.body, props)
        finally: ex.frames.pop()
    return ex, fn, st0, nret
def con_lock_ok(con, D): return con.lock_effect(D) if hasattr(con, "lock_effect") else False
def init_cell(ex, st0, k, v):
    st0.heap[k] = [z3.Const(("%s@%d" % (k, i)), x.sort()) for i, x in enumerate(v)]

def axioms(): return sym.string_axioms()

def split(goal, hyps=()):
    """the goal as a list of (extra hypotheses, goal): conjunctions, quantified and guarded conjunctions are taken apart"""
    if z3.is_and(goal): return [x for g in goal.children() for x in split(g, hyps)]
    if z3.is_quantifier(goal) and goal.is_forall():
        cs = [z3.FreshConst(goal.var_sort(i), "sk") for i in range(goal.num_vars())]
        terms = [z3.substitute_vars(t, *reversed(cs)) for i in range(goal.num_patterns()) for t in goal.pattern(i).children()]
        return split(z3.substitute_vars(goal.body(), *reversed(cs)), tuple(hyps) + tuple(z3.Function("seen", t.sort(), z3.BoolSort())(t) for t in terms))   # keeps the terms around for matching; `seen` is unconstrained elsewhere
    if z3.is_implies(goal): return split(goal.arg(1), tuple(hyps) + (goal.arg(0),))
    return [(tuple(hyps), goal)]
def attempt(hyps, goal, ax, strategies, budget, base):
    last = ""
    for i, cfg in enumerate(strategies):
        k = base + i; fresh_ctx = k >= 3                 # retries: fresh context, other seeds, other order of the hypotheses
        ctx = z3.Context() if fresh_ctx else None
        tr = (lambda f: f.translate(ctx)) if ctx else (lambda f: f)
        mk = z3.SimpleSolver if cfg.get("smt.mbqi") is False and k < 5 else z3.Solver     # the plain core keeps the matching patterns as they are
        s = mk(ctx=ctx) if ctx else mk()
        for o, v in cfg.items():
            try: s.set(o, v)
            except z3.Z3Exception: pass
        s.set("rlimit", int(budget[k] if k < len(budget) else budget[-1])); s.set("timeout", 120000)
        for f in ax: s.add(tr(f))
        for f in (hyps if k % 2 == 0 else reversed(hyps)): s.add(tr(f))
        s.add(tr(z3.Not(goal)))
        r = s.check()
        if r == z3.unsat: return "proved", ""
        if r == z3.sat: return "failed", str(s.model())[:4000]
        last = s.reason_unknown()
    return "unknown", last
STRATEGIES = [dict(), {"smt.mbqi": False, "auto_config": False}, {"smt.mbqi": False, "auto_config": False, "smt.arith.solver": 2, "smt.random_seed": 7}]
def discharge(hyps, goal, ax, budget):
    """('proved'|'failed'|'unknown', model text, seconds)"""
    t0 = time.time(); hyps = list(hyps)
    r, m = attempt(hyps, goal, [], FIRST, (budget[0] // 4,), 0)
    if r != "proved": r, m = attempt(hyps, goal, ax, FIRST, (budget[0] // 2,), 0)
    if r == "unknown":
        for extra, g in split(goal):
            H = hyps + list(extra); r, m = attempt(H, g, [], FIRST, budget, 0)
            if r != "proved": r, m = attempt(H, g, ax, FIRST, budget, 0)
            if r == "unknown": r, m = attempt(H, g, ax, STRATEGIES + RETRY, budget, 0)
            if r != "proved": break
    return (r, m, time.time() - t0)
FIRST = [{"smt.mbqi": False, "auto_config": False}]
RETRY = [{"smt.mbqi": False, "auto_config": False, "smt.random_seed": k, **({"smt.arith.solver": 2} if k % 2 else {}), **({"smt.phase_selection": 4} if k > 12 else {}), **({"smt.case_split": 3} if k == 14 else {})} for k in (11, 12, 13, 14)]
BUDGET = (8_000_000, 30_000_000, 40_000_000)
BUDGET_TH = (30_000_000, 100_000_000, 100_000_000)

def relevant(o, prop):
    return prop is None or not o.props or prop in o.props

def verify_task(task):
    """runs in a worker process; returns a plain dict"""
    prog, reg, con, case, consts, prop, budget, share, shares = task
    t0 = time.time()
    res = {"fn": con.name, "case": str(case) if case is not None else "", "status": "ok", "obls": [], "inlined": [], "called": [], "trusted": [], "notes": [], "why": ""}
    try:
        ex, fn, st0, nret = generate(prog, reg, con, case, consts)
    except Unsupported as e:
        res["status"] = "undecided"; res["why"] = "outside the verifier's reach: %s" % e; res["gen"] = time.time() - t0; return res
    except Exception as e:
        res["status"] = "undecided"; res["why"] = "internal: %s" % "".join(traceback.format_exc()[-900:]); res["gen"] = time.time() - t0; return res
    res["gen"] = time.time() - t0; res["quick"] = ex.quick
    ax = axioms()
    # vacuity: the precondition alone must be satisfiable for the solver within a small budget
    s = z3.Solver(); s.set("rlimit", 3_000_000); s.set("timeout", 20000)
    for f in ax + list(ex.entry_pc): s.add(f)
    res["pre_sat"] = str(s.check())
    if res["pre_sat"] == "unknown": res["pre_sat"] = "not refuted"
    if res["pre_sat"] == "unsat": res["status"] = "undecided"; res["why"] = "precondition is unsatisfiable"
    if nret == 0 and not ex.kills: res["status"] = "undecided"; res["why"] = "no path returns"
    n = {}
    st = 0.0
    for no, o in enumerate(ex.obls):
        if not relevant(o, prop): continue
        mine = no % shares == share
        base = "%s%s/%s" % (con.name, "[%s]" % case if case is not None else "", o.label)
        n[base] = n.get(base, 0) + 1
        d = {"name": base + ("#%d" % n[base] if n[base] > 1 else ""), "kind": o.kind, "where": o.where, "props": list(o.props)}
        if not mine: continue
        if o.done: d["r"] = "proved"; d["t"] = 0
        else:
            r, m, t = discharge(o.hyps, o.goal, ax, budget); d["r"] = r; d["t"] = round(t, 3); st += t
            if r != "proved": d["model"] = m
        res["obls"].append(d)
    res["solver"] = st; res["inlined"] = sorted(ex.inlined); res["called"] = sorted(k for k in ex.called if k in reg); res["trusted"] = sorted(lib.TRUSTED); res["notes"] = sorted(ex.notes); res["time"] = time.time() - t0
    return res

_TASKS = None
def _run(i): return verify_task(_TASKS[i])
def run(prog, reg, items, consts, prop, jobs=8, budget=BUDGET, wall=600):
    """items: list of contract names; returns list of results"""
    global _TASKS
    _TASKS = []
    for nme in items:
        con = reg[nme]
        for case in con.cases_for(prop): _TASKS += [(prog, reg, con, case, consts, prop, budget, k, con.shares) for k in range(con.shares)]
    out = [None] * len(_TASKS)
    ctx = mp.get_context("fork"); t0 = time.time()
    procs = {}; todo = list(range(len(_TASKS)))
    def child(i, conn):
        try: conn.send(verify_task(_TASKS[i]))
        except Exception as e: conn.send({"fn": _TASKS[i][2].name, "case": str(_TASKS[i][3]), "status": "undecided", "why": "worker: %r" % e, "obls": [], "inlined": [], "called": [], "trusted": [], "notes": []})
        conn.close()
    import multiprocessing.connection as mpc
    while todo or procs:
        while todo and len(procs) < jobs:
            i = todo.pop(0); a, b = ctx.Pipe(False); p = ctx.Process(target=child, args=(i, b)); p.start(); b.close(); procs[i] = (p, a)
        ready = mpc.wait([a for _, a in procs.values()], timeout=1)
        for i, (p, a) in list(procs.items()):
            if a in ready:
                try: out[i] = a.recv()
                except EOFError: pass
                p.join(); del procs[i]
            elif time.time() - t0 > wall:
                p.kill(); p.join(); del procs[i]
        if time.time() - t0 > wall: todo = []
    for i, r in enumerate(out):
        if r is None or r["status"] != "ok":
            if r is None: out[i] = {"fn": _TASKS[i][2].name, "case": str(_TASKS[i][3]), "status": "undecided", "why": "out of time or memory", "obls": [], "inlined": [], "called": [], "trusted": [], "notes": []}
    merged = []
    for t, r in zip(_TASKS, out):                        # the shares of one function
        if t[7] == 0: merged.append(r); continue
        m = merged[-1]
        if m["status"] == "ok" and r["status"] != "ok": m["status"], m["why"] = r["status"], r["why"]
        m["obls"] = m["obls"] + r["obls"]; m["solver"] = m.get("solver", 0) + r.get("solver", 0); m["time"] = max(m.get("time", 0), r.get("time", 0))
    return merged

def report(results, verbose=True):
    for r in results:
        bad = [o for o in r["obls"] if o["r"] != "proved"]
        print("%-45s %-12s %-9s obls=%d bad=%d gen=%.1fs solver=%.1fs %s" % (r["fn"], r["case"], r["status"], len(r["obls"]), len(bad), r.get("gen", 0), r.get("solver", 0), r["why"] if verbose != "short" else r["why"][-160:].replace("\n", " ")))
        for o in (bad[:6] if verbose == "short" else bad) if verbose else []: print("     ", o["r"], o["name"], o["where"], o["t"], (o.get("model") or "")[:300 if o["r"] == "failed" else 80].replace("\n", " "))
