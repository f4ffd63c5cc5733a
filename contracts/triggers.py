"""Fault injection in LazyFS (lazyfs/src/lazyfs.cpp): crash faults, clear faults, torn faults.  C10-C14, C18."""
import z3
from sym import *
import sym
from verify import Contract, Ctx
from contracts.ops import CACHE_CELLS, S, sarg, iarg, events, same, TriggerCrash, TriggerClear
from contracts.faults import OPS, MULTI, one_of
import lib
FAULTS_T = ("map", STR, ("vec", ("ptr", "Fault")), False)
sym.FIELD_TYPE[("LazyFS", "faults")] = FAULTS_T
CLEARS = "g.clears"
AIB = z3.ArraySort(I, B)

class CommandReport(Contract):
    """reads the cache under its lock, logs, changes nothing"""
    name = "LazyFS::command_unsynced_data_report"; units = ("lazyfs",); min_rank = 3
    props = ("C15", "C18", "C21")
    def this(self, C): return LObj("LazyFS", None)
    def args(self, C, case): return {"paths_to_exclude": fresh(("vec", STR), "excluded")}
    def mod_cells(self, C): return ("c.$npos", "c.$dpos", "eng.$dpos")
    class Loop:
        def inv(self, L): return []
    loops = {0: Loop(), 1: Loop(), 2: Loop()}
    def event(self, C): return ("report", [])
class CommandClear(Contract):
    name = "LazyFS::command_fault_clear_cache"; units = ("lazyfs",); min_rank = 0; assumed = True; props = ("C04", "C12", "C18")
    def mod_cells(self, C): return [k for k in C.st.heap if k.startswith(CACHE_CELLS) and not k.endswith(".$alive")] + [CLEARS]
    def pre(self, C): C.g_(CLEARS, I); return []
    def post(self, C): return [("the cache is cleared", C.g_(CLEARS, I) == C.g_(CLEARS, I, old=True) + 1)]
    def event(self, C): return ("cleared", [])

def cat(*l):
    r = l[0]
    for x in l[1:]: r = concat(r, x)
    return r
def anywhere(p): return concat(concat(lit(".*(?:"), p), lit(").*"))
def lfs_sets(C):
    """the sets of operations, as initialised"""
    q = z3.FreshConst(Str, "s"); m = C.f("LazyFS", "fs_op_multi_path").l[0]
    return [("operations with two paths", z3.ForAll([q], z3.Select(m, q) == one_of(q, MULTI), patterns=[z3.Select(m, q)]))]
def crash_maps(C, old=False): return [C.f("LazyFS", "crash_faults_%s_map" % t, old=old) for t in ("before", "after")]

class TriggerCrashBody(TriggerCrash):
    assumed = False; props = ("C13", "C10", "C11", "C18", "C21"); modifies = ("LazyFS.injecting_fault",)
    def this(self, C): return LObj("LazyFS", None)
    def args(self, C, case): return {n: Val(STR, [S(n)]) for n in ("opname", "optiming", "from_op_path", "to_op_path", "fault_type")}
    def pre(self, C):
        b, a = crash_maps(C); o = C.az("opname")
        return lfs_sets(C) + [("known operation", one_of(o, OPS)), ("every operation has its lists", z3.And(mhas(b, o), mhas(a, o))), ("lengths", z3.And(msel(a, o).l[0] >= 0, msel(b, o).l[0] >= 0))]
    def matches(self, C):
        b, a = crash_maps(C, True); o = C.az("opname")
        lst = ite(C.az("optiming") == lit("before"), msel(b, o), msel(a, o)); fr, to = C.az("from_op_path"), C.az("to_op_path")
        def m(j):
            rx, t = vget(lst, j).l
            return z3.And(re_match(fr, rx), z3.Or(z3.Not(one_of(o, MULTI)), t == lit("none"), re_match(to, anywhere(t))))
        return lst, m
    def post(self, C):
        lst, m = self.matches(C); q = z3.FreshConst(I, "j")
        return [("the process goes on only when no fault matches", z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < lst.l[0]), z3.Not(m(q))), patterns=[z3.Select(lst.l[1], q)]), ("C13", "C10", "C11"))]
    def kill(self, C):
        lst, m = self.matches(C); q = z3.FreshConst(I, "j")
        return [("the process is killed only by a matching fault of this operation and timing", z3.Exists([q], z3.And(q >= 0, q < lst.l[0], m(q))), ("C13", "C10", "C11")),
                ("unsynced data is reported before the crash", z3.BoolVal(any(k == "report" for k, _ in C.st.trace)), ("C13",))]

def faults_of(C, path, old=True): return msel(C.f("LazyFS", "faults", old=old), path)
def faults_wf(C, path):
    """the fault list of a path holds distinct existing faults"""
    v = faults_of(C, path, False); q, r = z3.FreshConst(I, "j"), z3.FreshConst(I, "k"); a = v.l[1]
    return [("fault list", z3.And(v.l[0] >= 0, v.l[0] < 2 ** 31)),
            ("faults are distinct objects", z3.ForAll([q, r], z3.Implies(z3.And(0 <= q, q < r, r < v.l[0]), z3.Select(a, q) != z3.Select(a, r)), patterns=[z3.MultiPattern(z3.Select(a, q), z3.Select(a, r))])),
            ("faults exist", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < v.l[0]), z3.Select(a, q) > 0), patterns=[z3.Select(a, q)]))]
def kind(C, ref): return z3.Select(C.g_("Fault.$kind", z3.ArraySort(I, I)), ref)

class TriggerClearBody(TriggerClear):
    assumed = False; props = ("C12", "C18", "C21")
    def mod_cells(self, C): return ["ClearF.counter", "LazyFS.injecting_fault", CLEARS] + [k for k in C.st.heap if k.startswith(CACHE_CELLS)]
    def this(self, C): return LObj("LazyFS", None)
    def args(self, C, case): return {n: Val(STR, [S(n)]) for n in ("opname", "optiming", "from_path", "to_path")}
    def pre(self, C):
        p = C.az("from_path"); q = z3.FreshConst(I, "c"); cnt = C.ex.cell(C.st, "ClearF.counter", INT, True)[0]
        C.g_(CLEARS, I); C.g_("Fault.$kind", z3.ArraySort(I, I))
        return lfs_sets(C) + faults_wf(C, p) + [("known timing", one_of(C.az("optiming"), ["before", "after"])),
            ("counters do not overflow", z3.ForAll([q], z3.And(z3.Select(cnt, q) >= 0, z3.Select(cnt, q) < 2 ** 31 - 1), patterns=[z3.Select(cnt, q)]))]
    def rel(self, C):
        """(concerns f, fires f) over the initial counters"""
        op, tm, to = C.az("opname"), C.az("optiming"), C.az("to_path")
        fld = lambda n, r: C.f("ClearF", n, r, old=True).z
        def mine(r): return z3.And(kind(C, r) == 3, fld("op", r) == op, z3.Or(z3.Not(one_of(op, MULTI)), fld("to", r) == to))
        def count(r): return fld("counter", r) + z3.If(z3.And(mine(r), tm == lit("before")), 1, 0)
        def fires(r): return z3.And(mine(r), fld("timing", r) == tm, count(r) == fld("occurrence", r))
        return mine, count, fires
    def summary(self, C, n, v, at_kill=False, lo_=None):
        mine, count, fires = self.rel(C); q, r = z3.FreshConst(I, "j"), z3.FreshConst(I, "r"); a = v.l[1]
        cnt = C.ex.cell(C.st, "ClearF.counter", INT, True)[0]; c0 = C.ex.cell(C.st0, "ClearF.counter", INT, True)[0]
        crash = lambda r: C.f("ClearF", "crash", r, old=True).z
        inq = z3.And(0 <= q, q < n)
        clears = C.g_(CLEARS, I) > C.g_(CLEARS, I, old=True)
        return [("every fault of the path counts this operation once", z3.ForAll([q], z3.Implies(inq, z3.Select(cnt, z3.Select(a, q)) == count(z3.Select(a, q))), patterns=[z3.Select(a, q)]), ("C12",)),
                ("other faults do not count", z3.ForAll([r], z3.Or(z3.Select(cnt, r) == z3.Select(c0, r), z3.Exists([q], z3.And(inq, z3.Select(a, q) == r))), patterns=[z3.Select(cnt, r)]), ("C12",)),
                ("no fault that should crash was passed over", z3.ForAll([q], z3.Implies(inq, z3.Not(z3.And(fires(z3.Select(a, q)), crash(z3.Select(a, q))))), patterns=[z3.Select(a, q)]), ("C12",)),
                ("a fault that is due clears the cache", z3.ForAll([q], z3.Implies(z3.And(inq, fires(z3.Select(a, q))), clears), patterns=[z3.Select(a, q)]), ("C12",)),
                ("the cache is cleared only by a fault that is due", z3.Implies(clears, z3.Exists([q], z3.And(inq, fires(z3.Select(a, q))))), ("C12",)),
                ("clears counted", C.g_(CLEARS, I) >= C.g_(CLEARS, I, old=True), ("C12",))]
    def post(self, C):
        f = C.f("LazyFS", "faults", old=True); p = C.az("from_path"); v = msel(f, p)
        return self.summary(C, z3.If(mhas(f, p), v.l[0], 0), v)
    def kill(self, C):
        f = C.f("LazyFS", "faults", old=True); p = C.az("from_path"); v = msel(f, p); q = z3.FreshConst(I, "j"); a = v.l[1]
        mine, count, fires = self.rel(C)
        return [("the process is killed only by a crash fault that is due", z3.Exists([q], z3.And(mhas(f, p), 0 <= q, q < v.l[0], fires(z3.Select(a, q)), C.f("ClearF", "crash", z3.Select(a, q), old=True).z)), ("C12",)),
                ("unsynced data is reported before the crash", z3.BoolVal(any(k == "report" for k, _ in C.st.trace)), ("C12",))]
    class Loop:
        def __init__(self, con): self.con = con
        def inv(self, L):
            C = Ctx(L.ex, L.entry, L.st, {n: Val(STR, [S(n)]) for n in ("opname", "optiming", "from_path", "to_path")})
            it = L.it(); C.st0 = L.ex.entry_state
            v = msel(L.ex._read(L.entry, LCell("LazyFS.faults")), C.az("from_path"))
            return self.con.summary(C, it.idx, v)
    @property
    def loops(self): return {0: self.Loop(self)}

def contracts(): return [TriggerCrashBody(), TriggerClearBody(), CommandReport()]
