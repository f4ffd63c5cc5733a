"""Crash-fault lists, torn writes and the fault commands of LazyFS (lazyfs/src/lazyfs.cpp).  C10, C11, C13, C18."""
import z3
from sym import *
import sym
from verify import Contract, Ctx
from contracts.ops import CACHE_CELLS, S, sarg, iarg, events, same
from contracts.faults import OPS, MULTI, one_of
from contracts.triggers import FAULTS_T, CLEARS, AIB, cat, anywhere, lfs_sets, crash_maps, faults_of, faults_wf, kind
import lib
AII = z3.ArraySort(I, I)
sym.FIELD_TYPE[("Write", "path")] = STR
sym.FIELD_TYPE[("LazyFS", "fht_worker")] = ("ptr", "fn")

def fa(q, c, body, pats): return z3.ForAll(q if isinstance(q, list) else [q], z3.Implies(c, body), patterns=pats)
def J(): return z3.FreshConst(I, "j")

class AddCrashFault(Contract):
    """appends one entry to the list of this operation and timing"""
    name = "LazyFS::add_crash_fault"; units = ("lazyfs",); props = ("C13", "C10", "C11", "C21")
    modifies = ("LazyFS.crash_faults_before_map", "LazyFS.crash_faults_after_map")
    def this(self, C): return LObj("LazyFS", None)
    def args(self, C, case): return {n: Val(STR, [S(n)]) for n in ("crash_timing", "crash_operation", "crash_regex_from", "crash_regex_to")}
    def pre(self, C):
        b, a = crash_maps(C); o = C.az("crash_operation")
        return lfs_sets(C) + [("every operation has its lists", z3.And(mhas(b, o), mhas(a, o))), ("lengths", z3.And(msel(a, o).l[0] >= 0, msel(b, o).l[0] >= 0))]
    def post(self, C):
        P = ("C13", "C10", "C11"); out = []; o, fr, to = C.az("crash_operation"), C.az("crash_regex_from"), C.az("crash_regex_to")
        before = C.az("crash_timing") == lit("before")
        rx = anywhere(z3.If(z3.And(fr == lit("none"), one_of(o, MULTI)), lit(""), fr))
        for m, m0, mine, nm in zip(crash_maps(C), crash_maps(C, True), (before, z3.Not(before)), ("before", "after")):
            v, v0 = msel(m, o), msel(m0, o); q = J(); s = z3.FreshConst(Str, "s")
            out.append(("the fault is appended to the '%s' list of its operation" % nm, z3.Implies(mine, z3.And(v.l[0] == v0.l[0] + 1, z3.Select(v.l[1], v0.l[0]) == rx, z3.Select(v.l[2], v0.l[0]) == to)), P))
            out.append(("earlier faults of the '%s' list stay" % nm, z3.Implies(mine, fa(q, z3.And(0 <= q, q < v0.l[0]), z3.And(z3.Select(v.l[1], q) == z3.Select(v0.l[1], q), z3.Select(v.l[2], q) == z3.Select(v0.l[2], q)), [z3.Select(v.l[1], q)])), P))
            out.append(("'%s' lists of other operations stay" % nm, fa(s, z3.Or(s != o, z3.Not(mine)), z3.And([z3.Select(x, s) == z3.Select(y, s) for x, y in zip(m.l, m0.l)]), [z3.Select(m.l[0], s)]), P))
        return out
    def event(self, C): return ("armed", [C.az("crash_timing"), C.az("crash_operation"), C.az("crash_regex_from"), C.az("crash_regex_to")])

class LazyFSCtor(Contract):
    """the lists exist for exactly the operations on which faults can be injected, and start empty"""
    name = "LazyFS::LazyFS"; nargs = 5; units = ("lazyfs",); props = ("C13", "C12", "C21"); modifies = None
    def this(self, C): return LObj("LazyFS", None)
    def args(self, C, case):
        ex, st = C.ex, C.st
        for f in ("allow_crash_fs_operations", "fs_op_multi_path", "crash_faults_before_map", "crash_faults_after_map"):
            init = ex.prog.fields["LazyFS"][f][1]; t = ex.cell_type("LazyFS", f)
            ex.write(st, LCell("LazyFS." + f), ex.construct_hint(st, init, t) if init is not None else empty(t))
        return {"cache": Val(("ptr", "Cache"), [z3.Int("cache")]), "config": Val(("ptr", "Config"), [z3.Int("config")]), "faults_handler_thread": Val(("ptr", "thread"), [z3.Int("thread")]), "fht_worker": Val(("ptr", "fn"), [z3.Int("worker")]), "faults": Val(FAULTS_T, C.f("LazyFS", "faults").l)}
    def post(self, C):
        b, a = crash_maps(C); s = z3.FreshConst(Str, "s"); P = ("C13", "C12")
        return lfs_sets(C) + [("exactly the documented operations have '%s' lists, which are empty" % n, z3.ForAll([s], z3.And(mhas(m, s) == one_of(s, OPS), z3.Implies(mhas(m, s), msel(m, s).l[0] == 0)), patterns=[mhas(m, s)]), P) for m, n in ((b, "before"), (a, "after"))]
    class Loop:
        def inv(self, L):
            C = Ctx(L.ex, L.entry, L.st, {}); s = z3.FreshConst(Str, "s"); vis = L.it().visited
            al = C.f("LazyFS", "allow_crash_fs_operations").l[0]
            return [("visited", z3.ForAll([s], z3.Implies(z3.Select(vis, s), z3.Select(al, s)), patterns=[z3.Select(vis, s)]))] + [("lists", z3.ForAll([s], z3.And(mhas(m, s) == z3.Select(vis, s), z3.Implies(mhas(m, s), msel(m, s).l[0] == 0)), patterns=[mhas(m, s)])) for m in crash_maps(C)]
    loops = {0: Loop()}

# ------------------------------------------------------------------ reorder (torn-seq) faults
def one_of_kind(C, path, k):
    """at most one fault of this kind per path (add_torn_op_fault and add_torn_seq_fault refuse a second one)"""
    v = faults_of(C, path, False); q, r = J(), J(); a = v.l[1]
    return [("one fault of a kind per path", z3.ForAll([q, r], z3.Implies(z3.And(0 <= q, q < v.l[0], 0 <= r, r < v.l[0], kind(C, z3.Select(a, q)) == k, kind(C, z3.Select(a, r)) == k), q == r), patterns=[z3.MultiPattern(z3.Select(a, q), z3.Select(a, r))]))]
def counters_ok(C, cls, fields=("counter",)):
    out = []
    for f in fields:
        c = C.ex.cell(C.st, cls + "." + f, INT, True)[0]; r = z3.FreshConst(I, "r")
        out.append(("counters do not overflow", z3.ForAll([r], z3.And(z3.Select(c, r) >= 0, z3.Select(c, r) < 2 ** 31 - 1), patterns=[z3.Select(c, r)])))
    return out
def cellv(C, name, old=False): return C.ex.cell(C.st0 if old else C.st, name, INT, True)[0]

class GetReorder(Contract):
    """counts the operation on the reorder fault of the path, which is returned"""
    name = "LazyFS::get_and_update_reorder_fault"; units = ("lazyfs",); props = ("C11", "C21"); modifies = ("ReorderF.counter",)
    def this(self, C): return LObj("LazyFS", None)
    def args(self, C, case): return {n: Val(STR, [S(n)]) for n in ("path", "op")}
    def pre(self, C):
        p = C.az("path"); C.g_("Fault.$kind", AII); C.ex.cell(C.st, "ReorderF.op", STR, True)
        return faults_wf(C, p) + one_of_kind(C, p, 1) + counters_ok(C, "ReorderF")
    def summary(self, C, n, v, ret):
        op = C.az("op"); a = v.l[1]; q, r = J(), z3.FreshConst(I, "r"); c, c0 = cellv(C, "ReorderF.counter"), cellv(C, "ReorderF.counter", True)
        hit = lambda x: z3.And(kind(C, x) == 1, C.f("ReorderF", "op", x, old=True).z == op)
        inq = z3.And(0 <= q, q < n); P = ("C11",)
        return [("the fault of the path counts the operation once and is returned", fa(q, z3.And(inq, hit(z3.Select(a, q))), z3.And(ret == z3.Select(a, q), z3.Select(c, z3.Select(a, q)) == z3.Select(c0, z3.Select(a, q)) + 1), [z3.Select(a, q)]), P),
                ("no other counter changes", z3.ForAll([r], z3.Or(z3.Select(c, r) == z3.Select(c0, r), z3.And(r == ret, ret != 0)), patterns=[z3.Select(c, r)]), P),
                ("what is returned is a fault of this path and operation", z3.Or(ret == 0, z3.Exists([q], z3.And(inq, z3.Select(a, q) == ret, hit(ret)))), P)]
    def post(self, C):
        f = C.f("LazyFS", "faults", old=True); p = C.az("path"); v = msel(f, p)
        return self.summary(C, z3.If(mhas(f, p), v.l[0], 0), v, C.ret.l[0])
    class Loop:
        def __init__(self, con): self.con = con
        def inv(self, L):
            C = Ctx(L.ex, L.ex.entry_state, L.st, {n: Val(STR, [S(n)]) for n in ("path", "op")})
            v = msel(L.ex._read(L.entry, LCell("LazyFS.faults")), C.az("path"))
            return self.con.summary(C, L.it().idx, v, L.bytype(("ptr", "ReorderF")).z)
    @property
    def loops(self): return {0: self.Loop(self)}

class RestartCounter(Contract):
    """the group starts anew: the counter of the path's reorder faults for this operation becomes 0"""
    name = "LazyFS::restart_counter"; units = ("lazyfs",); props = ("C11", "C21"); modifies = ("ReorderF.counter",)
    def this(self, C): return LObj("LazyFS", None)
    def args(self, C, case): return {n: Val(STR, [S(n)]) for n in ("path", "op")}
    def pre(self, C):
        C.g_("Fault.$kind", AII); C.ex.cell(C.st, "ReorderF.op", STR, True); C.ex.cell(C.st, "ReorderF.counter", INT, True)
        return faults_wf(C, C.az("path"))
    def summary(self, C, n, v):
        op = C.az("op"); a = v.l[1]; q, r = J(), z3.FreshConst(I, "r"); c, c0 = cellv(C, "ReorderF.counter"), cellv(C, "ReorderF.counter", True)
        hit = lambda x: z3.And(kind(C, x) == 1, C.f("ReorderF", "op", x, old=True).z == op); inq = z3.And(0 <= q, q < n); P = ("C11",)
        return [("the counters of the path's faults restart", fa(q, z3.And(inq, hit(z3.Select(a, q))), z3.Select(c, z3.Select(a, q)) == 0, [z3.Select(a, q)]), P),
                ("no other counter changes", z3.ForAll([r], z3.Or(z3.Select(c, r) == z3.Select(c0, r), z3.Exists([q], z3.And(inq, z3.Select(a, q) == r, hit(r)))), patterns=[z3.Select(c, r)]), P)]
    def post(self, C):
        f = C.f("LazyFS", "faults", old=True); p = C.az("path"); v = msel(f, p)
        return self.summary(C, z3.If(mhas(f, p), v.l[0], 0), v)
    class Loop:
        def __init__(self, con): self.con = con
        def inv(self, L):
            C = Ctx(L.ex, L.ex.entry_state, L.st, {n: Val(STR, [S(n)]) for n in ("path", "op")})
            return self.con.summary(C, L.it().idx, msel(L.ex._read(L.entry, LCell("LazyFS.faults")), C.az("path")))
    @property
    def loops(self): return {0: self.Loop(self)}

WRITE_CELLS = ("Write.path", "Write.buf", "Write.size", "Write.offset", "Write.$alive")
class CheckAndDelete(Contract):
    """a pending first write of the path is forgotten; the path is no longer reported as having a fault in progress"""
    name = "LazyFS::check_and_delete_pendingwrite"; units = ("lazyfs",); props = ("C11", "C18", "C21"); modifies = ("LazyFS.pending_writes", "LazyFS.injecting_fault"); min_rank = 1
    def this(self, C): return LObj("LazyFS", None)
    def args(self, C, case): return {"path": sarg("path")}
    def pre(self, C):
        m = C.f("LazyFS", "pending_writes"); s = z3.FreshConst(Str, "s"); al = C.g_("Write.$alive", AIB)
        return [("pending writes exist", fa(s, mhas(m, s), z3.And(msel(m, s).l[0] > 0, z3.Select(al, msel(m, s).l[0])), [mhas(m, s)]))]
    def post(self, C):
        m, m0 = C.f("LazyFS", "pending_writes"), C.f("LazyFS", "pending_writes", old=True); p = C.az("path"); s = z3.FreshConst(Str, "s"); P = ("C11",)
        v = C.f("LazyFS", "injecting_fault"); q = J()
        return [("tells whether a write was pending", C.ret.z == mhas(m0, p), P),
                ("only the pending write of this path is forgotten", z3.ForAll([s], z3.And(mhas(m, s) == z3.And(mhas(m0, s), s != p), z3.Implies(mhas(m, s), z3.Select(m.l[1], s) == z3.Select(m0.l[1], s))), patterns=[mhas(m, s)]), P),
                ("the path is no longer listed as having a fault in progress", fa(q, z3.And(0 <= q, q < v.l[0]), z3.Select(v.l[1], q) != p, [z3.Select(v.l[1], q)]), ("C11", "C15"))]

class WriteCtor(Contract):
    """the pending write keeps its own copy of the path and the data"""
    name = "Write::Write"; nargs = 4; units = ("lazyfs",); props = ("C11", "C21"); modifies = WRITE_CELLS
    def pick(self, f): return len(f.params) == 4
    def use_at_call(self, ex, st, fn, this, args): return len(args) == 4
    def this(self, C): return LObj("Write", z3.Int("this"))
    def args(self, C, case):
        ex, st = C.ex, C.st; st.assume(z3.Int("this") > 0)
        return {"path": sarg("path"), "buf": Val(BUF, [z3.Int("arg:buf"), z3.Int("arg:buf_off")]), "size": iarg(ex, st, ULONG, "size"), "offset": iarg(ex, st, LONG, "offset")}
    def pre(self, C):
        b = C.a("buf"); sz = C.az("size")
        return [("size fits", sz < 2 ** 31), ("the data is readable", z3.And(b.l[0] > 0, b.l[1] >= 0, z3.Select(C.ex.buflen(C.st), b.l[0]) >= b.l[1] + sz))]
    def mod_cells(self, C): return list(self.modifies) + ["mem", "buflen"]
    def copy(self, C, n):
        r = C.this.ref; b = C.a("buf"); d = C.f("Write", "buf", r); q = J(); m, m0 = C.ex.mem(C.st), C.ex.mem(C.st0)
        return fa(q, z3.And(0 <= q, q < n), z3.Select(z3.Select(m, d.l[0]), d.l[1] + q) == z3.Select(z3.Select(m0, b.l[0]), b.l[1] + q), [z3.Select(z3.Select(m, d.l[0]), d.l[1] + q)])
    def others(self, C):
        r = C.this.ref; d = C.f("Write", "buf", r).l[0]; q = J(); m, m0 = C.ex.mem(C.st), C.ex.mem(C.st0); l, l0 = C.ex.buflen(C.st), C.ex.buflen(C.st0)
        return z3.And(z3.Select(l0, d) == -1, z3.Select(l, d) == C.az("size"), d > 0, z3.ForAll([q], z3.Implies(q != d, z3.And(z3.Select(m, q) == z3.Select(m0, q), z3.Select(l, q) == z3.Select(l0, q))), patterns=[z3.Select(m, q), z3.Select(l, q)]))
    def post(self, C):
        r = C.this.ref; P = ("C11",); f = lambda n: C.f("Write", n, r); k = z3.FreshConst(I, "r")
        oth = [z3.ForAll([k], z3.Implies(k != r, z3.Select(x, k) == z3.Select(y, k)), patterns=[z3.Select(x, k)]) for n in ("path", "buf", "size", "offset") for x, y in zip(C.st.heap["Write." + n], C.ex.cell(C.st0, "Write." + n, C.ex.cell_type("Write", n), True))]
        return [("path, size and offset are kept", z3.And(f("path").z == C.az("path"), f("size").z == C.az("size"), f("offset").z == C.az("offset"), f("buf").l[1] == 0), P),
                ("the data is copied", self.copy(C, C.az("size")), P), ("other memory stays", self.others(C), P), ("other writes stay", z3.And(oth), P)]
    class Loop:
        def __init__(self, con): self.con = con
        def inv(self, L):
            C = Ctx(L.ex, L.ex.entry_state, L.st, {"path": sarg("path"), "buf": Val(BUF, [z3.Int("arg:buf"), z3.Int("arg:buf_off")]), "size": Val(ULONG, [z3.Int("arg:size")]), "offset": Val(LONG, [z3.Int("arg:offset")])})
            C.this = LObj("Write", z3.Int("this")); i = L.z("i")
            return [("copied so far", z3.And(0 <= i, i <= C.az("size"), self.con.copy(C, i))), ("other memory", self.con.others(C))]
    @property
    def loops(self): return {0: self.Loop(self)}
    def apply(self, ex, st, fn, this, args, n):
        for k, t in (("path", STR), ("buf", BUF), ("size", ULONG), ("offset", LONG)): ex.cell(st, "Write." + k, t, True)
        ex.mem(st); ex.buflen(st)
        st0 = st.copy(); C = Ctx(ex, st0, st, dict(zip(["path", "buf", "size", "offset"], args))); C.this = this
        for lab, f in self.pre(C): ex.oblige(st, "call %s: %s" % (self.name, lab), f, "pre", n, ())
        for k in self.mod_cells(C):
            if k.endswith("$alive"): continue
            st.heap[k] = [fresh_leaf(x.sort(), k + "_new") for x in st.heap[k]]
        for lab, f, _ in self.post(C): st.assume(f)
        return None

class Torn(Contract):
    def apply(self, ex, st, fn, this, args, n):
        """as LazyFS::lfs_write sees it: the preconditions on the faults configured are not repeated there"""
        self.check_locks(ex, st, n); r = fresh_leaf(B, "fired"); st.trace.append((fn.name.split("::")[-1], [args[0].z] + list(args[1].l) + [args[2].z, args[3].z, r]))
        for k in list(st.heap):
            if k.startswith(("LazyFS.", "ReorderF.", "SplitWriteF.", "Write.", "fs.data", "fs.size", "fs.fd", "fs.isopen")): st.heap[k] = [fresh_leaf(x.sort(), k + "_torn") for x in st.heap[k]]
        return Val(BOOL, [r])
class PersistWrite(Torn):
    """torn-seq fault: which writes of the group reach the disk, with which bytes, and when the crash is armed"""
    name = "LazyFS::persist_write"; units = ("lazyfs",); props = ("C11", "C18", "C21"); modifies = None; min_rank = 1
    opts = {"open_ok": True}
    def this(self, C): return LObj("LazyFS", None)
    def args(self, C, case):
        ex, st = C.ex, C.st
        return {"path": sarg("path"), "buf": Val(BUF, [z3.Int("arg:buf"), z3.Int("arg:buf_off")]), "size": iarg(ex, st, ULONG, "size"), "offset": iarg(ex, st, LONG, "offset")}
    def pre(self, C):
        ex, st = C.ex, C.st; p = C.az("path"); b, sz = C.a("buf"), C.az("size"); a = faults_of(C, p, False).l[1]; q, s = J(), z3.FreshConst(Str, "s")
        C.g_("Fault.$kind", AII); ex.cell(st, "ReorderF.op", STR, True)
        pv = C.ex.cell(st, "ReorderF.persist", ("vec", INT), True); m = C.f("LazyFS", "pending_writes"); al = C.g_("Write.$alive", AIB)
        cm = crash_maps(C); w = lit("write"); pw = lambda s, f: C.f("Write", f, msel(m, s).l[0])
        r = z3.FreshConst(I, "r")
        return (lfs_sets(C) + faults_wf(C, p) + one_of_kind(C, p, 1) + counters_ok(C, "ReorderF", ("counter", "group_counter")) +
            [("every operation has its lists", z3.And([z3.And(mhas(x, w), msel(x, w).l[0] >= 0) for x in cm])),
             ("persist lists are not empty", z3.ForAll([r], z3.And(z3.Select(pv[0], r) >= 1, z3.Select(pv[0], r) < 2 ** 31), patterns=[z3.Select(pv[0], r)])),
             ("size fits", z3.And(sz < 2 ** 31, C.az("offset") >= 0, C.az("offset") < 2 ** 62)), ("the data is readable", z3.And(b.l[0] > 0, b.l[1] >= 0, z3.Select(ex.buflen(st), b.l[0]) >= b.l[1] + sz)),
             ("pending writes exist and hold their data", fa(s, mhas(m, s), z3.And(msel(m, s).l[0] > 0, z3.Select(al, msel(m, s).l[0]), pw(s, "path").z == s, pw(s, "size").z >= 0, pw(s, "size").z < 2 ** 31, pw(s, "buf").l[0] > 0, pw(s, "buf").l[1] == 0, pw(s, "offset").z >= 0, pw(s, "offset").z < 2 ** 62,
                                                              z3.Select(ex.buflen(st), pw(s, "buf").l[0]) >= pw(s, "size").z), [mhas(m, s)]))])
    def post(self, C):
        P = ("C11",); out = []; p = C.az("path"); f0 = C.f("LazyFS", "faults", old=True); v = faults_of(C, p); a = v.l[1]; n = z3.If(mhas(f0, p), v.l[0], 0)
        m0, m = C.f("LazyFS", "pending_writes", old=True), C.f("LazyFS", "pending_writes"); hasp = mhas(m0, p); pend = msel(m0, p).l[0]
        fld = lambda nm, r: C.f("ReorderF", nm, r, old=True)
        wr = events(C, {"pwrite"}); arm = events(C, {"armed"}); op = events(C, {"open"}); cl = events(C, {"close"})
        hit = lambda r: z3.And(kind(C, r) == 1, fld("op", r).z == lit("write")); q = J()
        none = z3.Not(z3.Exists([q], z3.And(0 <= q, q < n, hit(z3.Select(a, q)))))
        if not wr and not arm:
            quiet = z3.BoolVal(True)
        out.append(("without a fault on the path nothing happens", z3.Implies(none, z3.And(z3.BoolVal(not wr and not arm), z3.Not(C.ret.z), same(m.l, m0.l))), P))
        def case(r):
            cnt = fld("counter", r).z + 1; g = fld("group_counter", r).z + z3.If(cnt == 2, 1, 0); due = g == fld("occurrence", r).z
            pv = fld("persist", r); last = z3.Select(pv.l[1], pv.l[0] - 1); k = J()
            inp = z3.Exists([k], z3.And(0 <= k, k < pv.l[0], z3.Select(pv.l[1], k) == cnt))
            e1 = z3.And(hasp, due); early = z3.And(e1, last == 1); e2 = z3.And(inp, cnt != 1, due, z3.Not(early))
            return cnt, g, due, inp, e1, early, e2, last
        b = C.a("buf"); mem0 = C.ex.mem(C.st0)
        def wr_is(i, r, pending):
            if i >= len(wr): return z3.BoolVal(False)
            e = wr[i][1]
            if pending: return z3.And(op[i][1][0] == C.f("Write", "path", pend, old=True).z, e[0] == op[i][1][3], e[1] == z3.Select(mem0, C.f("Write", "buf", pend, old=True).l[0]), e[2] == 0, e[3] == C.f("Write", "size", pend, old=True).z, e[4] == C.f("Write", "offset", pend, old=True).z)
            return z3.And(op[i][1][0] == p, e[0] == op[i][1][3], e[1] == z3.Select(mem0, b.l[0]), e[2] == b.l[1], e[3] == C.az("size"), e[4] == C.az("offset"))
        def rule(lab, body):
            q = J(); r = z3.Select(a, q)
            out.append((lab, fa(q, z3.And(0 <= q, q < n, hit(r)), body(r), [r]), P))
        nw, na = z3.IntVal(len(wr)), z3.IntVal(len(arm))
        def c1(r): cnt, g, due, inp, e1, early, e2, last = case(r); return nw == z3.If(e1, 1, 0) + z3.If(e2, 1, 0)
        rule("a write reaches the disk only when its group is due and it is listed", c1)
        def c2(r): cnt, g, due, inp, e1, early, e2, last = case(r); return z3.And(z3.Implies(e1, wr_is(0, r, True)), z3.Implies(z3.And(e2, z3.Not(e1)), wr_is(0, r, False)), z3.Implies(z3.And(e1, e2), wr_is(1, r, False)))
        rule("the bytes, size and offset of the persisted writes are those of the operation", c2)
        def c3(r):
            cnt, g, due, inp, e1, early, e2, last = case(r); crash = z3.Or(early, z3.And(e2, cnt == last))
            exp = [lit("after"), lit("write"), re_escape(p), lit("none")]
            return z3.And(na == z3.If(crash, 1, 0), z3.And([same(x[1], exp) for x in arm] or [z3.BoolVal(True)]), C.ret.z == z3.And(e2, cnt == last))
        rule("the crash is armed with the last listed write, for exactly this path", c3)
        def c4(r):
            cnt, g, due, inp, e1, early, e2, last = case(r); keep = z3.And(inp, cnt == 1)
            w = msel(m, p).l[0]; F = lambda nm: C.f("Write", nm, w); k = J(); bb = F("buf")
            return z3.And(z3.Implies(z3.Not(early), mhas(m, p) == keep),
                          z3.Implies(keep, z3.And(F("path").z == p, F("size").z == C.az("size"), F("offset").z == C.az("offset"),
                             fa(k, z3.And(0 <= k, k < C.az("size")), z3.Select(z3.Select(C.ex.mem(C.st), bb.l[0]), bb.l[1] + k) == z3.Select(z3.Select(mem0, b.l[0]), b.l[1] + k), [z3.Select(z3.Select(C.ex.mem(C.st), bb.l[0]), bb.l[1] + k)]))))
        rule("the first write of a group is kept pending exactly when it is listed, with its bytes", lambda r: z3.Implies(z3.Not(z3.And(case(r)[3], case(r)[0] == 1, case(r)[5])), c4(r)))
        def c5(r):
            cnt, g, due, inp, e1, early, e2, last = case(r)
            return z3.And(C.f("ReorderF", "counter", r).z == cnt, C.f("ReorderF", "group_counter", r).z == g)
        rule("the write is counted once, and a group when its second write arrives", c5)
        out.append(("files opened here are closed", z3.And(z3.BoolVal(len(op) == len(cl) == len(wr)), z3.And([x[1][3] == y[1][0] for x, y in zip(op, cl)] or [z3.BoolVal(True)])), P))
        s = z3.FreshConst(Str, "s")
        out.append(("pending writes of other paths stay", fa(s, s != p, z3.And([z3.Select(x, s) == z3.Select(y, s) for x, y in zip(m.l, m0.l)]), [mhas(m, s)]), P))
        return out

# ------------------------------------------------------------------ split (torn-op) faults
psum = z3.Function("psum", AII, I, I)
class SplitWrite(Torn):
    """torn-op fault: exactly the listed parts of the write reach the disk"""
    name = "LazyFS::split_write"; units = ("lazyfs",); props = ("C10", "C18", "C21"); modifies = None; min_rank = 2
    opts = {"open_ok": True}
    def this(self, C): return LObj("LazyFS", None)
    args = PersistWrite.args
    def pre(self, C):
        ex, st = C.ex, C.st; p = C.az("path"); b, sz = C.a("buf"), C.az("size"); r = z3.FreshConst(I, "r"); i = J(); w = lit("write")
        C.g_("Fault.$kind", AII)
        pv = ex.cell(st, "SplitWriteF.persist", ("vec", INT), True); pb = ex.cell(st, "SplitWriteF.parts_bytes", ("vec", INT), True); pt = ex.cell(st, "SplitWriteF.parts", INT, True)[0]
        n = z3.If(z3.Select(pt, r) == -1, z3.Select(pb[0], r), z3.Select(pt, r)); A = z3.Select(pb[1], r)
        return (lfs_sets(C) + faults_wf(C, p) + one_of_kind(C, p, 2) + counters_ok(C, "SplitWriteF") +
            [("every operation has its lists", z3.And([z3.And(mhas(x, w), msel(x, w).l[0] >= 0) for x in crash_maps(C)])),
             ("size fits", z3.And(sz < 2 ** 31, C.az("offset") >= 0, C.az("offset") < 2 ** 61)), ("the data is readable", z3.And(b.l[0] > 0, b.l[1] >= 0, b.l[1] < 2 ** 31, z3.Select(ex.buflen(st), b.l[0]) >= b.l[1] + sz)),
             ("validated faults: lengths", z3.ForAll([r], z3.And(z3.Select(pv[0], r) >= 0, z3.Select(pv[0], r) < 2 ** 31, z3.Select(pb[0], r) >= 0, z3.Select(pb[0], r) < 2 ** 31, z3.Or(z3.Select(pt, r) == -1, z3.Select(pt, r) > 0)), patterns=[z3.Select(pv[0], r), z3.Select(pb[0], r), z3.Select(pt, r)])),
             ("validated faults: listed parts exist", z3.ForAll([r, i], z3.Implies(z3.And(0 <= i, i < z3.Select(pv[0], r)), z3.And(z3.Select(z3.Select(pv[1], r), i) >= 1, z3.Select(z3.Select(pv[1], r), i) <= n)), patterns=[z3.Select(z3.Select(pv[1], r), i)])),
             ("validated faults: parts are positive", z3.ForAll([r, i], z3.Implies(z3.And(0 <= i, i < z3.Select(pb[0], r)), z3.And(z3.Select(A, i) > 0, psum(A, i + 1) == psum(A, i) + z3.Select(A, i), psum(A, i) >= 0, psum(A, i + 1) <= psum(A, z3.Select(pb[0], r)))), patterns=[z3.Select(A, i)])),
             ("parts add up to less than 2 GiB", z3.ForAll([r], z3.And(psum(A, 0) == 0, psum(A, z3.Select(pb[0], r)) < 2 ** 31, psum(A, z3.Select(pb[0], r)) >= 0), patterns=[z3.Select(pb[1], r)]))])
    def lemmas(self, C):
        """parts of equal size stay inside the write"""
        ex = C.ex; k, n, e, sz = z3.Ints("k n e sz"); r = z3.FreshConst(I, "r"); i = J(); st = C.st
        pv = ex.cell(st, "SplitWriteF.persist", ("vec", INT), True); pt = ex.cell(st, "SplitWriteF.parts", INT, True)[0]
        f = lambda k, n, sz: z3.Implies(z3.And(1 <= k, k <= n, sz >= 0), z3.And((k - 1) * (sz / n) >= 0, sz / n >= 0, (k - 1) * (sz / n) + sz / n <= sz, z3.Implies(k == n, (k - 1) * (sz / n) + sz / n + sz % n <= sz)))
        g = z3.Implies(z3.And(1 <= k, k <= n, e >= 0), z3.And((k - 1) * e >= 0, (k - 1) * e + e <= n * e))     # the only non-linear step
        use = z3.ForAll([r, i], f(z3.Select(z3.Select(pv[1], r), i), z3.Select(pt, r), C.az("size")), patterns=[z3.Select(z3.Select(pv[1], r), i)])
        return [("part bounds, product", g, z3.BoolVal(True)), ("part bounds", z3.Implies(z3.substitute(g, (e, sz / n)), f(k, n, sz)), use)]
    @staticmethod
    def part(C, r, p):
        """(start, length) of part p of the write"""
        pt = C.f("SplitWriteF", "parts", r, old=True).z; pb = C.f("SplitWriteF", "parts_bytes", r, old=True); sz = C.az("size"); A = pb.l[1]
        each = sz / pt
        return (z3.If(pt == -1, psum(A, p - 1), (p - 1) * each), z3.If(pt == -1, z3.Select(A, p - 1), each + z3.If(p == pt, sz % pt, 0)))
    @staticmethod
    def disk(C, r, n, ino, st0=None):
        """after n listed parts: their bytes are on disk, every other byte is as before"""
        pv = C.f("SplitWriteF", "persist", r, old=True).l[1]; off = C.az("offset"); b = C.a("buf"); x, j, k = J(), J(), J()
        D = z3.Select(lib.F_DATA(C.ex, C.st), ino); D0 = z3.Select(lib.F_DATA(C.ex, st0 or C.st0), ino); src = z3.Select(C.ex.mem(C.st0), b.l[0])
        def inp(x, j): s, l = SplitWrite.part(C, r, z3.Select(pv, j)); return z3.And(x >= off + s, x < off + s + l)
        P = ("C10",)
        return [("listed parts are on disk", z3.ForAll([x, j], z3.Implies(z3.And(0 <= j, j < n, inp(x, j)), z3.Select(D, x) == z3.Select(src, b.l[1] + x - off)), patterns=[z3.MultiPattern(z3.Select(D, x), z3.Select(pv, j))]), P),
                ("no byte outside the listed parts changes", z3.ForAll([x], z3.Or(z3.Select(D, x) == z3.Select(D0, x), z3.Exists([j], z3.And(0 <= j, j < n, inp(x, j)))), patterns=[z3.Select(D, x)]), P),
                ("other files stay", z3.ForAll([k], z3.Implies(k != ino, z3.And(z3.Select(lib.F_DATA(C.ex, C.st), k) == z3.Select(lib.F_DATA(C.ex, st0 or C.st0), k), z3.Select(lib.F_SIZE(C.ex, C.st), k) == z3.Select(lib.F_SIZE(C.ex, st0 or C.st0), k))), patterns=[z3.Select(lib.F_DATA(C.ex, C.st), k)]), P)]
    def post(self, C):
        P = ("C10",); out = []; p = C.az("path"); f0 = C.f("LazyFS", "faults", old=True); v = faults_of(C, p); a = v.l[1]; n = z3.If(mhas(f0, p), v.l[0], 0); q = J()
        arm = events(C, {"armed"}); ino = z3.Select(lib.F_INO(C.ex, C.st0), p); k = J()
        hit = lambda r: kind(C, r) == 2
        same_disk = z3.And(lib.F_DATA(C.ex, C.st) == lib.F_DATA(C.ex, C.st0), lib.F_SIZE(C.ex, C.st) == lib.F_SIZE(C.ex, C.st0))
        none = z3.Not(z3.Exists([q], z3.And(0 <= q, q < n, hit(z3.Select(a, q)))))
        out.append(("without a torn-op fault on the path nothing happens", z3.Implies(none, z3.And(z3.BoolVal(not arm), z3.Not(C.ret.z), same_disk)), P))
        def rule(lab, body):
            q = J(); r = z3.Select(a, q); out.append((lab, fa(q, z3.And(0 <= q, q < n, hit(r)), body(r), [r]), P))
        def due(r):
            pb = C.f("SplitWriteF", "parts_bytes", r, old=True); pv = C.f("SplitWriteF", "persist", r, old=True)
            fits = z3.Or(C.f("SplitWriteF", "parts", r, old=True).z != -1, psum(pb.l[1], pb.l[0]) == C.az("size"), pv.l[0] == 0)
            return z3.And(C.f("SplitWriteF", "counter", r, old=True).z + 1 == C.f("SplitWriteF", "occurrence", r, old=True).z, fits)
        rule("the fault takes effect exactly on its write, when the parts make up the write", lambda r: C.ret.z == due(r))
        rule("the write is counted once", lambda r: C.f("SplitWriteF", "counter", r).z == C.f("SplitWriteF", "counter", r, old=True).z + 1)
        for i, what in enumerate(("exactly the listed parts are on disk", "no byte outside the listed parts changes", "other files stay")):
            rule(what, lambda r, i=i: z3.Implies(C.ret.z, self.disk(C, r, C.f("SplitWriteF", "persist", r, old=True).l[0], ino)[i][1]))
        out.append(("when the fault does not take effect the disk stays", z3.Implies(z3.Not(C.ret.z), same_disk), P))
        exp = [lit("after"), lit("write"), re_escape(p), lit("none")]
        out.append(("the crash is armed exactly when the fault took effect, for exactly this path", z3.And(C.ret.z == z3.BoolVal(len(arm) == 1), z3.BoolVal(len(arm) <= 1), z3.And([same(x[1], exp) for x in arm] or [z3.BoolVal(True)])), P))
        return out
    @staticmethod
    def lctx(L):
        ex = L.ex
        return Ctx(ex, ex.entry_state, L.st, {"path": sarg("path"), "buf": Val(BUF, [z3.Int("arg:buf"), z3.Int("arg:buf_off")]), "size": Val(ULONG, [z3.Int("arg:size")]), "offset": Val(LONG, [z3.Int("arg:offset")])})
    @staticmethod
    def infos(L, C, n, base=None):
        pi = L.bytype(("vec", ("tup", LONG, ULONG, LONG))); r = L.bytype(("ptr", "SplitWriteF")).z; pv = C.f("SplitWriteF", "persist", r, old=True).l[1]; j = J(); k = z3.Select(pv, j)
        s, l = SplitWrite.part(C, r, k)
        return [("parts collected so far", z3.And(pi.l[0] == n, fa(j, z3.And(0 <= j, j < n), z3.And(z3.Select(pi.l[1], j) == s, z3.Select(pi.l[2], j) == l, z3.Select(pi.l[3], j) == C.az("offset") + s, s >= 0, l >= 0, s + l <= C.az("size")), [z3.Select(pi.l[1], j), z3.Select(pv, j)])))]
    class Parts:
        def inv(self, L):
            C = SplitWrite.lctx(L); r = L.bytype(("ptr", "SplitWriteF")).z; pb = C.f("SplitWriteF", "parts_bytes", r, old=True); n = L.it().idx
            return SplitWrite.infos(L, C, n) + [("the parts make up the write", z3.Or(n == 0, psum(pb.l[1], pb.l[0]) == C.az("size")))]
    class Sum:
        def inv(self, L):
            C = SplitWrite.lctx(L); r = L.bytype(("ptr", "SplitWriteF")).z; pb = C.f("SplitWriteF", "parts_bytes", r, old=True); i = L.z("i"); p = L.z("p")
            return [("prefix sums", z3.And(0 <= i, i <= pb.l[0], L.z("sum") == psum(pb.l[1], i), L.z("buf_i") == psum(pb.l[1], z3.If(i < p - 1, i, p - 1)), 0 <= psum(pb.l[1], i), psum(pb.l[1], i) <= psum(pb.l[1], pb.l[0]), 0 <= L.z("buf_i"), L.z("buf_i") <= psum(pb.l[1], i)))]
    class Equal:
        def inv(self, L):
            C = SplitWrite.lctx(L); i = L.z("p_i"); r = L.bytype(("ptr", "SplitWriteF")).z; pt = C.f("SplitWriteF", "parts", r, old=True).z; sz = C.az("size")
            n = C.f("SplitWriteF", "persist", r, old=True).l[0]; return [("index", z3.And(0 <= i, i <= n, n < 2 ** 31))] + SplitWrite.infos(L, C, i)
    class Out:
        def inv(self, L):
            C = SplitWrite.lctx(L); r = L.bytype(("ptr", "SplitWriteF")).z; fd = z3.Select(lib.F_FD(L.ex, L.st), L.z("fd"))
            return SplitWrite.disk(C, r, L.it().idx, fd, L.entry)
    @property
    def loops(self): return {0: "search", 1: self.Parts(), 2: self.Sum(), 3: self.Equal(), 4: self.Out()}

# ------------------------------------------------------------------ torn faults added by command
DIGITS = "\\d+"
def nums(s): return lib.rtok_n(lit(DIGITS), s)
def num(s, j): return lib.str_num(lib.rtok(lit(DIGITS), s, j))
class Numbers:
    """reads the numbers of a text, one after the other"""
    def inv(self, L):
        def mine(pred): return [L.st.env[k] for kd, k in L.mod if kd == "env" and isinstance(L.st.env.get(k), Val) and pred(L.st.env[k].t)]
        its = mine(lambda t: t == ("rtok",)); vs = mine(lambda t: t[0] == "vec")
        its0 = [L.entry.env[k] for kd, k in L.mod if kd == "env" and isinstance(L.st.env.get(k), Val) and L.st.env[k].t == ("rtok",)]
        if len(its) != 1 or len(vs) != 1: raise Unsupported("loop over numbers")
        rx, s, pos = its[0].l; v = vs[0]; q = J()
        return [("same text", z3.And(rx == its0[0].l[0], s == its0[0].l[1])), ("position", z3.And(pos >= 0, pos <= lib.rtok_n(rx, s), v.l[0] == pos)),
                ("numbers so far", fa(q, z3.And(0 <= q, q < pos), z3.Select(v.l[1], q) == lib.str_num(lib.rtok(rx, s, q)), [z3.Select(v.l[1], q)]))]
class AddTorn(Contract):
    units = ("lazyfs",); shares = 2; kindno = 0; cls = ""
    def this(self, C): return LObj("LazyFS", None)
    def mod_cells(self, C): return ["LazyFS.faults", "Fault.$kind", "Fault.$alive", "Fault.type"] + [k for k in C.st.heap if k.startswith(self.cls + ".")]
    def args(self, C, case): return {n: Val(STR, [S(n)]) for n in self.given}
    def pre(self, C):
        p = C.az("path"); v = faults_of(C, p, False); q = J(); al = C.g_("Fault.$alive", z3.ArraySort(I, B)); C.g_("Fault.$kind", AII); a = v.l[1]; s1 = z3.FreshConst(Str, "s")
        for n in self.texts: C.st.assume(nums(C.az(n)) < 2 ** 31 - 2)
        return faults_wf(C, p) + one_of_kind(C, p, self.kindno) + [("room", v.l[0] < 2 ** 31 - 2), ("faults are allocated", fa(q, z3.And(0 <= q, q < v.l[0]), z3.Select(al, z3.Select(a, q)), [z3.Select(a, q)]))]
    def post(self, C):
        p = C.az("path"); f, f0 = C.f("LazyFS", "faults"), C.f("LazyFS", "faults", old=True); v = msel(f, p); v0 = msel(f0, p); n0 = z3.If(mhas(f0, p), v0.l[0], 0)
        ok = C.ret.l[0] == 0; new = z3.Select(v.l[1], n0); q, r = J(), J(); P = self.props[:2]; s = z3.FreshConst(Str, "s")
        k = lambda x, old=False: z3.Select(C.g_("Fault.$kind", AII, old=old), x)
        dup = z3.Exists([q], z3.And(0 <= q, q < n0, k(z3.Select(v0.l[1], q), True) == self.kindno))
        return [("accepted exactly when well-formed and the first of its kind for the path", ok == z3.And(self.wf(C), z3.Not(dup)), P),
                ("an accepted fault is the last of its path", z3.Implies(ok, z3.And(mhas(f, p), v.l[0] == n0 + 1, k(new) == self.kindno)), P)] + \
               [(lab, z3.Implies(ok, g), P) for lab, g in self.fields(C, new)] + \
               [("earlier faults of the path stay", fa(q, z3.And(ok, 0 <= q, q < n0), z3.Select(v.l[1], q) == z3.Select(v0.l[1], q), [z3.Select(v.l[1], q)]), P),
                ("a rejected fault changes nothing", z3.Implies(z3.Not(ok), z3.And(f.l[0] == f0.l[0], z3.Implies(mhas(f0, p), z3.And([x == y for x, y in zip(v.l, v0.l)])))), P),
                ("other paths keep their faults", fa(s, s != p, z3.And(mhas(f, s) == mhas(f0, s), z3.And([z3.Select(x, s) == z3.Select(y, s) for x, y in zip(f.l[1:], f0.l[1:])])), [z3.Select(f.l[0], s)]), P),
                ("the kinds of earlier faults stay", fa(q, z3.And(0 <= q, q < n0), k(z3.Select(v0.l[1], q)) == k(z3.Select(v0.l[1], q), True), [z3.Select(v0.l[1], q)]), P)] + \
               [(lab, z3.Implies(z3.Or(mhas(f0, p), ok), g), P) for lab, g in faults_wf(C, p)[1:] + one_of_kind(C, p, self.kindno)]
    class Dup:
        def __init__(self, con): self.con = con
        def inv(self, L):
            C = Ctx(L.ex, L.entry, L.st, {}); it = L.it(); v = msel(L.ex._read(L.entry, LCell("LazyFS.faults")), S("path")); q = J(); ok = L.z("valid_fault"); e = L.v("errors"); kd = C.g_("Fault.$kind", AII)
            return [("no fault of the kind so far", z3.Implies(ok, fa(q, z3.And(0 <= q, q < it.idx), z3.Select(kd, z3.Select(v.l[1], q)) != self.con.kindno, [z3.Select(v.l[1], q)]))),
                    ("one was found", z3.Implies(z3.Not(ok), z3.Exists([q], z3.And(0 <= q, q < it.idx, z3.Select(kd, z3.Select(v.l[1], q)) == self.con.kindno)))), ("errors", z3.And(e.l[0] >= 0, e.l[0] <= it.idx, (e.l[0] == 0) == ok))]
class AddTornSeq(AddTorn):
    """a torn-seq fault is added as given, its writes in order"""
    name = "LazyFS::add_torn_seq_fault"; props = ("C14", "C11", "C21"); kindno = 1; cls = "ReorderF"; given = ("path", "op", "persist"); texts = ("persist",)
    def wf(self, C):
        q = J(); s = C.az("persist"); return z3.And(C.az("op") == lit("write"), fa(q, z3.And(0 <= q, q < nums(s)), num(s, q) > 0, [lib.rtok(lit(DIGITS), s, q)]))
    def fields(self, C, new):
        q, r = J(), J(); s = C.az("persist"); F = lambda n: C.f("ReorderF", n, new); pv = F("persist"); at = lambda j: z3.Select(pv.l[1], j)
        return [("the operation is the given one", F("op").z == C.az("op")), ("the first group, counted from the start", z3.And(F("occurrence").z == 1, F("counter").z == 0, F("group_counter").z == 0)),
                ("as many writes as given", pv.l[0] == nums(s)), ("every given write is selected", fa(q, z3.And(0 <= q, q < nums(s)), z3.Exists([r], z3.And(0 <= r, r < pv.l[0], at(r) == num(s, q))), [lib.rtok(lit(DIGITS), s, q)])),
                ("only given writes are selected", fa(q, z3.And(0 <= q, q < pv.l[0]), z3.Exists([r], z3.And(0 <= r, r < nums(s), at(q) == num(s, r))), [at(q)])),
                ("in order", fa([q, r], z3.And(0 <= q, q <= r, r < pv.l[0]), at(q) <= at(r), [z3.MultiPattern(at(q), at(r))]))]
    @property
    def loops(self): return {0: Numbers(), 1: self.Dup(self)}
class AddTornOp(AddTorn):
    """a torn-op fault is added as given"""
    name = "LazyFS::add_torn_op_fault"; props = ("C14", "C10", "C21"); kindno = 2; cls = "SplitWriteF"; given = ("path", "parts", "parts_bytes", "persist"); texts = ("persist", "parts_bytes")
    def wf(self, C):
        q, r = J(), J(); s, pb = C.az("persist"), C.az("parts_bytes"); parts = C.az("parts"); hasp = parts != lit("none"); np = lib.str_num(parts); n = z3.If(hasp, np, z3.If(pb == lit("none"), 0, nums(pb)))
        return z3.And(z3.Implies(hasp, np > 0), z3.Implies(z3.And(z3.Not(hasp), pb != lit("none")), fa(r, z3.And(0 <= r, r < nums(pb)), num(pb, r) > 0, [lib.rtok(lit(DIGITS), pb, r)])),
                      fa(q, z3.And(0 <= q, q < nums(s)), z3.And(num(s, q) > 0, num(s, q) <= n), [lib.rtok(lit(DIGITS), s, q)]))
    def fields(self, C, new):
        q = J(); s, pb = C.az("persist"), C.az("parts_bytes"); parts = C.az("parts"); hasp = parts != lit("none"); F = lambda n: C.f("SplitWriteF", n, new); pv, pbv = F("persist"), F("parts_bytes")
        return [("the first write, counted from the start", z3.And(F("occurrence").z == 1, F("counter").z == 0)), ("the parts are the given ones", z3.If(hasp, F("parts").z == lib.str_num(parts), z3.And(F("parts").z == -1, pbv.l[0] == z3.If(pb == lit("none"), 0, nums(pb))))),
                ("the sizes are the given ones", fa(q, z3.And(z3.Not(hasp), 0 <= q, q < pbv.l[0]), z3.Select(pbv.l[1], q) == num(pb, q), [z3.Select(pbv.l[1], q)])),
                ("the selected parts are the given ones", z3.And(pv.l[0] == nums(s), fa(q, z3.And(0 <= q, q < pv.l[0]), z3.Select(pv.l[1], q) == num(s, q), [z3.Select(pv.l[1], q)])))]
    @property
    def loops(self): return {0: Numbers(), 1: Numbers(), 2: self.Dup(self)}
def contracts(): return [AddTornSeq(), AddTornOp(), AddCrashFault(), LazyFSCtor(), GetReorder(), RestartCounter(), CheckAndDelete(), WriteCtor(), PersistWrite(), SplitWrite()]
