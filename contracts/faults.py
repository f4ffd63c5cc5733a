"""Fault validation (libs/libpcache/src/faults.cpp): C14."""
import z3
from sym import *
from verify import Contract, Ctx
P = ("C14",)
OPS = ["unlink", "truncate", "fsync", "write", "create", "access", "open", "read", "rename", "link", "symlink"]
MULTI = ["rename", "link", "symlink"]
def one_of(s, l): return z3.Or([s == lit(x) for x in l])
def vec_arg(st, t, name):
    v = fresh(("vec", t), name); st.assume(z3.And(v.l[0] >= 0, v.l[0] < 2 ** 31)); return v
def int_arg(ex, st, t, name):
    v = fresh(t, name); ex.note_range(st, v); return v
def forall_in(v, pred):
    q = z3.FreshConst(I, "j"); return z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < v.l[0]), pred(vget(v, q).l[0])), patterns=[z3.Select(v.l[1], q)])

class ClearFValidate(Contract):
    name = "ClearF::validate"; units = ("faults",); props = P
    def this(self, C): return LObj("ClearF", z3.Int("this"))
    def args(self, C, case): C.st.assume(z3.Int("this") > 0); return {}
    def wf(self, C):
        r = z3.Int("this") if not hasattr(C, "ref") else C.ref
        op, tm, fr, to, oc = [C.f("ClearF", x, r, old=True).z for x in ("op", "timing", "from", "to", "occurrence")]
        none = lit("none")
        return z3.And(oc > 0, one_of(op, OPS), one_of(tm, ["before", "after"]),
                      z3.If(one_of(op, MULTI), z3.And(fr != none, to != none), z3.And(fr != none, to == none)))
    def post(self, C): return [("accepted exactly when well-formed", (C.ret.l[0] == 0) == self.wf(C), P)]
class ReorderFValidate(Contract):
    name = "ReorderF::validate"; units = ("faults",); props = P
    def this(self, C): return LObj("ReorderF", z3.Int("this"))
    def args(self, C, case): C.st.assume(z3.Int("this") > 0); return {}
    def post(self, C):
        r = C.this.ref if isinstance(getattr(C, "this", None), LObj) else z3.Int("this"); op = C.f("ReorderF", "op", r, True).z; oc = C.f("ReorderF", "occurrence", r, True).z; pv = C.f("ReorderF", "persist", r, True)
        return [("accepted exactly when well-formed", (C.ret.l[0] == 0) == z3.And(op == lit("write"), oc > 0, forall_in(pv, lambda x: x > 0)), P)]
class SplitWriteFValidate(Contract):
    name = "SplitWriteF::validate"; units = ("faults",); props = P
    def this(self, C): return None
    def args(self, C, case):
        st = C.st; ex = C.ex
        parts = fresh(("opt", INT), "parts"); ex.note_range(st, Val(INT, [parts.l[1]]))
        pb = fresh(("opt", ("vec", INT)), "parts_bytes"); st.assume(z3.And(pb.l[1] >= 0, pb.l[1] < 2 ** 31))
        return {"occurrence": int_arg(ex, st, INT, "occurrence"), "persist": vec_arg(st, INT, "persist"), "parts": parts, "parts_bytes": pb}
    def post(self, C):
        oc = C.az("occurrence"); pv = C.a("persist"); pa = C.a("parts"); pb = C.a("parts_bytes"); pbv = Val(("vec", INT), pb.l[1:])
        n = z3.If(pa.l[0], pa.l[1], pbv.l[0])
        wf = z3.And(oc > 0, z3.Or(pa.l[0], pb.l[0]), z3.Implies(pa.l[0], pa.l[1] > 0), z3.Implies(pb.l[0], forall_in(pbv, lambda x: x > 0)), forall_in(pv, lambda x: z3.And(x > 0, x <= n)))
        return [("accepted exactly when well-formed", (C.ret.l[0] == 0) == wf, P)]
def contracts(): return [ClearFValidate(), ReorderFValidate(), SplitWriteFValidate()]
