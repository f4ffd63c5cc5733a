"""The commands of the fault worker, and the constructors of faults.  C04, C12, C16, C18, C10, C11."""
import z3
from sym import *
from verify import Contract, Ctx
from contracts.ops import CACHE_CELLS, S, sarg, iarg, events, same
from contracts.triggers import CLEARS, CommandClear
from contracts.faults import int_arg, vec_arg

class CommandClearBody(CommandClear):
    assumed = False; props = ("C04", "C12", "C18", "C21")
    def this(self, C): return LObj("LazyFS", None)
    def args(self, C, case): return {}
    def post(self, C):
        e = events(C, {"clear_all"})
        out = CommandClear.post(self, C)
        if hasattr(C, "locks0"):
            out.append(("clears the whole cache once, while no other operation runs", z3.And(z3.BoolVal(len(e) == 1), z3.And([x[1][0] for x in e] or [z3.BoolVal(True)])), ("C04", "C18")))
        return out
class CommandCheckpoint(Contract):
    name = "LazyFS::command_checkpoint"; units = ("lazyfs",); props = ("C16", "C18", "C21"); min_rank = 0; modifies = None
    def this(self, C): return LObj("LazyFS", None)
    def args(self, C, case): return {}
    def pre(self, C):
        from contracts import files as fi
        fi.touch(C); return fi.fsinv(C)
    def saved(self, C):
        """a file whose name the cache knows is in the backing file system as a reader sees it"""
        from contracts import files as fi
        q, x, j = fi.kc("name"), fi.K("x"), fi.K("j"); n = fi.names(C); i = fi.ino(C, q); c = itoa(i); s = fi.csize(C, c, True); P = ("C02", "C16"); d = z3.Select(fi.fdata(C, i), x); h = z3.And(mhas(n, q), fi.chas(C, c, True))
        return [x_ for x_ in fi.fsinv(C)] + [("every byte a reader sees is in the file", fi.fa([q, x], z3.Implies(z3.And(h, x >= 0), d == z3.If(x < s, fi.content(C, i, x, True), 0)), [[z3.MultiPattern(mhas(n, q), d)]]), P), ("every file has the size a reader sees", fi.fa(q, z3.Implies(h, fi.fsize(C, i) == s), [mhas(n, q)]), P),
                ("a reader sees the same as before", fi.fa([j, x], z3.Implies(z3.And(fi.chas(C, itoa(j), True), x >= 0, x < fi.csize(C, itoa(j), True)), fi.content(C, j, x) == fi.content(C, j, x, True)), [z3.Select(fi.fdata(C, j), x)]), P),
                ("the size stays", fi.fa(j, z3.Implies(fi.chas(C, itoa(j), True), z3.And(fi.chas(C, itoa(j)), fi.csize(C, itoa(j)) == fi.csize(C, itoa(j), True))), [fi.chas(C, itoa(j))]), P)]
    def post(self, C):
        e = events(C, {"checkpoint"})
        return self.saved(C) + [("checkpoints the whole cache once, while no other operation runs", z3.And(z3.BoolVal(len(e) == 1 and not events(C, {"clear_all"})), z3.And([x[1][0] for x in e] or [z3.BoolVal(True)])), ("C16", "C18"))]
class CommandUsage(Contract):
    name = "LazyFS::command_display_cache_usage"; units = ("lazyfs",); props = ("C18", "C21"); min_rank = 0; modifies = ()
    def this(self, C): return LObj("LazyFS", None)
    def args(self, C, case): return {}
    def post(self, C): return []

class Ctor(Contract):
    units = ("faults",); modifies = None; given = (); zero = ()
    def this(self, C): return LObj(self.cls, z3.Int("this"))
    def args(self, C, case):
        C.st.assume(z3.Int("this") > 0); out = {}
        for n, t in self.given:
            out[n] = sarg(n) if t == STR else vec_arg(C.st, INT, n) if t[0] == "vec" else Val(BOOL, [z3.Bool("arg:" + n)]) if t == BOOL else int_arg(C.ex, C.st, t, n)
        return out
    def post(self, C):
        r = z3.Int("this"); out = []
        for n, t in self.given: out.append(("%s is the given one" % n, z3.And([x == y for x, y in zip(C.f(self.cls, n, r).l, C.a(n).l)]), self.props[:1]))
        for n in self.zero: out.append(("%s starts at 0" % n, C.f(self.cls, n, r).z == 0, self.props[:1]))
        return out + self.extra(C)
    def extra(self, C): return []
    def use_at_call(self, *a): return False
class ClearFCtor(Ctor):
    name = "ClearF::ClearF"; cls = "ClearF"; props = ("C12", "C21"); zero = ("counter",)
    given = (("timing", STR), ("op", STR), ("from", STR), ("to", STR), ("occurrence", INT), ("crash", BOOL))
class ReorderFCtor(Ctor):
    name = "ReorderF::ReorderF"; nargs = 3; cls = "ReorderF"; props = ("C11", "C21"); zero = ("counter", "group_counter")
    given = (("op", STR), ("persist", ("vec", INT)), ("occurrence", INT))
    def pick(self, f): return len(f.params) == 3
class SplitFCtor(Ctor):
    name = "SplitWriteF::SplitWriteF"; nargs = 3; cls = "SplitWriteF"; props = ("C10", "C21"); zero = ("counter",)
    given = (("occurrence", INT), ("persist", ("vec", INT)), ("parts_bytes", ("vec", INT)))
    def pick(self, f): return len(f.params) == 3 and "vector" in f.params[2]["type"]["qualType"]
    def extra(self, C): return [("marked as given in bytes", C.f("SplitWriteF", "parts", z3.Int("this")).z == -1, ("C10",))]
def contracts(): return [CommandClearBody(), CommandCheckpoint(), CommandUsage(), ClearFCtor(), ReorderFCtor(), SplitFCtor()]
