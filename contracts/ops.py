"""The FUSE operations that pass through to the backing file system, and the fault points of the operations.
Trace contracts: which calls reach the backing file system, with which arguments, what is returned, and when the fault
triggers run.  C20, C12, C13, C18, C08."""
import z3, sym
from sym import *
import lib
from verify import Contract, Ctx
F_SHELL = ("write_lock",)
def S(n): return z3.Const("arg:" + n, Str)
def sarg(n): return Val(STR, [S(n)])
def iarg(ex, st, t, n):
    v = Val(t, [z3.Int("arg:" + n)]); ex.note_range(st, v); return v

# ------------------------------------------------------------------ fault triggers, as seen by the operations
CACHE_CELLS = ("Cache.", "CustomCacheEngine.", "Item.", "Data.", "BlockInfo.", "Page.", "BlockOffsets.", "Metadata.", "e.", "c.")
class TriggerCrash(Contract):
    name = "LazyFS::trigger_crash_fault"; assumed = True; min_rank = -1; units = ("lazyfs",)
    def apply(self, ex, st, fn, this, args, n):
        self.check_locks(ex, st, n)
        st.trace.append(("crash?", [a.z for a in args[:5]])); return None
class TriggerClear(Contract):
    name = "LazyFS::trigger_configured_clear_fault"; assumed = True; min_rank = -1; units = ("lazyfs",)
    def apply(self, ex, st, fn, this, args, n):
        self.check_locks(ex, st, n)
        st.trace.append(("clear?", [a.z for a in args[:4]]))
        if "ClearF.counter" in st.heap: st.heap["ClearF.counter"] = [fresh_leaf(x.sort(), "counter") for x in st.heap["ClearF.counter"]]
        if ex.opts.get("trigger_fires", True) and ex.fork(st, fresh_leaf(B, "fires")):
            for k in list(st.heap):
                if k.startswith(CACHE_CELLS) and not k.endswith(".$alive"): st.heap[k] = [fresh_leaf(x.sort(), k + "_cleared") for x in st.heap[k]]
            st.trace.append(("cleared", []))
            if "Cache.contents" in st.heap or "Cache.file_inode_mapping" in st.heap:         # what Cache::clear_all_cache guarantees (contracts/cache.py)
                from contracts import cache
                for _, f, *_p in cache.ClearAll().res(Ctx(ex, st, st, {})): st.assume(f)
        return None

BACK = {"open", "close", "pread", "pwrite", "pwritev", "ftruncate", "truncate", "fsync", "fdatasync", "lstat", "stat", "access", "mkdir", "rmdir", "symlink", "link", "unlink",
        "rename", "chmod", "lchown", "chown", "utimensat", "utimes", "lsetxattr", "lremovexattr", "setxattr", "removexattr", "posix_fallocate", "readlink", "lgetxattr", "llistxattr",
        "getxattr", "listxattr", "lseek", "kill"}
READONLY = {"lstat", "stat", "access", "readlink", "lgetxattr", "llistxattr", "getxattr", "listxattr", "clock"}
def events(D, names): return [(k, a) for k, a in D.st.trace if k in names]
def mutating(D): return [(k, a) for k, a in D.st.trace if k in BACK and k not in READONLY]
def same(a, exp):
    if len(a) < len(exp): return z3.BoolVal(False)
    return z3.And([x == y for x, y in zip(a, exp) if y is not None] or [z3.BoolVal(True)])
def errno(D): return D.g_("errno", I)

class Op(Contract):
    """one call to the backing file system with exactly the given arguments, its result returned"""
    units = ("lazyfs",); call = None; modifies = None; cls_props = ("C20",)
    faults = None                # operation name of its fault points
    def this(self, C): return None
    def args(self, C, case): return self.mkargs(C.ex, C.st)
    def expect(self, D): raise NotImplementedError
    def result(self, D, ev): return z3.IntVal(0)     # returned on success
    def paths(self, D): return S("path"), lit("")
    def post(self, D):
        out = []; P20 = self.cls_props
        mine = events(D, {self.call}); other = [e for e in mutating(D) if e[0] != self.call]
        out.append(("one call of %s, no other change of the backing file system" % self.call, z3.BoolVal(len(mine) == 1 and not other), P20))
        if len(mine) == 1:
            ev = mine[0][1]; ok = ev[-1] != -1
            out.append(("%s gets the arguments of the operation" % self.call, same(ev, self.expect(D)), P20))
            out.append(("the result of %s is returned" % self.call, D.ret.l[0] == z3.If(ok, self.result(D, ev), -errno(D)), P20))
            if self.faults:
                out += fault_points(D, self.faults, self.paths(D), z3.simplify(ok), self.call)
        return out
def fault_points(D, op, paths, ok, call):
    """before-faults are consulted first, after-faults exactly when the operation succeeded"""
    f, t = paths; out = []
    for kind, P in (("crash?", ("C13", "C18")), ("clear?", ("C12", "C18"))):
        names = [(k, a) for k, a in D.st.trace if k in (kind, call)]
        seq = [k for k, a in names]; what = kind[:-1]
        bef = [lit(op), lit("before"), f, t]; aft = [lit(op), lit("after"), f, t]
        shape_ok = seq == [kind, call, kind]; shape_fail = seq == [kind, call]
        out.append(("%s faults are consulted before, and after exactly on success" % what, z3.If(ok, z3.BoolVal(shape_ok), z3.BoolVal(shape_fail)) if not isinstance(ok, bool) else z3.BoolVal(shape_ok if ok else shape_fail), P[:1]))
        tr = [a for k, a in names if k == kind]
        if tr: out.append(("%s fault point before names the operation and its paths" % what, same(tr[0], bef), P[:1]))
        if len(tr) > 1: out.append(("%s fault point after names the operation and its paths" % what, same(tr[-1], aft), P[:1]))
    return out

class Access(Op):
    name = "LazyFS::lfs_access"; props = ("C20", "C12", "C13", "C18", "C21"); call = "access"; faults = "access"
    def mkargs(self, ex, st): return {"path": sarg("path"), "mask": iarg(ex, st, INT, "mask")}
    def expect(self, D): return [S("path"), D.az("mask")]
class Symlink(Op):
    name = "LazyFS::lfs_symlink"; props = Access.props; call = "symlink"; faults = "symlink"
    def mkargs(self, ex, st): return {"from": sarg("from"), "to": sarg("to")}
    def paths(self, D): return S("from"), S("to")
    def expect(self, D): return [S("from"), S("to")]
class Mkdir(Op):
    name = "LazyFS::lfs_mkdir"; props = ("C20", "C18", "C21"); call = "mkdir"
    def mkargs(self, ex, st): return {"path": sarg("path"), "mode": iarg(ex, st, UINT, "mode")}
    def expect(self, D): return [S("path"), D.az("mode")]
class Rmdir(Op):
    name = "LazyFS::lfs_rmdir"; props = Mkdir.props; call = "rmdir"
    def mkargs(self, ex, st): return {"path": sarg("path")}
    def expect(self, D): return [S("path")]
FI = ("struct", "fuse_file_info")
def fi_arg(ex, st, null=True):
    v = Val(FI, [z3.Const("fi:%d" % i, s) for i, s in enumerate(leaves(FI))]); ex.note_range(st, v)
    st.assume(z3.And(comp(v, 4).z > 2, comp(v, 4).z < 2 ** 31))
    st.env["$fi"] = v
    return PtrTo(LVar("$fi"), z3.Bool("fi_null") if null else None)
def FD(): return comp(Val(FI, [z3.Const("fi:%d" % i, s) for i, s in enumerate(leaves(FI))]), 4).z
class Chmod(Op):
    name = "LazyFS::lfs_chmod"; props = Mkdir.props; call = "chmod"
    def mkargs(self, ex, st): return {"path": sarg("path"), "mode": iarg(ex, st, UINT, "mode"), "fi": fi_arg(ex, st)}
    def expect(self, D): return [S("path"), D.az("mode")]
class Chown(Op):
    name = "LazyFS::lfs_chown"; props = Mkdir.props; call = "lchown"
    def mkargs(self, ex, st): return {"path": sarg("path"), "uid": iarg(ex, st, UINT, "uid"), "gid": iarg(ex, st, UINT, "gid"), "fi": fi_arg(ex, st)}
    def expect(self, D): return [S("path"), D.az("uid"), D.az("gid")]
class Init(Contract):
    """at mount: the kernel is told to keep nothing of names and attributes, and sees the inode numbers of the files; the worker of commands is started"""
    name = "LazyFS::lfs_init"; props = ("C09", "C20", "C18", "C21"); units = ("lazyfs",); modifies = None
    def this(self, C): return None
    def args(self, C, case):
        t = ("struct", "fuse_config"); v = Val(t, [z3.Const("cfg:%d" % i, s) for i, s in enumerate(leaves(t))]); C.ex.note_range(C.st, v); C.st.env["$cfg"] = v
        return {"conn": Val(("ptr", "fuse_conn_info"), [z3.Int("arg:conn")]), "cfg": PtrTo(LVar("$cfg"), None)}
    def post(self, D):
        t = ("struct", "fuse_config"); v = D.st.env["$cfg"]; F = {f: comp(v, i).z for i, (f, _) in enumerate(sym.STRUCTS["fuse_config"])}; old = {f: z3.Const("cfg:%d" % i, x) for i, ((f, _), x) in enumerate(zip(sym.STRUCTS["fuse_config"], leaves(t)))}
        keep = ("kernel_cache", "auto_cache", "ac_attr_timeout_set", "nullpath_ok"); th = events(D, {"thread"}); me = lambda w: isinstance(w, LObj) and w.cls == "LazyFS"
        return [("names and attributes are asked again each time", z3.And(F["entry_timeout"] == 0, F["attr_timeout"] == 0, F["negative_timeout"] == 0), ("C09",)), ("inode numbers are those of the files", F["use_ino"] != 0, ("C09", "C20")),
                ("the kernel is not told to keep contents or attributes, or to leave out names", z3.And(*[z3.Or(F[f] == old[f], F[f] == 0) for f in keep]), ("C09", "C20")),
                ("one worker is started, for this file system", z3.BoolVal(len(th) == 1 and me(th[0][1][1])), ("C20",)), ("the file system is the private data", z3.BoolVal(me(D.ret)), ("C20",))]
class Release(Contract):
    name = "LazyFS::lfs_release"; props = Mkdir.props; units = ("lazyfs",); modifies = None
    def this(self, C): return None
    def args(self, C, case): return {"path": sarg("path"), "fi": fi_arg(C.ex, C.st, False)}
    def post(self, D):
        cl = events(D, {"close"})
        return [("the descriptor of the open file is closed, once", z3.And(z3.BoolVal(len(cl) == 1 and len(mutating(D)) == 1), cl[0][1][0] == FD()) if cl else z3.BoolVal(False), ("C20",)), ("returns 0", D.ret.l[0] == 0, ("C20",))]
class Readlink(Contract):
    name = "LazyFS::lfs_readlink"; props = Mkdir.props; units = ("lazyfs",); modifies = None
    def this(self, C): return None
    def args(self, C, case):
        ex, st = C.ex, C.st; sz = iarg(ex, st, ULONG, "size"); b = Val(BUF, [z3.Int("arg:buf"), z3.IntVal(0)])
        st.assume(z3.And(sz.z >= 1, sz.z < 2 ** 31, b.l[0] > 0, z3.Select(ex.buflen(st), b.l[0]) >= sz.z))
        return {"path": sarg("path"), "buf": b, "size": sz}
    def post(self, D):
        ev = events(D, {"readlink"})
        if len(ev) != 1: return [("one call of readlink", z3.BoolVal(False), ("C20",))]
        a = ev[0][1]; b = D.a("buf"); r = a[-1]
        m = D.g_("mem", None) if False else D.ex.mem(D.st)
        return [("readlink reads the target of the path into the buffer, leaving room for the terminator", z3.And(a[0] == S("path"), a[1] == b.l[0], a[2] == 0, a[3] == D.az("size") - 1), ("C20",)),
                ("nothing else reaches the backing file system", z3.BoolVal(not mutating(D)), ("C20",)),
                ("returns 0 or the error", D.ret.l[0] == z3.If(r == -1, -errno(D), 0), ("C20",)),
                ("the target is terminated at its length", z3.Implies(r != -1, z3.Select(z3.Select(m, b.l[0]), r) == 0), ("C20",))]
class Lseek(Contract):
    name = "LazyFS::lfs_lseek"; props = Mkdir.props; units = ("lazyfs",); modifies = None
    def this(self, C): return None
    def args(self, C, case): return {"path": sarg("path"), "off": iarg(C.ex, C.st, LONG, "off"), "whence": iarg(C.ex, C.st, INT, "whence"), "fi": fi_arg(C.ex, C.st)}
    def post(self, D):
        P = ("C20",); sk = events(D, {"lseek"}); op = events(D, {"open"}); cl = events(D, {"close"}); out = []
        own = z3.Bool("fi_null")
        if not sk:
            return [("no seek only when the file cannot be opened", z3.And(own, z3.BoolVal(len(op) == 1 and not cl)), P), ("returns the error", D.ret.l[0] == -errno(D), P)]
        a = sk[0][1]; fd = z3.If(own, op[0][1][3], FD()) if op else FD()
        out.append(("one seek on the descriptor of the operation", z3.And(z3.BoolVal(len(sk) == 1), a[0] == fd, a[1] == D.az("off"), a[2] == D.az("whence"), own == z3.BoolVal(len(op) == 1)), P))
        out.append(("returns the position or the error", D.ret.l[0] == z3.If(a[-1] == -1, -errno(D), a[-1]), P))
        out.append(("a descriptor opened here is closed, one given is left open", z3.And(z3.BoolVal(len(cl) == len(op)), z3.And([c[1][0] == o[1][3] for c, o in zip(cl, op)] or [z3.BoolVal(True)])), P))
        return out
# ------------------------------------------------------------------ directories
AIS, AII_ = z3.ArraySort(I, Str), z3.ArraySort(I, I)
FILL = ("fill.n", "fill.name", "fill.ino", "fill.mode", "fill.full")
def fill(ex, st, f, a, n):
    """the kernel's filler: takes one entry, or reports that the buffer is full (nonzero)"""
    buf, name, stp = ex.ev(st, a[0]), ex.ev(st, a[1]), ex.ev(st, a[2]); r = fresh_leaf(I, "filler"); st.assume(z3.And(r >= -2 ** 31, r < 2 ** 31)); v = ex._read(st, stp.lv)
    N, nm, ino, md, full = ex.ghost(st, "fill.n", I), ex.ghost(st, "fill.name", AIS), ex.ghost(st, "fill.ino", AII_), ex.ghost(st, "fill.mode", AII_), ex.ghost(st, "fill.full", B)
    ex.oblige(st, "the filler of this request is called with its buffer, not after it reported full", z3.And(f.z == z3.Int("arg:filler"), buf.l[0] == z3.Int("arg:buf"), buf.l[1] == 0, z3.Not(full)), "post", n, ("C20",))
    st.heap["fill.n"] = [N + 1]; st.heap["fill.name"] = [z3.Store(nm, N, name.z)]; st.heap["fill.ino"] = [z3.Store(ino, N, comp(v, 1).z)]; st.heap["fill.mode"] = [z3.Store(md, N, comp(v, 3).z)]; st.heap["fill.full"] = [r != 0]
    return Val(INT, [r])
class Readdir(Contract):
    """every entry of the directory is reported once, in order, with its inode number and kind, until the filler is full"""
    name = "LazyFS::lfs_readdir"; props = ("C20", "C18", "C21"); units = ("lazyfs",); modifies = None; opts = {"callback": fill}
    def this(self, C): return None
    def args(self, C, case):
        ex, st = C.ex, C.st; st.assume(z3.Int("arg:buf") > 0)
        return {"path": sarg("path"), "buf": Val(BUF, [z3.Int("arg:buf"), z3.IntVal(0)]), "filler": Val(("ptr", "fill"), [z3.Int("arg:filler")]), "offset": iarg(ex, st, LONG, "offset"), "fi": fi_arg(ex, st), "flags": iarg(ex, st, INT, "flags")}
    def pre(self, C): return [("nothing reported yet", z3.And(C.g_("fill.n", I) == 0, z3.Not(C.g_("fill.full", B))))]
    @staticmethod
    def told(C, d):
        """the first entries of the directory are the ones reported"""
        N = C.g_("fill.n", I); k = z3.FreshConst(I, "k"); e = lib.dir_at(d, k); F = lambda f: C.f("dirent", f, e, old=True).z
        return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < N), z3.And(z3.Select(C.g_("fill.name", AIS), k) == F("d_name"), z3.Select(C.g_("fill.ino", AII_), k) == F("d_ino"), z3.Select(C.g_("fill.mode", AII_), k) == F("d_type") * 4096)), patterns=[e, z3.Select(C.g_("fill.name", AIS), k)])
    def post(self, D):
        P = ("C20",); op, cl = events(D, {"opendir"}), events(D, {"closedir"})
        if len(op) != 1: return [("the directory is opened once", z3.BoolVal(False), P)]
        d = op[0][1][1]; N = D.g_("fill.n", I)
        return [("the directory of the path is opened", op[0][1][0] == S("path"), P), ("nothing changes in the backing file system", z3.BoolVal(not mutating(D)), P),
                ("returns 0 or the error", D.ret.l[0] == z3.If(d == 0, -errno(D), 0), P), ("nothing is reported of a directory that cannot be read", z3.Implies(d == 0, N == 0), P),
                ("entries are reported as they are", z3.Implies(d != 0, self.told(D, d)), P), ("every entry is reported unless the filler is full", z3.Implies(z3.And(d != 0, z3.Not(D.g_("fill.full", B))), N == lib.dir_n(d)), P),
                ("the directory is closed", z3.If(d == 0, z3.BoolVal(not cl), z3.And(z3.BoolVal(len(cl) == 1), cl[0][1][0] == d) if cl else z3.BoolVal(False)), P)]
    class Loop:
        def inv(self, L):
            C = Ctx(L.ex, L.ex.entry_state, L.st, {}); d = L.bytype(("ptr", "DIR")).z; N = C.g_("fill.n", I)
            return [("reported as far as read", z3.And(N >= 0, z3.Select(C.g_("dir.pos", AII_), d) == N, N <= lib.dir_n(d))), ("entries are reported as they are", Readdir.told(C, d)), ("not full", z3.Not(C.g_("fill.full", B)))]
    loops = {0: Loop()}
def contracts(): return [Init(), Access(), Symlink(), Mkdir(), Rmdir(), Chmod(), Chown(), Release(), Readlink(), Lseek(), Readdir()]
