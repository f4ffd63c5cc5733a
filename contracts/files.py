"""The FUSE operations that work on names and on the metadata of cached files (lazyfs/src/lazyfs.cpp).

`fsinv` couples the cache with the backing file system: a name the cache knows leads to the file it says, and contents
exist only for files that some name leads to, with as many links.  Every operation preserves it, whatever fails and
whether or not a configured fault clears the cache on the way."""
import z3
from sym import *
from verify import Contract, Ctx
from exec import norm
from contracts.ops import sarg, iarg, S, fi_arg, FD, events, mutating, same, errno, fault_points, Op
from contracts.leaf import fa, K
from contracts import cache as ca, engine as en, leaf
from contracts.cache import kc, chas, mf, names, synced, MF, BS
from contracts.engine import ev, cached, eq
import lib
def ino(C, p, old=False): return z3.Select(lib.F_INO(C.ex, C.st0 if old else C.st), p)
def nlink(C, i, old=False): return z3.Select(lib.F_NLINK(C.ex, C.st0 if old else C.st), i)
def reg(C, i): return z3.Select(lib.F_REG(C.ex, C.st), i)
def known(C, p): return z3.Implies(chas(C, itoa(ino(C, p))), mhas(names(C), p))
def fsize(C, i, old=False): return z3.Select(lib.F_SIZE(C.ex, C.st0 if old else C.st), i)
def fdata(C, i, old=False): return z3.Select(lib.F_DATA(C.ex, C.st0 if old else C.st), i)
def csize(C, c, old=False): return mf(C, "size", c, old)[0]
def fsinv(C, size_of=None):
    p, i, b, x = kc("name"), K("i"), K(), K("x"); n = names(C); c = itoa(i); P = ("C04", "C08"); Q = ("C01", "C05"); h = chas(C, c); sz = csize(C, c) if size_of is None else size_of(i, csize(C, c)); rd = ev(C, "rd", c, b); pat = [[ev(C, "page", c, b)], [rd]]
    return [("a name leads to the file the cache says", fa(p, z3.Implies(mhas(n, p), z3.And(ino(C, p) > 0, z3.Select(n.l[1], p) == itoa(ino(C, p)), reg(C, ino(C, p)))), [mhas(n, p)]), P),
            ("contents have names, as many as the file", fa(i, z3.Implies(h, z3.And(i > 0, nlink(C, i) >= 1, nlink(C, i) < 2 ** 31 - 2, mf(C, "nlinks", c)[0] == nlink(C, i))), [[h]]), P + ("C09",)),
            ("contents belong to a file", fa(p, z3.Implies(chas(C, p), z3.And(itoa(atoi_(p)) == p, atoi_(p) > 0)), [chas(C, p)]), P),
            ("sizes", fa(i, z3.Implies(h, z3.And(sz >= 0, sz <= 2 ** 31 * BS - BS)), [[h]]), ("C07",)),
            ("cached blocks belong to contents and lie before the end", fa([i, b], z3.Implies(cached(C, c, b), z3.And(h, b >= 0, b * BS < sz, rd >= 0, rd < BS)), pat), Q),
            ("a cached block holds all bytes up to its end or the end of the file", fa([i, b], z3.Implies(cached(C, c, b), z3.Or(rd == BS - 1, b * BS + rd + 1 >= sz)), pat), Q),
            ("blocks not cached are in the file", fa([i, b], z3.Implies(z3.And(h, z3.Not(cached(C, c, b)), b >= 0, b * BS < sz), z3.Or(fsize(C, i) >= sz, fsize(C, i) >= b * BS + BS)), [[ev(C, "page", c, b)]]), Q),
            ("files end with their last byte", fa([i, x], z3.Implies(x >= fsize(C, i), z3.Select(fdata(C, i), x) == 0), [[z3.Select(fdata(C, i), x)]]), Q), ("file sizes", fa(i, z3.And(fsize(C, i) >= 0, fsize(C, i) <= 2 ** 31 * BS - BS), [fsize(C, i)]), Q),
            ("a clean block is as in the file", fa([i, b, x], z3.Implies(z3.And(cached(C, c, b), z3.Not(ev(C, "dirty", c, b)), 0 <= x, x < BS, b * BS + x < sz), z3.Select(ev(C, "byte", c, b), x) == z3.Select(fdata(C, i), b * BS + x)), [[z3.Select(ev(C, "byte", c, b), x)]]), ("C01", "C02"))]
CLOCK = ("clock.sec", "clock.nsec")
def now(C, o): return ("the modification time is now", eq(mf(C, "mtim", o), [C.g_(c, I) for c in CLOCK]), ("C09",))
def touch(C):
    for c in CLOCK: C.g_(c, I)
    for c, s in list(ca.GHOST.items()) + list(leaf.VIEW.items()) + list(en.VIEW.items()) + list(en.GHOST.items()): C.g_(c, s)
    lib.F_NLINK(C.ex, C.st); lib.F_INO(C.ex, C.st); lib.F_REG(C.ex, C.st); lib.F_SIZE(C.ex, C.st); lib.F_DATA(C.ex, C.st)
    for f in MF: mf(C, f, lit("x"))
    synced(C, lit("x")); names(C)
CACHE_MOD = ca.ITEMS + ca.META + ca.BLOCKS + tuple(ca.GHOST) + ("Cache.file_inode_mapping",)
class FsOp(Contract):
    units = ("lazyfs",); modifies = None
    looked_up = ()
    def this(self, C): return None
    def pre(self, C):
        touch(C)
        return fsinv(C) + [("the kernel has looked the name up", known(C, S(p))) for p in self.looked_up] + self.more_pre(C)
    def more_pre(self, C): return []
    def post(self, D): return fsinv(D) + self.res(D)
class Named(FsOp, Op):
    def post(self, D): return fsinv(D) + Op.post(self, D)
class Link(Named):
    name = "LazyFS::lfs_link"; props = ("C08", "C20", "C09", "C12", "C13", "C18", "C21"); call = "link"; faults = "link"; looked_up = ("from",); cls_props = ("C20", "C08")
    def mkargs(self, ex, st): return {"from": sarg("from"), "to": sarg("to")}
    def paths(self, D): return S("from"), S("to")
    def expect(self, D): return [S("from"), S("to")]
class Unlink(Named):
    name = "LazyFS::lfs_unlink"; props = ("C04", "C08", "C20", "C09", "C12", "C13", "C18", "C21"); call = "unlink"; faults = "unlink"; looked_up = ("path",); cls_props = ("C20", "C08")
    def mkargs(self, ex, st): return {"path": sarg("path")}
    def expect(self, D): return [S("path")]

below = z3.Function("below", Str, Str, B); below_real = z3.Function("below_real", Str, Str, B); below_by = z3.Function("below_by", Str, Str, I)
def dir_tree(ex, st, p, d):
    """what an opened directory says about the files below it: `below` has the regular files among its entries and those below its entries; `below_real` is the regular
    files reached through directories, not through links to them; no directory, nothing below"""
    f = z3.FreshConst(Str, "f"); k = K("k"); C = Ctx(ex, st, st, {}); N = lambda q: C.f("dirent", "d_name", lib.dir_at(d, q)).z; reg_ = lambda q: C.f("dirent", "d_type", lib.dir_at(d, q)).z == 8
    c = lambda q: concat(concat(p, lit("/")), N(q)); nd = lambda q: z3.And(N(q) != lit("."), N(q) != lit("..")); inn = lambda q: z3.And(0 <= q, q < lib.dir_n(d)); w = below_by(p, f)
    isdir = lambda q: C.f("dirent", "d_type", lib.dir_at(d, q)).z == 4
    st.assume(z3.Implies(d == 0, fa(f, z3.Not(below_real(p, f)), [below_real(p, f)])))
    st.assume(z3.Implies(d != 0, z3.And(fa(k, z3.Implies(z3.And(inn(k), nd(k), reg_(k)), below(p, c(k))), [lib.dir_at(d, k)]), fa([k, f], z3.Implies(z3.And(inn(k), nd(k), below(c(k), f)), below(p, f)), [below(c(k), f)]),
        fa(f, z3.Implies(below_real(p, f), z3.And(inn(w), nd(w), z3.Or(z3.And(reg_(w), f == c(w)), z3.And(isdir(w), below_real(c(w), f))))), [below_real(p, f)]))))
class DirFiles(Contract):
    """all regular files below a directory, at any depth, are added to the list, and nothing that is not below (following links or not)"""
    name = "LazyFS::lfs_get_dir_filenames"; props = ("C08", "C18", "C21"); units = ("lazyfs",); modifies = None; opts = {"tree": dir_tree}; VT = ("vec", STR)
    def this(self, C): return None
    def args(self, C, case):
        v = fresh(self.VT, "result0"); C.ex.note_range(C.st, v); C.st.env["$result"] = v; return {"dirname": sarg("dirname"), "result": PtrTo(LVar("$result"), None)}
    def lists(self, C):
        r = C.a("result"); return C.ex.read(C.st0, r.lv), C.ex.read(C.st, r.lv)
    @staticmethod
    def within(v, f, lo=0):
        i = K("i"); return z3.Exists([i], z3.And(lo <= i, i < v.l[0], z3.Select(v.l[1], i) == f))
    def apply(self, ex, st, fn, this, args, n):
        if ex.opts.get("no_dirs"): return None
        if "tree" not in ex.opts: raise Unsupported("readdir")
        C = Ctx(ex, st.copy(), st, dict(zip(("dirname", "result"), args))); ex.write(st, C.a("result").lv, fresh(self.VT, "below")); ex.note_range(st, self.lists(C)[1]); C.ret = None
        for lab, f, _ in norm(self.said(C)): st.assume(f)
        return None
    def said(self, C):
        v0, v = self.lists(C); p = C.az("dirname"); i = K("i"); f = z3.FreshConst(Str, "f"); at = z3.Select(v.l[1], i); P = ("C08",)
        return [("what was listed stays", z3.And(v.l[0] >= v0.l[0], fa(i, z3.Implies(z3.And(0 <= i, i < v0.l[0]), at == z3.Select(v0.l[1], i)), [at])), P),
                ("what is added is a file below", fa(i, z3.Implies(z3.And(v0.l[0] <= i, i < v.l[0]), below(p, at)), [at]), P),
                ("every file below is listed", z3.ForAll([f], z3.Implies(below_real(p, f), self.within(v, f)), patterns=[below_real(p, f)]), P)]
    def post(self, D):
        op, cl = events(D, {"opendir"}), events(D, {"closedir"})
        if len(op) != 1: return [("the directory is opened once", z3.BoolVal(False), ("C08",))]
        d = op[0][1][1]
        return self.said(D) + [("the directory is closed", z3.If(d == 0, z3.BoolVal(not cl), z3.And(z3.BoolVal(len(cl) == 1), cl[0][1][0] == d) if cl else z3.BoolVal(False)), ("C08", "C18")), ("nothing changes in the backing file system", z3.BoolVal(not mutating(D)), ("C08",))]
    class Loop:
        def inv(self, L):
            C = Ctx(L.ex, L.ex.entry_state, L.st, {}); d = L.bytype(("ptr", "DIR")).z; p = S("dirname"); pos = z3.Select(C.g_("dir.pos", z3.ArraySort(I, I)), d); v0, v = L.ex.entry_state.env["$result"], L.st.env["$result"]
            i, k = K("i"), K("k"); f = z3.FreshConst(Str, "f"); at = z3.Select(v.l[1], i); N = C.f("dirent", "d_name", lib.dir_at(d, k)).z; c = concat(concat(p, lit("/")), N); nd = z3.And(N != lit("."), N != lit("..")); done = z3.And(0 <= k, k < pos, nd)
            return [("as far as read", z3.And(pos >= 0, pos <= lib.dir_n(d), d > 0)), ("what was listed stays", z3.And(v.l[0] >= v0.l[0], fa(i, z3.Implies(z3.And(0 <= i, i < v0.l[0]), at == z3.Select(v0.l[1], i)), [at]))),
                    ("what is added is a file below", fa(i, z3.Implies(z3.And(v0.l[0] <= i, i < v.l[0]), below(p, at)), [at])),
                    ("files read are listed", fa(k, z3.Implies(z3.And(done, C.f("dirent", "d_type", lib.dir_at(d, k)).z == 8), DirFiles.within(v, c)), [lib.dir_at(d, k)])),
                    ("files below directories read are listed", z3.ForAll([k, f], z3.Implies(z3.And(done, C.f("dirent", "d_type", lib.dir_at(d, k)).z == 4, below_real(c, f)), DirFiles.within(v, f)), patterns=[below_real(c, f)]))]
    loops = {0: Loop()}
isnew = z3.Function("new_name", Str, B)
class RenameDir(Contract):
    """after a directory has been renamed every cached file below it is known by its new name and keeps its contents; nothing else is renamed, and nothing when the call fails"""
    name = "LazyFS::lfs_recursive_rename"; props = ("C08", "C18", "C21"); units = ("lazyfs",); modifies = None; opts = {"tree": dir_tree, "stat_ok": True}
    def this(self, C): return None
    def use_at_call(self, *a): return False
    def args(self, C, case): return {"from": sarg("from"), "to": sarg("to"), "flags": iarg(C.ex, C.st, UINT, "flags")}
    @staticmethod
    def new(g): return concat(S("to"), substr_(g, slen(S("from"))))
    def pre(self, C):
        touch(C); g, h = z3.FreshConst(Str, "g"), z3.FreshConst(Str, "h"); n = names(C); bl = lambda x: below(S("from"), x); new = self.new; cut = lambda x: substr_(x, slen(S("from")))
        return [("files below have longer names", fa(g, z3.Implies(bl(g), slen(g) > slen(S("from"))), [bl(g)])),
                ("new names are new", fa(g, z3.Implies(bl(g), z3.And(isnew(new(g)), z3.Not(bl(new(g))), z3.Not(mhas(n, new(g))))), [cut(g)])),
                ("new names differ", fa([g, h], z3.Implies(z3.And(bl(g), bl(h), g != h), new(g) != new(h)), [z3.MultiPattern(cut(g), cut(h))])),
                ("the directories are no files below", z3.And(z3.Not(bl(S("to"))), z3.Not(isnew(S("to"))))),
                ("what is below in directories is below", fa(g, z3.Implies(below_real(S("from"), g), bl(g)), [below_real(S("from"), g)])),
                ("names lead to files", fa(g, z3.Implies(mhas(n, g), z3.Select(n.l[1], g) != lit("")), [mhas(n, g)]))]
    @staticmethod
    def kept(C, but=()):
        c, b = kc(), K(); V = ("page", "rd", "byte", "sync", "dirty"); ne = lambda c: z3.And([c != lit("")] + [c != x for x in but]); P = ("C08",)
        return [("contents stay", fa(c, z3.Implies(ne(c), chas(C, c) == chas(C, c, True)), [chas(C, c)]), P),
                ("metadata stay", fa(c, z3.Implies(z3.And(ne(c), chas(C, c)), z3.And([synced(C, c) == synced(C, c, True)] + [eq(mf(C, f, c), mf(C, f, c, True)) for f in MF])), [ca.citem(C, c)]), P),
                ("blocks stay", fa([c, b], z3.Implies(ne(c), z3.And([ev(C, n, c, b) == ev(C, n, c, b, True) for n in V])), [[ev(C, n, c, b)] for n in V]), P)]
    def post(self, D):
        P = ("C08",); mine = events(D, {"rename"}); n, n0 = names(D), names(D, True); g = z3.FreshConst(Str, "g"); q = kc("q"); new = self.new; a, b = S("from"), S("to")
        if len(mine) != 1: return [("one call of rename", z3.BoolVal(False), P)]
        e = mine[0][1]; ok = z3.simplify(e[-1] != -1); old = z3.Select(n0.l[1], b)
        out = [("rename gets the names", same(e, [a, b]), P), ("its result is returned", D.ret.l[0] == z3.If(ok, 0, -1), P), ("no other change of the backing file system", z3.BoolVal(len(mutating(D)) == 1), P)]
        if not z3.is_true(ok):
            return out + [("names stay", fa(q, z3.And(mhas(n, q) == mhas(n0, q), z3.Select(n.l[1], q) == z3.Select(n0.l[1], q)), [[mhas(n, q)], [z3.Select(n.l[1], q)]]), P)] + self.kept(D)
        return out + [("every file below has its new name", fa(g, z3.Implies(z3.And(below_real(a, g), mhas(n0, g)), z3.And(mhas(n, new(g)), z3.Select(n.l[1], new(g)) == z3.Select(n0.l[1], g), z3.Not(mhas(n, g)))), [below_real(a, g)]), P),
                ("a name the cache knows for the new directory leads to what is there", z3.Implies(mhas(n, b), z3.Select(n.l[1], b) == itoa(ino(D, b))), P),
                ("a replaced file stays in the cache while it has other links", z3.Implies(z3.And(mhas(n0, b), chas(D, old, True), mf(D, "nlinks", old, True)[0] > 1), chas(D, old)), P),
                ("other names stay", fa(q, z3.Implies(z3.Not(z3.Or(below(a, q), isnew(q), q == b)), z3.And(mhas(n, q) == mhas(n0, q), z3.Select(n.l[1], q) == z3.Select(n0.l[1], q))), [[mhas(n, q)], [z3.Select(n.l[1], q)]]), P)] + self.kept(D, (z3.If(mhas(n0, b), old, lit("")),))
    class Loop:
        def applies(self, ex, st): return not ex.opts.get("no_dirs")
        def inv(self, L):
            C = Ctx(L.ex, L.entry, L.st, {}); n, n0 = names(C), names(C, True); g = z3.FreshConst(Str, "g"); q = kc("q"); j = K("j"); a, b = S("from"), S("to"); new = RenameDir.new; v = L.v("from_dir_filepaths"); at = z3.Select(v.l[1], j); idx = L.it().idx; N = lambda m, x: z3.Select(m.l[1], x)
            return [("files below", fa(g, z3.Implies(below(a, g), z3.And(z3.Implies(mhas(n, g), z3.And(mhas(n0, g), N(n, g) == N(n0, g))), z3.Implies(z3.And(mhas(n0, g), z3.Not(mhas(n, g))), z3.And(mhas(n, new(g)), N(n, new(g)) == N(n0, g))), z3.Implies(mhas(n, g), z3.Not(mhas(n, new(g)))))), [below(a, g)])),
                    ("as far as renamed", fa(j, z3.Implies(z3.And(0 <= j, j < idx), z3.Not(mhas(n, at))), [at])),
                    ("other names", fa(q, z3.Implies(z3.Not(z3.Or(below(a, q), isnew(q))), z3.And(mhas(n, q) == mhas(n0, q), N(n, q) == N(n0, q))), [[mhas(n, q)], [N(n, q)]]))] + RenameDir.kept(C)
    loops = {0: Loop()}
class Rename(FsOp):
    name = "LazyFS::lfs_rename"; props = ("C04", "C08", "C20", "C09", "C12", "C13", "C18", "C21"); looked_up = ("from", "to"); opts = {"no_dirs": True, "stat_ok": True}
    def args(self, C, case): return {"from": sarg("from"), "to": sarg("to"), "flags": iarg(C.ex, C.st, UINT, "flags")}
    def res(self, D):
        P = ("C20", "C08"); mine = events(D, {"rename"}); a, b = S("from"), S("to"); plain = D.az("flags") == 0
        if not mine: return [("without a call of rename only for flags that are not supported", z3.And(z3.Not(plain), D.ret.l[0] == -22, z3.BoolVal(not mutating(D))), P)]
        ev_ = mine[0][1]; ok = z3.simplify(ev_[-1] != -1)
        return [("one call of rename, no other change of the backing file system", z3.And(plain, z3.BoolVal(len(mine) == 1 and len(mutating(D)) == 1)), P), ("rename gets the names", same(ev_, [a, b]), P), ("the result of rename is returned", D.ret.l[0] == z3.If(ok, 0, -errno(D)), P)] + fault_points(D, "rename", (a, b), ok, "rename")
class Utimens(FsOp):
    """the file gets the times; cached times follow"""
    name = "LazyFS::lfs_utimens"; props = ("C20", "C08", "C09", "C18", "C21"); looked_up = ("path",)
    TS = ("struct", "timespec")
    def args(self, C, case):
        ex, st = C.ex, C.st; return {"path": sarg("path"), "ts": ts_arg(ex, st), "fi": fi_arg(ex, st)}
    def res(self, D):
        P = ("C20", "C09"); u = events(D, {"utimensat"}); ls = events(D, {"lstat"})
        out = [("one call of utimensat, no other change of the backing file system", z3.BoolVal(len(u) == 1 and len(mutating(D)) == 1), P)]
        if len(u) != 1: return out
        a = u[0][1]; ok = z3.simplify(a[-1] != -1)
        out += [("utimensat names the file itself, not what it links to", z3.And(a[1] == S("path"), a[-2] == 0x100), P), ("its result is returned", D.ret.l[0] == z3.If(ok, 0, -errno(D)), P)]
        o = itoa(ino(D, S("path"))); h = z3.And(chas(D, o, True), mhas(names(D), S("path")))
        if z3.is_true(ok):
            if len(ls) == 1 and ls[0][1][2] is not None:
                s = ls[0][1][2]; get = lambda i: comp(s, i).l
                out += [("cached times are those of the file", z3.Implies(h, z3.And(eq(mf(D, "atim", o), get(10)), eq(mf(D, "mtim", o), get(11)), eq(mf(D, "ctim", o), get(12)))), P), ("the rest stays", z3.Implies(h, z3.And(eq(mf(D, "size", o), mf(D, "size", o, True)), synced(D, o) == synced(D, o, True))), P)]
            else: out.append(("the times are looked up", z3.BoolVal(len(ls) == 1), P))
        return out
def ts_arg(ex, st): return Val(BUF, [z3.Int("arg:ts"), z3.IntVal(0)])


STAT = ("struct", "stat")
def other_state(D, o, P, blocks=True):
    """everything about other files, and every cached block, is as before"""
    c, b = kc(), K(); V = ("page", "rd", "byte", "sync"); out = [x[:2] + (P,) for x in ca.other_files(D, o)]
    return out + ([("blocks stay", fa([c, b], z3.And([ev(D, n, c, b) == ev(D, n, c, b, True) for n in V]), [[ev(D, n, c, b)] for n in V]), P), ("dirty blocks stay dirty", fa([c, b], z3.Implies(z3.And(cached(D, c, b), ev(D, "dirty", c, b, True)), ev(D, "dirty", c, b)), [ev(D, "dirty", c, b)]), P)] if blocks else [])
class Getattr(FsOp):
    """cached metadata if the file has contents in the cache, else those of the file, which become its cached metadata"""
    name = "LazyFS::lfs_getattr"; props = ("C03", "C07", "C08", "C09", "C20", "C18", "C21"); min_rank = 0; shared_ok = (("cmd", "S"),)
    def args(self, C, case):
        st = C.st; v = fresh(STAT, "statbuf"); C.ex.note_range(st, v); st.env["$stbuf"] = v
        return {"path": sarg("path"), "stbuf": PtrTo(LVar("$stbuf"), None), "fi": fi_arg(C.ex, st)}
    def apply(self, ex, st, fn, this, args, n):
        st0 = st.copy(); C = Ctx(ex, st0, st, dict(zip([p.get("name") for p in fn.params], args))); touch(C); C.st0 = st0 = st.copy()
        for lab, f, *pr in fsinv(C): ex.oblige(st, "call %s: %s" % (self.name, lab), f, "pre", n, pr[0] if pr else ())
        self.check_locks(ex, st, n); r = lib.stat_fill(ex, st, args[0].z, args[1], "lstat"); s = st.trace[-1][1][2]
        if s is None: return Val(INT, [-C.g_("errno", I)])
        for m in CACHE_MOD:
            l = st.heap.get(m)
            if l is not None: st.heap[m] = [fresh_leaf(x.sort(), m + "_ga") for x in l]
        v = fresh(STAT, "stat_ga"); ex.note_range(st, v); ex.write(st, args[1].lv, v)
        for lab, f, *_ in fsinv(C) + self.facts(C, args[0].z, v, s): st.assume(f)
        return Val(INT, [z3.IntVal(0)])
    def facts(self, D, p, v, s):
        P = ("C07", "C08", "C09", "C20"); o = itoa(ino(D, p)); g = lambda n: comp(v, [f for f, _ in STRUCTS["stat"]].index(n)).l; w = lambda n: comp(s, [f for f, _ in STRUCTS["stat"]].index(n)).l
        r = reg(D, ino(D, p)); h = chas(D, o, True); F = (("size", "st_size"), ("atim", "st_atim"), ("ctim", "st_ctim"), ("mtim", "st_mtim"), ("nlinks", "st_nlink")); sz = csize(D, o); nm, n0 = names(D), names(D, True)
        return [pages_in_use(D), ("what is not a regular file is reported as it is", z3.Implies(z3.Not(r), eq(v.l, s.l)), P), ("a file without contents is reported as it is", z3.Implies(z3.And(r, z3.Not(h)), eq(v.l, s.l)), P),
                ("the size, times and links of a cached file are the cached ones", z3.Implies(z3.And(r, h), z3.And([eq(mf(D, f, o, True), g(n)) for f, n in F])), P), ("the rest is that of the file", z3.Implies(z3.And(r, h), z3.And([eq(g(n), w(n)) for n in ("st_dev", "st_ino", "st_mode", "st_uid", "st_gid", "st_rdev", "st_blksize")])), P),
                ("blocks of 512 bytes for the blocks of the file", z3.Implies(z3.And(r, h), g("st_blocks")[0] == z3.If(sz > 0, (sz - 1) / BS + 1, 0) * BS / 512), P),
                ("a regular file has contents and a name from then on", z3.Implies(r, z3.And(chas(D, o), mhas(names(D), p), z3.And([eq(mf(D, f, o), g(n)) for f, n in F]))), P),
                ("names stay", z3.And(nm.l[0] == z3.If(r, z3.Store(n0.l[0], p, True), n0.l[0]), nm.l[1] == z3.If(r, z3.Store(n0.l[1], p, o), n0.l[1])), P), ca.outside(D), ("it stays synced or not", z3.Implies(h, synced(D, o) == synced(D, o, True)), P)] + other_state(D, z3.If(r, o, lit("none")), P)
    def res(self, D):
        P = ("C07", "C08", "C09", "C20"); ls = events(D, {"lstat"}); out = [("nothing of the backing file system changes", z3.BoolVal(len(ls) == 1 and not mutating(D)), P + ("C03",))]
        if len(ls) != 1: return out
        s = ls[0][1][2]; p = S("path")
        if s is None: return out + [("the error is returned", D.ret.l[0] == -errno(D), P)] + other_state(D, lit("none"), P)
        return out + [("returns 0", D.ret.l[0] == 0, P), ("looks the path up", ls[0][1][0] == p, P)] + self.facts(D, p, D.st.env["$stbuf"], s)
def content(C, i, x, old=False):
    """byte x of a cached file, as a reader sees it"""
    c = itoa(i); return z3.If(cached(C, c, x / BS, old), z3.Select(ev(C, "byte", c, x / BS, old), x % BS), z3.Select(fdata(C, i, old), x))
def fault_pre(C):
    from contracts import torn
    d = Ctx(C.ex, C.st0, C.st, {"path": sarg("path"), "op": Val(STR, [lit("write")])}); d.this = LObj("LazyFS", None); return torn.RestartCounter().pre(d) + torn.CheckAndDelete().pre(d)
def other_backing(D, i, P):
    j = K("j"); return ("other files of the backing file system are not touched", fa(j, z3.Implies(j != i, z3.And(fdata(D, j) == fdata(D, j, True), fsize(D, j) == fsize(D, j, True))), [[fdata(D, j)], [fsize(D, j)]]), P)
def around(D, op, paths):
    """the fault points of an operation on cached contents: before it and after it"""
    out = []
    for kind, P in (("crash?", ("C13",)), ("clear?", ("C12",))):
        tr = [a for k, a in D.st.trace if k == kind]
        out.append(("%s faults are consulted before and after" % kind[:-1], z3.And(z3.BoolVal(len(tr) == 2), *([same(tr[0], [lit(op), lit("before")] + list(paths)), same(tr[1], [lit(op), lit("after")] + list(paths))] if len(tr) == 2 else [])), P))
    return out
class Fsync(FsOp):
    """the file's backing contents and size become those a reader sees"""
    name = "LazyFS::lfs_fsync"; props = ("C02", "C03", "C11", "C12", "C13", "C18", "C21"); looked_up = ("path",)
    opts = {"stat_ok": True, "trigger_fires": False}
    def args(self, C, case): return {"path": sarg("path"), "isdatasync": iarg(C.ex, C.st, INT, "isdatasync"), "fi": fi_arg(C.ex, C.st, False)}
    def more_pre(self, C): return fault_pre(C) + [("the file is there", z3.And(ino(C, S("path")) > 0, reg(C, ino(C, S("path")))))]
    def res(self, D):
        P = ("C02",); i = ino(D, S("path")); c = itoa(i); h = chas(D, c, True); s = csize(D, c, True); x, b = K("x"), K(); d = z3.Select(fdata(D, i), x)
        return [("every byte a reader sees is in the file", fa(x, z3.Implies(z3.And(h, x >= 0), d == z3.If(x < s, content(D, i, x, True), 0)), [d]), P), ("the file has the size a reader sees", z3.Implies(h, fsize(D, i) == s), P), other_backing(D, i, ("C02", "C03")),
                ("a reader sees the same as before", fa(x, z3.Implies(z3.And(h, x >= 0, x < s), content(D, i, x) == content(D, i, x, True)), [content(D, i, x)]), ("C01", "C02")), ("the file is synced", z3.Implies(h, synced(D, c)), ("C02", "C15")), ("returns 0", z3.Implies(h, D.ret.l[0] == 0), P)] + around(D, "fsync", (S("path"), lit("")))


# ------------------------------------------------------------------ contents
def user_bufs(C):
    b = K("buf"); n = z3.Select(C.ex.buflen(C.st), b); return ("memory that is not allocated is no cache page", fa(b, z3.Implies(n == -1, ca.user(C, b)), [n]))
def isopen(C, old=False): return lib.fsc(C.ex, C.st0 if old else C.st, "isopen", z3.ArraySort(I, B))
def fds(C, old=False): return lib.F_FD(C.ex, C.st0 if old else C.st)
def vsize(C, i, old=False): return z3.If(chas(C, itoa(i), old), csize(C, itoa(i), old), fsize(C, i, old))
MAXSZ = 2 ** 31 * BS - BS
def other_contents(C, o, i, P):
    """other files: contents in the cache and in the backing file system are as before"""
    c, b = kc(), K(); V = ("page", "rd", "byte", "sync")
    return [x[:2] + (P,) for x in ca.other_files(C, o)] + [("blocks of other files stay", fa([c, b], z3.Implies(c != o, z3.And([ev(C, n, c, b) == ev(C, n, c, b, True) for n in V])), [[ev(C, n, c, b)] for n in V]), P),
            ("changed blocks of other files stay changed", fa([c, b], z3.Implies(z3.And(c != o, cached(C, c, b), ev(C, "dirty", c, b, True)), ev(C, "dirty", c, b)), [ev(C, "dirty", c, b)]), P), other_backing(C, i, P)]
def in_cache_only(C, i, lo, off, to, P):
    """the backing file changes only from lo to `to`, from off on only where a block could not be cached, and only if every page is in use"""
    x = K("x"); d, d0 = z3.Select(fdata(C, i), x), z3.Select(fdata(C, i, True), x); c = itoa(i); n, n0 = fsize(C, i), fsize(C, i, True); u, u0 = C.g_("e.used", I), C.g_("e.used", I, old=True); full = u == en.N(C)
    return [("the backing file changes only where a block is not cached", fa(x, z3.Implies(z3.Or(x < lo, x >= to, z3.And(x >= off, cached(C, c, x / BS)), z3.Not(full)), d == d0), [d]), P), ("and grows only with such blocks", z3.Or(n == n0, z3.And(full, n > n0, n <= to, z3.Or(n <= off, z3.Not(cached(C, c, (n - 1) / BS))))), P)]
def pages_in_use(C): u, u0 = C.g_("e.used", I), C.g_("e.used", I, old=True); return ("pages in use stay in use", z3.And(u >= u0, z3.Or(u == u0, u <= en.N(C))), ("C03", "C06"))
def others_mem(C, but):
    b = K("buf"); M, M0 = (z3.Select(C.ex.mem(x), b) for x in (C.st, C.st0)); return ("memory of the caller stays", fa(b, z3.Implies(z3.And(ca.user(C, b), b != but if but is not None else z3.Select(C.ex.buflen(C.st0), b) >= 0), M == M0), [M]))
class WriteToCache(Contract):
    """a reader sees the bytes written; bytes between the old end and the write are zero"""
    name = "LazyFS::write_to_cache"; units = ("lazyfs",); props = ("C09", "C01", "C03", "C05", "C07", "C21"); modifies = None
    opts = {"stat_ok": True, "open_ok": True}; consts = {"APPLY_LRU_EVICTION": 0}; shares = 4
    def cases(self): return ["open", "no fi"]
    def this(self, C): return None
    def args(self, C, case):
        ex, st = C.ex, C.st; sz = iarg(ex, st, ULONG, "size"); off = iarg(ex, st, LONG, "offset"); b = Val(BUF, [z3.Int("arg:buf"), z3.Int("arg:buf_off")])
        return {"path": sarg("path"), "buf": b, "size": sz, "offset": off, "fi": fi_arg(ex, st, False) if case == "open" else NULLFI()}
    def vals(self, C): return C.az("path"), C.a("buf").l[0], C.a("buf").l[1], C.az("size"), C.az("offset")
    def fi(self, C):
        v = C.a("fi")
        if not isinstance(v, PtrTo): return None
        w = C.ex._read(C.st0, v.lv); return w
    def pre(self, C):
        touch(C); isopen(C); p, bid, bo, n, off = self.vals(C); i = ino(C, p); fi = self.fi(C)
        out = fsinv(C) + [user_bufs(C), ("the kernel has looked the name up", known(C, p)), ("the file is there", z3.And(i > 0, reg(C, i))), ("the write is one", z3.And(n >= 1, n < 2 ** 31, off >= 0, off + n <= MAXSZ)),
               ("the bytes are readable", z3.And(bid > 0, bo >= 0, bo + n <= z3.Select(C.ex.buflen(C.st), bid))), ("they are not in a cache page", ca.user(C, bid)), ("there are pages", en.N(C) > 0)]
        if fi is None: return out + [("without an open file the write starts in the file", off <= vsize(C, i))]
        fd = comp(fi, 4).z; return out + [("the open file is this one", z3.And(fd > 2, fd < 2 ** 31, z3.Select(fds(C), fd) == i, z3.Select(isopen(C), fd))), ("no direct I/O", comp(fi, 2).z == 0), ("a gap can be filled", off - vsize(C, i) < 2 ** 31)]
    def event(self, C): return ("write_to_cache", [C.az("path"), C.a("buf").l[0], C.a("buf").l[1], C.az("size"), C.az("offset")])
    def mod_cells(self, C): return tuple(k for k in CACHE_MOD if k != "mem") + ("mem", "buflen", "fs.data", "fs.size", "fs.fd", "fs.isopen", "errno") + CLOCK
    def post(self, C):
        p, bid, bo, n, off = self.vals(C); i = ino(C, p, True); o = itoa(i); x, f = K("x"), K("f"); s0 = vsize(C, i, True); t = off + n; s1 = z3.If(t > s0, t, s0); M0 = C.ex.mem(C.st0); b = z3.Select(z3.Select(M0, bid), bo + x - off); P = ("C01", "C05", "C07")
        d = z3.Select(fdata(C, i), x); by = z3.Select(ev(C, "byte", o, x / BS), x % BS); q = kc("name"); nm, n0 = names(C), names(C, True)
        return fsinv(C) + [user_bufs(C), ("returns the bytes written", C.ret.l[0] == n, P), ("the file has contents and the size it must have", z3.And(chas(C, o), csize(C, o) == s1), P + ("C09",)), now(C, o),
            ("a reader sees the bytes written, over what was there, over zeros", fa(x, z3.Implies(z3.And(x >= 0, x < s1), content(C, i, x) == z3.If(z3.And(off <= x, x < t), b, z3.If(x < s0, content(C, i, x, True), 0))), [d, by]), P),
            others_mem(C, None), ("buffers stay", fa(f, z3.Implies(z3.Select(C.ex.buflen(C.st0), f) >= 0, z3.And(z3.Select(C.ex.buflen(C.st), f) == z3.Select(C.ex.buflen(C.st0), f))), [z3.Select(C.ex.buflen(C.st), f)])),
            ("descriptors stay", fa(f, z3.Implies(z3.Select(isopen(C, True), f), z3.And(z3.Select(isopen(C), f), z3.Select(fds(C), f) == z3.Select(fds(C, True), f))), [[z3.Select(fds(C), f)], [z3.Select(isopen(C), f)]])),
            ("the name is known, other names stay", z3.And(nm.l[0] == z3.Store(n0.l[0], p, True), nm.l[1] == z3.Store(n0.l[1], p, o))), pages_in_use(C)] + in_cache_only(C, i, z3.If(s0 < off, s0, off), off, t, ("C03",)) + other_contents(C, o, i, P)
    class Loop:
        def inv(self, L):
            E, C = Ctx(L.ex, L.entry, L.entry, {}), Ctx(L.ex, L.entry, L.st, {}); p, bid, bo, n, off = L.z("path"), L.old("buf").l[0], L.old("buf").l[1], L.z("size"), L.z("offset"); i = ino(E, p); o = itoa(i); k = L.z("CURR_BLK_IDX"); lo, hi = L.z("blk_low"), L.z("blk_high"); x = K("x"); P = ("C01", "C05", "C07")
            done = z3.If(k * BS > off + n, off + n, z3.If(k == lo, off, k * BS)); s0 = csize(E, o); sk = z3.If(done > s0, done, s0); d = z3.Select(fdata(C, i), x); by = z3.Select(ev(C, "byte", o, x / BS), x % BS)
            return fsinv(C, lambda j, s: z3.If(j == i, sk, s)) + [("position", z3.And(lo <= k, k <= hi + 1)), ("bytes taken", z3.And(L.z("data_allocated") == done - off, L.z("data_buffer_iterator") == done - off)),
                ("a reader sees the bytes written so far", fa(x, z3.Implies(z3.And(x >= 0, x < sk), content(C, i, x) == z3.If(z3.And(off <= x, x < done), z3.Select(z3.Select(C.ex.mem(L.entry), bid), bo + x - off), content(E, i, x))), [d, by]), P),
                others_mem(C, L.v("block_caching_buffer").l[0]), ("the file has contents", chas(C, o)), ("metadata stay", ca.meta_same(C, o))] + [pages_in_use(C)] + in_cache_only(C, i, off, off, done, ("C03",)) + other_contents(C, o, i, P)
    loops = {0: Loop()}
def NULLFI(): return Val(("ptr", "fuse_file_info"), [z3.IntVal(0)])

class Read(FsOp):
    """returns the bytes a reader must see, up to the end of the file"""
    name = "LazyFS::lfs_read"; props = ("C01", "C03", "C05", "C07", "C09", "C12", "C13", "C18", "C21"); looked_up = ("path",); shares = 2
    opts = {"stat_ok": True, "open_ok": True, "trigger_fires": False}; consts = {"APPLY_LRU_EVICTION": 0}
    def cases(self): return ["open", "no fi"]
    def args(self, C, case):
        ex, st = C.ex, C.st; return {"path": sarg("path"), "buf": Val(BUF, [z3.Int("arg:buf"), z3.Int("arg:buf_off")]), "size": iarg(ex, st, ULONG, "size"), "offset": iarg(ex, st, LONG, "offset"), "fi": fi_arg(ex, st, False) if case == "open" else NULLFI()}
    def more_pre(self, C):
        p = S("path"); i = ino(C, p); b = C.a("buf").l; n, off = C.az("size"), C.az("offset"); isopen(C)
        out = [user_bufs(C), ("the file is there", z3.And(i > 0, reg(C, i))), ("the read is one", z3.And(n >= 1, n < 2 ** 31, off >= 0, off < 2 ** 62)), ("there is room for the bytes", z3.And(b[0] > 0, b[1] >= 0, b[1] + n <= z3.Select(C.ex.buflen(C.st), b[0]))), ("the room is not in a cache page", ca.user(C, b[0]))]
        if C.case == "open": out.append(("the open file is this one", z3.And(z3.Select(fds(C), FD()) == i, z3.Select(isopen(C), FD()))))
        return out
    def res(self, D):
        i = ino(D, S("path")); b = D.a("buf").l; n, off = z3.Int("arg:size"), D.az("offset"); s = vsize(D, i, True); left = z3.If(s > off, s - off, 0); r = z3.If(n < left, n, left); j, q = K("j"), K("buf"); P = ("C01", "C05", "C07"); M, M0 = D.ex.mem(D.st), D.ex.mem(D.st0); m = z3.Select(z3.Select(M, b[0]), j); x = off + j - b[1]
        return [("returns the bytes there are", D.ret.l[0] == r, P), ("the reader gets the contents of the file", fa(j, z3.Implies(z3.And(b[1] <= j, j < b[1] + r), m == content(D, i, x, True)), [m]), P), ("the rest of the buffer stays", fa(j, z3.Implies(z3.Or(j < b[1], j >= b[1] + r), m == z3.Select(z3.Select(M0, b[0]), j)), [m]), P),
                ("no file changes", z3.And(lib.F_DATA(D.ex, D.st) == lib.F_DATA(D.ex, D.st0), lib.F_SIZE(D.ex, D.st) == lib.F_SIZE(D.ex, D.st0)), ("C03",))] + other_state(D, itoa(i), P) + [("the size stays", csize(D, itoa(i)) == s, P + ("C09",)), ("the modification time stays", z3.Implies(chas(D, itoa(i), True), eq(mf(D, "mtim", itoa(i)), mf(D, "mtim", itoa(i), True))), ("C09",))] + around(D, "read", (S("path"), lit("")))
    class Loop:
        def inv(self, L):
            E, C = Ctx(L.ex, L.entry, L.entry, {}), Ctx(L.ex, L.entry, L.st, {}); p, b, n, off = L.z("path"), L.old("buf").l, L.z("size"), L.z("offset"); i = ino(E, p); o = itoa(i); k = L.z("CURR_BLK_IDX"); lo, hi = L.z("blk_low"), L.z("blk_high"); j, q = K("j"), K(); P = ("C01", "C05", "C07")
            pos = z3.If(k == lo, off, z3.If(k * BS > off + n, off + n, k * BS)); it, ch, at = L.z("BUF_ITERATOR"), L.z("last_pread_chunk_size"), L.z("last_pread_chunk_offset"); M, M0 = C.ex.mem(L.st), C.ex.mem(L.entry); m = z3.Select(z3.Select(M, b[0]), j)
            return [("position", z3.And(lo <= k, k <= hi + 1)), ("bytes delivered and bytes to be read", z3.And(it >= 0, ch >= 0, it + ch == pos - off, L.z("BYTES_LEFT") == n - it, L.z("data_allocated") == pos - off), P), ("bytes to be read are in the file", z3.Implies(ch > 0, fsize(C, i) >= pos), P), ("where the next bytes are read", z3.Implies(z3.Or(ch > 0, k <= hi), at == off + it), P),
                    ("the bytes delivered", fa(j, z3.Implies(z3.And(b[1] <= j, j < b[1] + it), m == content(E, i, off + j - b[1])), [m]), P), ("the rest stays", fa(j, z3.Implies(z3.Or(j < b[1], j >= b[1] + it), m == z3.Select(z3.Select(M0, b[0]), j)), [m]), P),
                    ("blocks to be read are not cached", fa(q, z3.Implies(z3.And(ch > 0, q * BS < pos, q * BS + BS > off + it), z3.Not(cached(C, o, q))), [ev(C, "page", o, q)]), P)]
    loops = {0: Loop()}

class Truncate(FsOp):
    """the file has the new size; what stays is what was there, what is new is zero"""
    name = "LazyFS::lfs_truncate"; props = ("C01", "C03", "C05", "C06", "C07", "C09", "C12", "C13", "C18", "C21"); shares = 2
    opts = {"stat_ok": True, "open_ok": True, "trigger_fires": False}; consts = {"APPLY_LRU_EVICTION": 0}; locks_needed_free = ("cmd",); min_rank = 0
    def cases(self): return ["open", "no fi"]
    def args(self, C, case): return {"path": sarg("path"), "truncate_size": iarg(C.ex, C.st, LONG, "truncate_size"), "fi": fi_arg(C.ex, C.st, False) if case == "open" else NULLFI()}
    fi = WriteToCache.fi
    def pre(self, C):
        touch(C); isopen(C); p = C.az("path"); t = C.az("truncate_size"); i = ino(C, p); fi = self.fi(C)
        out = fsinv(C) + [user_bufs(C), ("the kernel has looked the name up", known(C, p)), ("the file is there", z3.And(i > 0, reg(C, i))), ("the size is one", z3.And(t >= 0, t <= MAXSZ, t - vsize(C, i) < 2 ** 31)), ("there are pages", en.N(C) > 0)]
        if fi is None: return out
        fd = comp(fi, 4).z; return out + [("the open file is this one", z3.And(fd > 2, fd < 2 ** 31, z3.Select(fds(C), fd) == i, z3.Select(isopen(C), fd))), ("no direct I/O", comp(fi, 2).z == 0)]
    mod_cells = WriteToCache.mod_cells
    def event(self, C): return ("lfs_truncate", [C.az("path"), C.az("truncate_size")])
    def post(self, C):
        p = C.az("path"); t = C.az("truncate_size"); i = ino(C, p, True); o = itoa(i); x, f = K("x"), K("f"); s0 = vsize(C, i, True); P = ("C01", "C05", "C07"); d = z3.Select(fdata(C, i), x); by = z3.Select(ev(C, "byte", o, x / BS), x % BS); nm, n0 = names(C), names(C, True)
        return fsinv(C) + [user_bufs(C), ("returns 0", C.ret.l[0] == 0, P), ("the file has contents and the new size", z3.And(chas(C, o), csize(C, o) == t), P + ("C09",)), now(C, o),
            ("a reader sees what was there, then zeros", fa(x, z3.Implies(z3.And(x >= 0, x < t), content(C, i, x) == z3.If(x < s0, content(C, i, x, True), 0)), [d, by]), P), others_mem(C, None),
            ("descriptors stay", fa(f, z3.Implies(z3.Select(isopen(C, True), f), z3.And(z3.Select(isopen(C), f), z3.Select(fds(C), f) == z3.Select(fds(C, True), f))), [[z3.Select(fds(C), f)], [z3.Select(isopen(C), f)]])),
            ("the name is known, other names stay", z3.And(nm.l[0] == z3.Store(n0.l[0], p, True), nm.l[1] == z3.Store(n0.l[1], p, o)))] + in_cache_only(C, i, s0, s0, z3.If(t > s0, t, s0), ("C03",)) + other_contents(C, o, i, P) + (around(C, "truncate", (p, lit(""))) if hasattr(C, "case") else [])

class Write(FsOp):
    """the bytes go to the cache; then the torn faults see the write, and the crash faults learn which of them did"""
    name = "LazyFS::lfs_write"; props = ("C01", "C03", "C10", "C11", "C12", "C13", "C18", "C21"); opts = {"trigger_fires": False}; consts = {"APPLY_LRU_EVICTION": 0}
    w = WriteToCache()
    def args(self, C, case): return self.w.args(C, "open")
    def pre(self, C): return self.w.pre(C)
    def post(self, D):
        p, bid, bo, n, off = self.w.vals(D); P = ("C01", "C10", "C11"); a = [p, bid, bo, n, off]; T = [(k, x) for k, x in D.st.trace if k in ("crash?", "clear?", "write_to_cache", "persist_write", "split_write")]; seq = [k for k, _ in T]
        full = ["crash?", "clear?", "write_to_cache", "persist_write", "split_write", "crash?", "clear?"]; seen = seq == full or seq == full[:4] + full[5:]
        out = [("the fault points before, the cache, the torn faults, the fault points after", z3.BoolVal(seen), P + ("C12", "C13")), ("nothing else reaches the backing file system", z3.BoolVal(not mutating(D)), ("C03",))]
        if not seen: return out
        t = dict(T[2:5]); pw = T[3][1][-1]; typ = T[-2][1][4]
        return out + [("the write goes to the cache as it is", same(T[2][1], a), P), ("the torn faults see the write as it is", z3.And(same(T[3][1], a), same(T[4][1], a) if seq == full else z3.BoolVal(True)), P), ("the second kind is asked exactly if the first did not fire", pw == z3.BoolVal(seq != full), P),
                      ("the crash faults learn the kind", typ == z3.If(pw, lit("torn-seq"), lit("torn-op")), P + ("C13",)), ("returns the bytes written", D.ret.l[0] == n, P)] + around(D, "write", (p, lit("")))
def bits(fl, m): return lib.bit_and(fl, m)
class Open(FsOp):
    """opens the file without truncating it there; truncation is done in the cache"""
    name = "LazyFS::lfs_open"; props = ("C03", "C07", "C20", "C12", "C13", "C18", "C21"); looked_up = ("path",); opts = {"stat_ok": True, "trigger_fires": False}; consts = {"APPLY_LRU_EVICTION": 0}; op = "open"; keep = ~0o3000; call = "open"
    def args(self, C, case): return {"path": sarg("path"), "fi": fi_arg(C.ex, C.st, False)}
    def fl(self): return z3.Const("fi:0", I)
    def more_pre(self, C):
        i = ino(C, S("path")); isopen(C); C.ex.note_range
        return [user_bufs(C), ("there are pages", en.N(C) > 0), ("the file, if there is one, is a regular one", z3.And(i >= 0, z3.Implies(i > 0, reg(C, i)))), ("no direct I/O", z3.Const("fi:2", I) == 0)]
    def mode(self, D): return None
    def res(self, D):
        P = ("C20",); op = events(D, {"open"}); out = [("one call of open, no other change of the backing file system", z3.BoolVal(len(op) == 1 and all(k in ("open",) for k, _ in mutating(D))), ("C20", "C03"))]
        if len(op) != 1: return out
        a = op[0][1]; ok = z3.simplify(a[-1] != -1); tr = events(D, {"lfs_truncate"}); want = bits(self.fl(), 0o1000) != 0
        out += [("open gets the path and the flags", z3.And(a[0] == S("path"), a[1] == bits(self.fl(), self.keep)), P + ("C03",))] + ([("open gets the mode", a[2] == self.mode(D), P)] if self.mode(D) is not None else [])
        good = z3.Not(a[-1] == -1)
        out += [("the error is returned", z3.Implies(z3.Not(good), D.ret.l[0] == -errno(D)), P), ("returns 0 with the descriptor", z3.Implies(good, z3.And(D.ret.l[0] == 0, comp(D.st.env["$fi"], 4).z == a[-1])), P)]
        if self.op == "open": out += [("truncated in the cache exactly if asked for", z3.And(z3.BoolVal(len(tr) == 1) == z3.And(good, want), z3.And([same(t[1], [S("path"), z3.IntVal(0)]) for t in tr])), ("C07", "C03"))]
        return out + self.faults(D, good) + self.more(D, good)
    def more(self, D, good): return []
    def faults(self, D, good):
        out = []
        for kind, P in (("crash?", ("C13",)), ("clear?", ("C12",))):
            tr = [a for k, a in D.st.trace if k == kind]; sp = [S("path"), lit("")]
            out.append(("%s faults are consulted before, and after exactly on success" % kind[:-1], z3.And(z3.BoolVal(len(tr) == 2) == good, z3.BoolVal(len(tr) in (1, 2)), *[same(x, [lit(self.op), lit(t)] + sp) for x, t in zip(tr, ("before", "after"))]), P))
        return out
class Create(Open):
    """creates the file with the flags and the mode; it has contents in the cache from then on"""
    name = "LazyFS::lfs_create"; op = "create"; keep = ~0o2000; props = ("C04", "C07", "C20", "C12", "C13", "C18", "C21")
    def args(self, C, case): return {"path": sarg("path"), "mode": iarg(C.ex, C.st, UINT, "mode"), "fi": fi_arg(C.ex, C.st, False)}
    def mode(self, D): return D.az("mode")
    def more_pre(self, C): return super().more_pre(C) + [("the kernel creates names that are not there, or does not truncate", z3.Or(ino(C, S("path")) == 0, bits(self.fl(), 0o1000) == 0))]
    def more(self, D, good):
        i = ino(D, S("path")); o = itoa(i); new = ino(D, S("path"), True) == 0; b = K()
        return [("the file has contents", z3.Implies(good, z3.And(chas(D, o), mhas(names(D), S("path")))), ("C04",)), ("a new file is empty", z3.Implies(z3.And(good, new), z3.And(csize(D, o) == 0, fa(b, z3.Not(cached(D, o, b)), [ev(D, "page", o, b)]))), ("C04", "C07"))]

def contracts(): return [Link(), Unlink(), DirFiles(), RenameDir(), Rename(), Utimens(), Getattr(), Fsync(), WriteToCache(), Read(), Truncate(), Write(), Open(), Create()]
