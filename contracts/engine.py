"""The page cache: which bytes each file has in memory (libs/libpcache/src/engine/backends/custom/custom_cache.cpp).

View for callers, per owner and block: e.page (the page holding it, -1: not cached), e.byte, e.rd (last readable byte),
e.sync (written out since its last change), e.dirty (its page is written at the next sync).  `eng_inv` couples the view
with the engine's maps and the pages; every method below is proved to keep it.  With eviction on the cases named "lru" also keep the recency order (`lru_full`)."""
import z3
from sym import *
from verify import Contract, Ctx
from contracts.faults import int_arg
from contracts.ops import sarg, S
from contracts.leaf import fa, K, alive, I2B, I2I
from contracts import page as pg
import lib
from exec import LoopCtx
from contracts.page import BS
NONE = "none"
S2 = lambda t: z3.ArraySort(Str, t)
VIEW = {"e.page": S2(I2I), "e.rd": S2(I2I), "e.sync": S2(I2B), "e.dirty": S2(I2B), "e.byte": S2(z3.ArraySort(I, I2I)), "e.used": I}
GHOST = {"eng.$fpos": I2I, "eng.$opos": I2I}
ENG = "CustomCacheEngine."
REP = tuple(ENG + f for f in ("owner_pages_mapping", "owner_free_pages_mapping", "owner_ordered_pages_mapping", "free_pages"))
PAGE = tuple(pg.VIEW) + pg.REP + ("mem", "Page.is_dirty", "Page.page_owner_id")
def ev(C, n, o, b=None, old=False):
    a = z3.Select(C.g_("e." + n, VIEW["e." + n], old=old), o)
    return a if b is None else z3.Select(a, b)
def ev_set(C, n, o, v): C.st.heap["e." + n] = [z3.Store(C.g_("e." + n, VIEW["e." + n]), o, v)]
def EF(C, f, old=False): return C.f("CustomCacheEngine", f, old=old)
def N(C): return C.f("Config", "CACHE_NR_PAGES").z
def owner(C, p): return C.f("Page", "page_owner_id", p).z
def has(C, p, b): return z3.Select(pg.view(C, "$has", p), b)
def cached(C, o, b, old=False): return ev(C, "page", o, b, old) >= 0
def eng_inv(C):
    i, j, b, k, p = (K(x) for x in "ijbkp"); o = z3.FreshConst(Str, "o"); none = lit(NONE)
    si, opm, ofp, oo, fp = (EF(C, f) for f in ("search_index", "owner_pages_mapping", "owner_free_pages_mapping", "owner_ordered_pages_mapping", "free_pages"))
    P = z3.Select(si.l[1], i); inr = z3.And(0 <= i, i < N(C)); fpj = z3.Select(fp.l[1], j); fpos = C.g_("eng.$fpos", I2I); opos = C.g_("eng.$opos", I2I)
    nfree = lambda p: z3.Select(C.g_("Page.$nfree", I2I), p); pset = msel(opm, o); fl = msel(ofp, o); flj = z3.Select(fl.l[1], j); bl = msel(oo, o); e = msel(bl, b)
    page = ev(C, "page", o, b); dirty = lambda p: C.f("Page", "is_dirty", p).z; SI = lambda x: z3.Select(si.l[1], x); ownI = owner(C, P); hasI = has(C, P, b)
    return [("pages are numbered", fa(i, z3.And(mhas(si, i) == inr, z3.Implies(inr, z3.And(P > 0, alive(C, "Page", P), z3.Select(C.g_("Page.$id", I2I), P) == i))), [[P], [mhas(si, i)]])),
            ("sizes", z3.And(fp.l[0] >= 0, N(C) >= 0, N(C) < 2 ** 31, C.g_("e.used", I) == N(C) - fp.l[0])),
            ("unowned pages are empty", fa([i, b], z3.Implies(z3.And(inr, ownI == none), z3.And(z3.Not(hasI), nfree(P) > 0)), [hasI])),
            ("unowned pages have room", fa(i, z3.Implies(z3.And(inr, ownI == none), nfree(P) > 0), [P])),
            ("free pages are nobody's and listed once", fa(j, z3.Implies(z3.And(0 <= j, j < fp.l[0]), z3.And(0 <= fpj, fpj < N(C), owner(C, SI(fpj)) == none, z3.Select(fpos, fpj) == j)), [fpj])),
            ("nobody's pages are free", fa(i, z3.Implies(z3.And(inr, ownI == none), z3.And(0 <= z3.Select(fpos, i), z3.Select(fpos, i) < fp.l[0], z3.Select(fp.l[1], z3.Select(fpos, i)) == i)), [P])),
            ("the three owner maps have the same owners", fa(o, z3.And(mhas(opm, o) == mhas(oo, o), mhas(ofp, o) == mhas(oo, o), z3.Implies(o == none, z3.Not(mhas(oo, o)))), [[mhas(opm, o)], [mhas(ofp, o)], [mhas(oo, o)]])),
            ("pages of an owner", fa([o, i], z3.Implies(mhas(opm, o), z3.Select(pset.l[0], i) == z3.And(inr, ownI == o)), [z3.Select(pset.l[0], i)])),
            ("owners of pages are known", fa(i, z3.Implies(z3.And(inr, ownI != none), mhas(opm, ownI)), [P])),
            ("pages with room of an owner, each once", fa([o, j], z3.Implies(z3.And(mhas(ofp, o), 0 <= j, j < fl.l[0]), z3.And(0 <= flj, flj < N(C), owner(C, SI(flj)) == o, nfree(SI(flj)) > 0, z3.Select(opos, flj) == j)), [flj])),
            ("lists have a length", fa(o, z3.Implies(mhas(ofp, o), fl.l[0] >= 0), [fl.l[0]])),
            ("owned pages with room are listed", fa(i, z3.Implies(z3.And(inr, ownI != none, nfree(P) > 0), z3.And(0 <= z3.Select(opos, i), z3.Select(opos, i) < msel(ofp, ownI).l[0], z3.Select(msel(ofp, ownI).l[1], z3.Select(opos, i)) == i)), [P])),
            ("blocks of an owner are in its pages", fa([o, b], z3.Implies(z3.And(mhas(oo, o), mhas(bl, b)), z3.And(0 <= e.l[0], e.l[0] < N(C), e.l[1] == SI(e.l[0]), owner(C, e.l[1]) == o, has(C, e.l[1], b), e.l[2] == z3.Select(pg.view(C, "$off", e.l[1]), b), page == e.l[0],
                ev(C, "sync", o, b) == e.l[4], ev(C, "dirty", o, b) == dirty(e.l[1]), ev(C, "rd", o, b) == z3.Select(pg.view(C, "$rd", e.l[1]), b), z3.Implies(z3.Not(e.l[4]), dirty(e.l[1])))), [[mhas(bl, b)]])),
            ("what is cached is recorded", fa([o, b], z3.And(page >= -1, (page >= 0) == z3.And(mhas(oo, o), mhas(bl, b)), z3.Implies(page >= 0, z3.And(owner(C, SI(page)) == o, has(C, SI(page), b)))), [[page], [mhas(bl, b)]])),
            ("blocks of an owned page are recorded", fa([i, b], z3.Implies(z3.And(inr, ownI != none, hasI), ev(C, "page", ownI, b) == i), [hasI])),
            ("bytes", fa([o, b, k], z3.Implies(z3.And(page >= 0, 0 <= k, k < BS), z3.Select(ev(C, "byte", o, b), k) == z3.Select(z3.Select(pg.view(C, "$byte", SI(page)), b), k)), [z3.Select(ev(C, "byte", o, b), k)]))]

class EngM(Contract):
    units = ("engine", "page", "block_offsets"); props = ("C01", "C02", "C05", "C21", "C18"); modifies = (); consts = {"APPLY_LRU_EVICTION": 0}; min_rank = 5; ow = "content_owner_id"
    def this(self, C): return LObj("CustomCacheEngine", None)
    def body(self, C): return hasattr(C, "case")
    def o(self, C): return C.az(self.ow)
    def inv(self, C): return eng_inv(C) + (lru_full(C) if ev_on(C.ex) else []) if self.body(C) else []
    def mod_cells(self, C): return tuple(self.modifies) + ((tuple(VIEW) + tuple(GHOST)) if self.body(C) else ()) + (LRU if ev_on(C.ex) and self.lru else ())
    def cases_for(self, prop):
        """the cases with eviction decide C17 (and safety and locks), the others the rest"""
        on = [c for c in self.cases() if c and c.endswith("lru")]; off = [c for c in self.cases() if c not in on]
        return on if prop == "C17" else on + off if prop in (None, "C18", "C21") else off
    lru = False          # changes the recency order when eviction is on
    def case_consts(self, case): return {"APPLY_LRU_EVICTION": 1} if case and case.endswith("lru") else {}
    def pre(self, C):
        for c, s in list(VIEW.items()) + list(GHOST.items()): C.g_(c, s)
        return self.inv(C) + (pg.cfg_ok(C) if self.body(C) else []) + self.needs(C)
    def needs(self, C): return [("the owner is a file", self.o(C) != lit(NONE))]
    def post(self, C): return (self.inv(C) if self.modifies else []) + self.outside(C) + self.res(C)
    def res(self, C): return []
    def outside(self, C):
        if "mem" not in self.modifies: return []
        b = K("buf"); M, M0 = pg.mem(C), pg.mem(C, True)
        return [("bytes outside the cache stay", fa(b, z3.Implies(self.user(C, b), z3.Select(M, b) == z3.Select(M0, b)), [z3.Select(M, b)]))]
    def user(self, C, b): return z3.Not(alive(C, "Page", z3.Select(C.g_("Page.$buf", I2I), b)))
    def after(self, C): self.ghost_update(C)
    def frame(self, D, k, w, v): return None

# ------------------------------------------------------------------ recency order
LRU = (ENG + "lru_main_vector", ENG + "page_order_mapping")
def listed(C, i, old=False): return mhas(EF(C, "page_order_mapping", old), i)
def stamp(C, i, old=False): return z3.Select(EF(C, "page_order_mapping", old).l[1], i)
def lru_inv(C):
    """every listed page has one place in the list; a larger stamp is a later use"""
    i, n = K("i"), K("n"); L = EF(C, "lru_main_vector"); d = z3.Select(L.l[0], n); at = z3.Select(L.l[1], n); P = ("C17",)
    return [("pages in the list have one place", fa(n, z3.Implies(d, z3.And(listed(C, at), stamp(C, at) == n, L.l[2] <= n, n <= L.l[3], n != 0)), [d]), P), ("bounds of the list", z3.And(L.l[2] <= 0, L.l[3] >= 0), P),
            ("listed pages are in the list", fa(i, z3.Implies(listed(C, i), z3.And(z3.Select(L.l[0], stamp(C, i)), z3.Select(L.l[1], stamp(C, i)) == i, 0 <= i, i < N(C))), [listed(C, i)]), P)]
def lru_full(C):
    i = K("i"); used = lambda i: owner(C, z3.Select(EF(C, "search_index").l[1], i)) != lit(NONE); z = z3.IntVal(0); P = ("C17",)
    return lru_inv(C) + [("pages in use are listed, free pages are not", fa(i, z3.Implies(z3.And(0 <= i, i < N(C)), listed(C, i) == used(i)), [[listed(C, i)], [z3.Select(EF(C, "search_index").l[1], i)]]), P), ("the first page in use is listed", z3.Implies(N(C) > 0, listed(C, z) == used(z)), P)]
def lru_stays(C, D):
    i = K("i"); return [("the order of pages in use stays", fa(i, z3.Implies(listed(C, i), z3.And(listed(D, i), stamp(C, i) == stamp(D, i))), [[listed(C, i)], [stamp(C, i)]]), ("C17",))]
def used_last(C, D, p, but=None):
    """p became the page used last"""
    i = K("i"); P = ("C17",)
    return [("the page is listed", listed(C, p), P), ("no other page is listed or dropped", fa(i, z3.Implies(i != p, listed(C, i) == listed(D, i)), [listed(C, i)]), P),
            ("the page was used last", fa(i, z3.Implies(z3.And(i != p, listed(C, i)), stamp(C, i) < stamp(C, p)), [stamp(C, i)]), P), ("the order of the others stays", fa(i, z3.Implies(z3.And(i != p, listed(C, i)), stamp(C, i) == stamp(D, i)), [stamp(C, i)]), P)]
def under(c, fs): return [(x[0], z3.Implies(c, x[1])) + tuple(x[2:]) for x in fs]
def ev_on(ex): return ex.consts.get("APPLY_LRU_EVICTION") == 1
def old_ctx(C): return Ctx(C.ex, C.st0, C.st0, getattr(C, "args", {}))
class Visit(Contract):
    """the page becomes the one used last; the order of the others stays"""
    units = ("engine",); props = ("C17", "C18", "C21"); modifies = LRU; consts = {"APPLY_LRU_EVICTION": 1}; min_rank = 6
    def this(self, C): return LObj("CustomCacheEngine", None)
    def args(self, C, case): return {"visited_page_id": int_arg(C.ex, C.st, INT, "page")}
    def pre(self, C): return lru_inv(C) + [("the page is one", z3.And(C.az("visited_page_id") >= 0, C.az("visited_page_id") < N(C), N(C) < 2 ** 31))]
    def post(self, C): return lru_inv(C) + used_last(C, old_ctx(C), C.az("visited_page_id"))
    def frame(self, D, k, w, v): return None
class VisitWrite(Visit): name = "CustomCacheEngine::_apply_lru_after_page_visitation_on_WRITE"
class VisitRead(Visit): name = "CustomCacheEngine::_apply_lru_after_page_visitation_on_READ"
class IsCached(EngM):
    name = "CustomCacheEngine::is_block_cached"
    def args(self, C, case): return {"content_owner_id": sarg("owner"), **pg.barg(C, "page_id"), **pg.barg(C)}
    def res(self, C): return [("says whether that page holds the owner's block", C.ret.z == z3.And(C.az("page_id") >= 0, ev(C, "page", self.o(C), C.az("block_id")) == C.az("page_id")))]
def usage(C):
    u, n = C.g_("e.used", I), N(C); r = C.ret.z; P = ("C03", "C05", "C06")
    return [("100 exactly if every page is in use", (r == 100) == (u == n), P), ("less while a page is free", z3.Implies(u < n, r < 100), P), ("no more pages in use than there are", z3.And(u >= 0, u <= n), P)]
class Usage(EngM):
    name = "CustomCacheEngine::get_engine_usage"; props = ("C03", "C05", "C06", "C18", "C21")
    def args(self, C, case): return {}
    def needs(self, C): return [("there are pages", N(C) > 0)]
    def res(self, C): return usage(C)

MAPT = ("map", INT, ("tup", INT, BUF, INT), True)
def one_key(C, v):
    keys = lib.explicit_keys(z3.simplify(v.l[0]))
    if keys is None or len(keys) > 1: raise Unsupported("a call with more than one block")
    return keys
class GetBlocks(EngM):
    """copies the block's bytes if it is where the caller expects it"""
    name = "CustomCacheEngine::get_blocks"; modifies = ("mem",); props = ("C01", "C02", "C05", "C17", "C18", "C21")
    lru = True
    def cases(self): return ["one", "empty", "one lru"]
    def args(self, C, case):
        from lib import empty
        m = sym_map(("map", INT, ("tup", INT, BUF, INT), True), case, C)
        return {"content_owner_id": sarg("owner"), "block_pages": m}
    def one(self, C): return one_key(C, C.a("block_pages"))
    def el(self, C, b): return msel(C.a("block_pages"), b).l
    def needs(self, C):
        out = super().needs(C)
        for b in self.one(C):
            pid, bid, bo, m = self.el(C, b)
            out += [("the bytes asked for are in the block", z3.And(m >= -1, m < BS)), ("they fit the caller's buffer", z3.Or(m < 0, z3.And(bid > 0, bo >= 0, bo + m + 1 <= z3.Select(C.ex.buflen(C.st), bid))))] + pg.user_buf(C, bid)
        return out
    def fresh_ret(self, C, fn):
        r = empty(parse_type(fn.ret)[0])
        for b in self.one(C): r = mstore(r, b, fresh(r.t[2], "hit"))
        return r
    def outside(self, C): return [] if self.one(C) else super().outside(C)
    def res(self, C):
        ks = self.one(C); r = C.ret; out = []; x = K("buf"); i = K("a"); q = K("q"); M, M0 = pg.mem(C), pg.mem(C, True)
        if not ks: return [("nothing is returned", fa(q, z3.Not(mhas(r, q)), [mhas(r, q)])), ("nothing is written", fa(x, z3.Select(M, x) == z3.Select(M0, x), [z3.Select(M, x)]))]
        b = ks[0]; pid, bid, bo, m = self.el(C, b); hit = z3.And(pid >= 0, ev(C, "page", self.o(C), b) == pid); by = ev(C, "byte", self.o(C), b)
        return [("answers for the block", fa(q, mhas(r, q) == (q == b), [mhas(r, q)])), ("says whether it was there", z3.Select(r.l[1], b) == hit, ("C01", "C05")),
                ("the caller gets the block's bytes", fa(i, z3.Select(z3.Select(M, bid), i) == z3.If(z3.And(hit, i >= bo, i <= bo + m), z3.Select(by, i - bo), z3.Select(z3.Select(M0, bid), i)), [z3.Select(z3.Select(M, bid), i)]), ("C01", "C05")),
                ("nothing else is written", fa(x, z3.Implies(x != bid, z3.Select(M, x) == z3.Select(M0, x)), [z3.Select(M, x)]))] + (under(hit, used_last(C, old_ctx(C), pid)) + under(z3.Not(hit), lru_stays(C, old_ctx(C)) + lru_stays(old_ctx(C), C)) + (lru_full(C) if self.body(C) else []) if ev_on(C.ex) else [])
def sym_map(t, case, C, name="blocks"):
    b = int_arg(C.ex, C.st, INT, "blk"); e = empty(t)
    if case == "empty": return e
    v = fresh(t[2], "el"); C.ex.note_range(C.st, v)
    for l, lt in ((v.l[0], INT),): C.st.assume(z3.And(l >= -2 ** 31, l < 2 ** 31))
    return mstore(e, b.z, v)
class Allocate(EngM):
    """overlays the bytes on the cached block, or starts a zero block with them; refuses only when there is no room"""
    name = "CustomCacheEngine::allocate_blocks"; modifies = REP + PAGE + ("e.dirty", "e.used"); props = ("C01", "C02", "C03", "C05", "C06", "C17", "C18", "C21")
    opts = {"merge_arrays": True}
    lru = True
    def cases(self): return ["one", "empty", "one lru"]
    def mod_cells(self, C): return super().mod_cells(C) + (("fs.data", "fs.size", "fs.fd", "fs.isopen", "errno") if ev_on(C.ex) else ())
    def room(self, C, o):
        fl = msel(EF(C, "owner_free_pages_mapping", True), o); return z3.Or(EF(C, "free_pages", True).l[0] > 0, z3.And(mhas(EF(C, "owner_free_pages_mapping", True), o), fl.l[0] > 0))
    def args(self, C, case):
        m = sym_map(("map", INT, ("tup", INT, BUF, ULONG, INT), True), case, C)
        return {"content_owner_id": sarg("owner"), "block_data_mapping": m, "operation_type": int_arg(C.ex, C.st, INT, "operation_type")}
    def one(self, C): return one_key(C, C.a("block_data_mapping"))
    def el(self, C, b): return msel(C.a("block_data_mapping"), b).l
    def needs(self, C):
        out = super().needs(C) + ([("there are pages", N(C) > 0)] if ev_on(C.ex) else [])
        for b in self.one(C):
            pid, bid, bo, n, off = self.el(C, b); pcur = ev(C, "page", self.o(C), b)
            out += [("the bytes are in the block", z3.And(n >= 0, off >= 0, off + n <= BS)), ("the data are readable", z3.Or(n == 0, z3.And(bid > 0, bo >= 0, bo + n <= z3.Select(C.ex.buflen(C.st), bid)))),
                    ("a cached block is looked for where it is", z3.Or(pcur < 0, pcur == pid))] + pg.user_buf(C, bid)
        return out
    def vals(self, C):
        b = self.one(C)[0]; pid, bid, bo, n, off = self.el(C, b); o = self.o(C); r = z3.Select(C.ret.l[1], b)
        return b, pid, bid, bo, n, off, o, r, cached(C, o, b, True)
    def ghost_update(self, C):
        if not self.one(C): return
        b, pid, bid, bo, n, off, o, r, was = self.vals(C); k = K("k"); nb = z3.FreshConst(I2I, "block_after_write")
        src = z3.Select(z3.Select(pg.mem(C, True), bid), bo + k - off); old = z3.Select(ev(C, "byte", o, b, True), k)
        C.st.assume(fa(k, z3.Select(nb, k) == z3.If(z3.And(r >= 0, k >= off, k < off + n), src, z3.If(z3.Or(was, r < 0), old, 0)), [z3.Select(nb, k)]))
        ev_set(C, "byte", o, z3.Store(ev(C, "byte", o, None, True), b, nb)); ev_set(C, "page", o, z3.Store(ev(C, "page", o, None, True), b, z3.If(r >= 0, r, -1)))
        ev_set(C, "rd", o, z3.If(z3.Or(was, r < 0), ev(C, "rd", o, None, True), z3.Store(ev(C, "rd", o, None, True), b, -1)))
        ev_set(C, "sync", o, z3.If(r >= 0, z3.Store(ev(C, "sync", o, None, True), b, False), ev(C, "sync", o, None, True)))
        if self.body(C):
            op = C.g_("eng.$opos", I2I)
            if ev_on(C.ex):
                ev_ = z3.And(z3.Not(was), z3.Not(self.room(C, o)), r >= 0); o2, b2, i = z3.FreshConst(Str, "o"), K(), K("i"); np = z3.FreshConst(VIEW["e.page"], "page"); p0 = ev(C, "page", o2, b2, True); no = z3.FreshConst(I2I, "opos"); SI = lambda x: z3.Select(EF(C, "search_index").l[1], x)
                C.st.assume(fa([o2, b2], z3.Select(z3.Select(np, o2), b2) == z3.If(z3.And(o2 == o, b2 == b), z3.If(r >= 0, r, -1), z3.If(z3.And(ev_, p0 == r), -1, p0)), [z3.Select(z3.Select(np, o2), b2)])); C.st.heap["e.page"] = [np]
                q = owner(old_ctx(C), SI(r)); had = z3.Select(C.g_("Page.$nfree", I2I, old=True), SI(r)) > 0
                C.st.assume(fa(i, z3.Select(no, i) == z3.If(z3.And(ev_, had, owner(old_ctx(C), SI(i)) == q, z3.Select(op, i) > z3.Select(op, r)), z3.Select(op, i) - 1, z3.Select(op, i)), [z3.Select(no, i)])); op = no
            C.st.heap["eng.$opos"] = [z3.If(z3.Or(was, r < 0), op, z3.Store(op, r, msel(EF(C, "owner_free_pages_mapping"), o).l[0] - 1))]
            set_dirty(C); C.st.heap["e.used"] = [N(C) - EF(C, "free_pages").l[0]]
    def res(self, C):
        q = K("q"); ks = self.one(C); r_ = C.ret; o2 = z3.FreshConst(Str, "o"); b2 = K("b")
        d, d0 = ev(C, "dirty", o2, b2), ev(C, "dirty", o2, b2, True); keep = ("dirty blocks stay dirty", fa([o2, b2], z3.Implies(z3.And(d0, cached(C, o2, b2, True)) if not ev_on(C.ex) else z3.And(d0, cached(C, o2, b2, True), cached(C, o2, b2)), d), [d]), ("C02",))
        u, u0 = C.g_("e.used", I), C.g_("e.used", I, old=True)
        if not ks: return [("nothing is returned", fa(q, z3.Not(mhas(r_, q)), [mhas(r_, q)])), keep, ("as many pages in use", u == u0)]
        b, pid, bid, bo, n, off, o, r, was = self.vals(C); fl = msel(EF(C, "owner_free_pages_mapping", True), o)
        out = [("answers for the block", fa(q, mhas(r_, q) == (q == b), [mhas(r_, q)])), ("a cached block stays where it is", z3.Implies(was, r == pid)), ("answers a page or -1", r >= -1), ("the block is dirty", z3.Implies(r >= 0, ev(C, "dirty", o, b)), ("C02",)), keep,
               ("refused only when every page is in use", z3.Implies(r < 0, u == N(C)), ("C03", "C05", "C06")), ("pages in use stay in use", z3.And(u >= u0, u <= N(C)), ("C03", "C06"))]
        if self.body(C):
            room = self.room(C, o)
            if ev_on(C.ex):
                D = old_ctx(C); i = K("i"); out_ = z3.And(z3.Not(was), z3.Not(room)); P = ("C17",)
                return out + [("a block is never refused", r >= 0, P), ("the page evicted is the one used least recently", z3.Implies(out_, z3.And(listed(D, r), fa(i, z3.Implies(listed(D, i), stamp(D, r) <= stamp(D, i)), [listed(D, i)]))), P)] + under(z3.Not(was), used_last(C, D, r)) + under(was, lru_stays(C, D) + lru_stays(D, C))
            out += [("a block is refused only without room", (r < 0) == z3.And(z3.Not(was), z3.Not(room)), ("C05", "C06"))]
        return out
def set_dirty(C):
    """e.dirty by definition: the block's page is dirty"""
    o, b = z3.FreshConst(Str, "o"), K(); nd = z3.FreshConst(VIEW["e.dirty"], "dirty"); P = z3.Select(EF(C, "search_index").l[1], ev(C, "page", o, b)); d = z3.Select(z3.Select(nd, o), b)
    C.st.assume(fa([o, b], d == C.f("Page", "is_dirty", P).z, [d])); C.st.heap["e.dirty"] = [nd]
class MakeReadable(EngM):
    name = "CustomCacheEngine::make_block_readable_to_offset"; modifies = PAGE; ow = "cid"
    def args(self, C, case): return {"cid": sarg("owner"), **pg.barg(C, "page_id"), **pg.barg(C), **pg.barg(C, "offset")}
    def needs(self, C): return super().needs(C) + [("the block is cached there", z3.And(C.az("page_id") >= 0, ev(C, "page", self.o(C), C.az("block_id")) == C.az("page_id")))]
    def ghost_update(self, C): ev_set(C, "rd", self.o(C), z3.Store(ev(C, "rd", self.o(C), None, True), C.az("block_id"), C.az("offset")))

def visited_page(C, L, p):
    """p is the page of an index the loop has visited"""
    i = z3.Select(C.g_("Page.$id", I2I), p); return z3.And(z3.Select(L.it().visited, i), 0 <= i, i < N(C), z3.Select(EF(C, "search_index").l[1], i) == p)
class NextFree(Contract):
    """inlined; only its loop has a specification"""
    name = "CustomCacheEngine::_get_next_free_page"; inline_at_call = True; assumed = True; units = ("engine",)
    class Drop:
        def inv(self, L):
            E, C = Ctx(L.ex, L.entry, L.entry, {}), Ctx(L.ex, L.entry, L.st, {}); o, b = z3.FreshConst(Str, "o"), K(); m, m0 = EF(C, "owner_ordered_pages_mapping"), EF(E, "owner_ordered_pages_mapping"); q = L.z("old_owner"); v, v0 = msel(m, o), msel(m0, o); vis = L.it().visited; d, d0 = mhas(v, b), mhas(v0, b)
            return [("visited", fa(b, z3.Implies(z3.Select(vis, b), mhas(L.v("blocks"), b)), [z3.Select(vis, b)])), ("owners", m.l[0] == m0.l[0]), ("blocks left", fa([o, b], d == z3.And(d0, z3.Not(z3.And(o == q, z3.Select(vis, b)))), [d])),
                    ("records stay", fa([o, b], eq([z3.Select(x, b) for x in v.l[1:]], [z3.Select(x, b) for x in v0.l[1:]]), [[z3.Select(x, b)] for x in v.l[1:]]))]
    loops = {0: Drop()}
class PageSync(Contract):
    """what an evicted page with unsynced blocks leaves in the backing file system is a known finding; here only: the page's dirty flag may clear, nothing else of the cache changes"""
    name = "Page::sync_data"; assumed = True; props = ("C17",); units = ("page",)
    def apply(self, ex, st, fn, this, args, n):
        C = Ctx(ex, st, st, {})
        for c in ("fs.data", "fs.size"): (lib.F_DATA if c == "fs.data" else lib.F_SIZE)(ex, st); st.heap[c] = [fresh_leaf(x.sort(), c + "_evict") for x in st.heap[c]]
        d = C.f("Page", "is_dirty", this.ref).z; st.heap["Page.is_dirty"] = [z3.Store(st.heap["Page.is_dirty"][0], this.ref, z3.And(d, fresh_leaf(B, "still_dirty")))]
        return fresh(BOOL, "synced")
class RemoveCached(EngM):
    """drops every block of the owner and gives its pages back"""
    name = "CustomCacheEngine::remove_cached_blocks"; modifies = REP + PAGE + ("e.used",); ow = "owner"; props = ("C01", "C04", "C05", "C06", "C17", "C18", "C21")
    lru = True
    def cases(self): return [None, "lru"]
    def args(self, C, case): return {"owner": sarg("owner")}
    def ghost_update(self, C):
        ev_set(C, "page", self.o(C), z3.K(I, z3.IntVal(-1)))
        if self.body(C): C.st.heap["e.used"] = [N(C) - EF(C, "free_pages").l[0]]
    def res(self, C): return [("never more pages in use", C.g_("e.used", I) <= C.g_("e.used", I, old=True), ("C06",))] + (lru_stays(C, old_ctx(C)) if ev_on(C.ex) else [])
    class Loop:
        ghosts = ("eng.$fpos",)
        def ghost(self, L):
            st = L.st; k = L.prev.it().key; C = Ctx(L.ex, L.entry, st, {}); st.heap["eng.$fpos"] = [z3.Store(C.g_("eng.$fpos", I2I), k, EF(C, "free_pages").l[0] - 1)]
        def inv(self, L):
            E, C = Ctx(L.ex, L.entry, L.entry, {}), Ctx(L.ex, L.entry, L.st, {}); i, j, p, b, x = (K(n) for n in "ijpbx"); vis = L.it().visited; v = lambda q: z3.Select(vis, q)
            op = L.v("owner_pgs"); fp, f0 = EF(C, "free_pages"), EF(E, "free_pages"); fpos = C.g_("eng.$fpos", I2I); fp0 = E.g_("eng.$fpos", I2I); vp = visited_page(C, L, p)
            nf = lambda D: z3.Select(D.g_("Page.$nfree", I2I), p); dr = lambda D: D.f("Page", "is_dirty", p).z; fj = z3.Select(fp.l[1], j); M, M0 = L.ex.mem(L.st), L.ex.mem(L.entry)
            return [("visited", fa(i, z3.Implies(v(i), z3.Select(op.l[0], i)), [v(i)])),
                    ("owners", fa(p, owner(C, p) == z3.If(vp, lit(NONE), owner(E, p)), [owner(C, p)])), ("blocks", fa([p, b], has(C, p, b) == z3.And(has(E, p, b), z3.Not(vp)), [has(C, p, b)])),
                    ("room", fa(p, nf(C) == z3.If(vp, pg.PS(C) / BS, nf(E)), [nf(C)])), ("dirty", fa(p, dr(C) == z3.And(dr(E), z3.Not(vp)), [dr(C)])),
                    ("more free pages", fp.l[0] >= f0.l[0])] + [x for x in eng_inv(C) if x[0] in ("free pages are nobody's and listed once", "nobody's pages are free")] + [
                    ("bytes outside the cache", fa(x, z3.Implies(z3.Not(alive(C, "Page", z3.Select(C.g_("Page.$buf", I2I), x))), z3.Select(M, x) == z3.Select(M0, x)), [z3.Select(M, x)]))] + (lru_inv(C) + lru_stays(C, E) + [("listed pages", fa(i, listed(C, i) == z3.And(listed(E, i), z3.Not(v(i))), [listed(C, i)]), ("C17",))] if ev_on(L.ex) else [])
    loops = {0: Loop()}

class Truncate(EngM):
    """drops the listed blocks; the block the file now ends in keeps its first bytes"""
    name = "CustomCacheEngine::truncate_cached_blocks"; modifies = REP + PAGE + ("e.used",); props = ("C01", "C05", "C06", "C07", "C17", "C18", "C21"); opts = {"merge_arrays": True}
    lru = True
    def cases(self): return [None, "lru"]
    def args(self, C, case):
        m = fresh(("map", INT, INT, False), "blocks")
        return {"content_owner_id": sarg("owner"), "blocks_to_remove": m, "from_block_id": int_arg(C.ex, C.st, INT, "from_block_id"), "index_inside_block": int_arg(C.ex, C.st, LONG, "index_inside_block")}
    def needs(self, C):
        m = C.a("blocks_to_remove"); b = K(); o = self.o(C); idx = C.az("index_inside_block")
        return super().needs(C) + [("the cut is inside a block", z3.And(idx >= 0, idx < BS)), ("the listed blocks are cached where listed", fa(b, z3.Implies(mhas(m, b), z3.And(z3.Select(m.l[1], b) >= 0, ev(C, "page", o, b) == z3.Select(m.l[1], b))), [mhas(m, b)]))]
    def gone(self, C, b): return z3.And(mhas(C.a("blocks_to_remove"), b), z3.Not(z3.And(b == C.az("from_block_id"), C.az("index_inside_block") > 0)))
    def ghost_update(self, C):
        if self.body(C): return          # the loop has done it
        o, fr, idx = self.o(C), C.az("from_block_id"), C.az("index_inside_block"); b, k = K(), K("k"); np, nb = z3.FreshConst(I2I, "pages_after_truncate"), z3.FreshConst(I2I, "block_after_truncate")
        C.st.assume(fa(b, z3.Select(np, b) == z3.If(self.gone(C, b), -1, ev(C, "page", o, b, True)), [z3.Select(np, b)]))
        cut = z3.And(idx > 0, mhas(C.a("blocks_to_remove"), fr)); old = ev(C, "byte", o, fr, True)
        C.st.assume(fa(k, z3.Select(nb, k) == z3.If(z3.And(cut, k >= idx, k < BS), 0, z3.Select(old, k)), [z3.Select(nb, k)]))
        ev_set(C, "page", o, np); ev_set(C, "byte", o, z3.Store(ev(C, "byte", o, None, True), fr, nb)); rd = ev(C, "rd", o, None, True)
        ev_set(C, "rd", o, z3.If(cut, z3.Store(rd, fr, idx - 1), rd))
    def rel(self, C, E, m, vis, o, fr, idx):
        """the view after the blocks in vis have been dealt with, from the view before"""
        b, k = K(), K("k"); o2 = z3.FreshConst(Str, "o"); done = lambda b: z3.Select(vis, b); gone = z3.And(o2 == o, done(b), z3.Not(z3.And(b == fr, idx > 0))); cut = z3.And(o2 == o, b == fr, idx > 0, done(fr))
        p, p0 = ev(C, "page", o2, b), ev(E, "page", o2, b); y, y0 = ev(C, "byte", o2, b), ev(E, "byte", o2, b); r, r0 = ev(C, "rd", o2, b), ev(E, "rd", o2, b)
        return [("pages after", fa([o2, b], p == z3.If(gone, -1, p0), [p])), ("bytes after", fa([o2, b, k], z3.Implies(z3.And(0 <= k, k < BS), z3.Select(y, k) == z3.If(z3.And(cut, k >= idx), 0, z3.Select(y0, k))), [z3.Select(y, k)])), ("readable after", fa([o2, b], r == z3.If(cut, idx - 1, r0), [r]))]
    def res(self, C):
        u, u0 = C.g_("e.used", I), C.g_("e.used", I, old=True)
        out = [("never more pages in use", u <= u0, ("C06",))]
        if self.body(C):
            P = ("C06", "C07"); out += [(l, f, P) for l, f in self.rel(C, Ctx(C.ex, C.st0, C.st0, C.args), C.a("blocks_to_remove"), C.a("blocks_to_remove").l[0], self.o(C), C.az("from_block_id"), C.az("index_inside_block"))]
        return out
    class Loop:
        ghosts = ("e.page", "e.rd", "e.byte", "e.used") + tuple(GHOST)
        def ghost(self, L):
            st = L.st; C = Ctx(L.ex, L.entry, st, {}); D = Ctx(L.ex, L.entry, L.prev.st, {}); b = L.prev.it().key; o, fr, idx = L.z("content_owner_id"), L.z("from_block_id"), L.z("index_inside_block")
            cut = z3.And(b == fr, idx > 0); pid = ev(D, "page", o, b); k = K("k"); nb = z3.FreshConst(I2I, "cut_block"); i = K("i")
            C.st.assume(fa(k, z3.Select(nb, k) == z3.If(z3.And(cut, k >= idx, k < BS), 0, z3.Select(ev(D, "byte", o, b), k)), [z3.Select(nb, k)]))
            ev_set(C, "byte", o, z3.Store(ev(C, "byte", o), b, nb)); ev_set(C, "page", o, z3.If(cut, ev(C, "page", o), z3.Store(ev(C, "page", o), b, -1))); ev_set(C, "rd", o, z3.If(cut, z3.Store(ev(C, "rd", o), b, idx - 1), ev(C, "rd", o)))
            C.st.heap["e.used"] = [N(C) - EF(C, "free_pages").l[0]]
            # positions: the page joined the free list, joined its owner's list, or left it
            freed = owner(C, z3.Select(EF(C, "search_index").l[1], pid)) == lit(NONE); fl, f0 = msel(EF(C, "owner_free_pages_mapping"), o).l[0], msel(EF(D, "owner_free_pages_mapping"), o).l[0]
            fp = C.g_("eng.$fpos", I2I); op = C.g_("eng.$opos", I2I); C.st.heap["eng.$fpos"] = [z3.If(freed, z3.Store(fp, pid, EF(C, "free_pages").l[0] - 1), fp)]
            no = z3.FreshConst(I2I, "opos"); at = z3.Select(op, pid); own = owner(D, z3.Select(EF(D, "search_index").l[1], i))
            C.st.assume(fa(i, z3.Select(no, i) == z3.If(z3.And(fl < f0, own == o, z3.Select(op, i) > at), z3.Select(op, i) - 1, z3.If(z3.And(fl > f0, i == pid), fl - 1, z3.Select(op, i))), [z3.Select(no, i)])); C.st.heap["eng.$opos"] = [no]
        def inv(self, L):
            E, C = Ctx(L.ex, L.entry, L.entry, {}), Ctx(L.ex, L.entry, L.st, {}); b, x = K(), K("x"); vis = L.it().visited; m = L.v("blocks_to_remove"); o = L.z("content_owner_id"); M, M0 = L.ex.mem(L.st), L.ex.mem(L.entry)
            return eng_inv(C) + [("visited", fa(b, z3.Implies(z3.Select(vis, b), mhas(m, b)), [z3.Select(vis, b)]))] + Truncate().rel(C, E, m, vis, o, L.z("from_block_id"), L.z("index_inside_block")) + [("never more pages in use", C.g_("e.used", I) <= E.g_("e.used", I)),
                ("bytes outside the cache", fa(x, z3.Implies(z3.Not(alive(C, "Page", z3.Select(C.g_("Page.$buf", I2I), x))), z3.Select(M, x) == z3.Select(M0, x)), [z3.Select(M, x)]))] + (lru_full(C) + lru_stays(C, E) if ev_on(L.ex) else [])
    loops = {0: Loop()}

def eq(xs, ys): return z3.And([x == y for x, y in zip(xs, ys)])
class DirtyInfo(EngM):
    """lists the owner's blocks that changed since they were last written out, each once, with its last readable byte"""
    name = "CustomCacheEngine::get_dirty_blocks_info"; ow = "owner"; props = ("C15", "C18", "C21"); modifies = ()
    def args(self, C, case): return {"owner": sarg("owner")}
    def pre(self, C): C.g_("eng.$dpos", I2I); return super().pre(C)
    def mod_cells(self, C): return ("eng.$dpos",)
    def facts(self, C, R, want, dpos):
        j, b = K("j"), K(); rb = z3.Select(R.l[1], j); P = ("C15",); o = self.o(C); d = z3.Select(dpos, b)
        return [("every entry is an unsynced block", fa(j, z3.Implies(z3.And(0 <= j, j < R.l[0]), z3.And(want(rb), z3.Select(R.l[2], j) == 0, z3.Select(R.l[3], j) == ev(C, "rd", o, rb), z3.Select(R.l[4], j) == ev(C, "page", o, rb), z3.Select(dpos, rb) == j)), [rb]), P),
                ("every unsynced block is listed", fa(b, z3.Implies(want(b), z3.And(0 <= d, d < R.l[0], z3.Select(R.l[1], d) == b)), [[ev(C, "page", o, b)], [d]]), P)]
    def res(self, C):
        o = self.o(C); return [("length", C.ret.l[0] >= 0)] + self.facts(C, C.ret, lambda b: z3.And(cached(C, o, b), z3.Not(ev(C, "sync", o, b))), C.g_("eng.$dpos", I2I))
    class Loop:
        ghosts = ("eng.$dpos",)
        def ghost(self, L):
            C = Ctx(L.ex, L.entry, L.st, {}); k = L.prev.it().key; L.st.heap["eng.$dpos"] = [z3.Store(C.g_("eng.$dpos", I2I), k, L.v("res").l[0] - 1)]
        def inv(self, L):
            C = Ctx(L.ex, L.entry, L.st, {"owner": L.v("owner")}); vis = L.it().visited; b = K(); m = msel(EF(C, "owner_ordered_pages_mapping"), L.z("owner")); me = DirtyInfo(); o = L.z("owner")
            want = lambda q: z3.And(z3.Select(vis, q), z3.Not(ev(C, "sync", o, q))); j = K("j"); R = L.v("res"); d = z3.Select(C.g_("eng.$dpos", I2I), b)
            f = me.facts(C, R, want, C.g_("eng.$dpos", I2I))
            return [("visited", fa(b, z3.Implies(z3.Select(vis, b), mhas(m, b)), [z3.Select(vis, b)])), ("length", R.l[0] >= 0), f[0],
                    ("every unsynced block so far is listed", fa(b, z3.Implies(want(b), z3.And(0 <= d, d < R.l[0], z3.Select(R.l[1], d) == b)), [z3.Select(vis, b)]))]
    loops = {0: Loop()}

# ------------------------------------------------------------------ writing out
def file_of(C, path, old=True): return z3.Select(lib.F_INO(C.ex, C.st0 if old else C.st), path)
def data_of(C, ino, old=False): return z3.Select(lib.F_DATA(C.ex, C.st0 if old else C.st), ino)
def pwritev_blocks(ex, st, fd, iov, cnt, off, n):
    """every part but the last is a whole block"""
    v = ex._read(st, iov.lv) if isinstance(iov, PtrTo) else iov; j = K("j"); ids, offs, lens = v.l[1], v.l[2], v.l[3]; c = cnt.z; bl = ex.buflen(st)
    L_ = lambda j: z3.Select(lens, j)
    ex.oblige(st, "pwritev: between 1 and IOV_MAX parts", z3.And(c >= 1, c <= 1024, c <= v.l[0]), "safety", n, ("C02",))
    ex.oblige(st, "pwritev: every part but the last is a whole block", fa(j, z3.Implies(z3.And(0 <= j, j < c - 1), L_(j) == BS), [L_(j)]), "pre", n, ("C02",))
    ex.oblige(st, "pwritev: every part is inside its buffer", fa(j, z3.Implies(z3.And(0 <= j, j < c), z3.And(L_(j) >= 0, z3.Or(L_(j) == 0, z3.And(z3.Select(ids, j) > 0, z3.Select(offs, j) >= 0, z3.Select(offs, j) + L_(j) <= z3.Select(bl, z3.Select(ids, j)))))), [L_(j)]), "safety", n, ("C21",))
    ex.oblige(st, "pwritev: the offset is a block's", z3.And(off.z >= 0, off.z % BS == 0, L_(c - 1) <= BS), "safety", n, ("C02",))
    V = LoopCtx(ex, st, st, (), 0); f = V.z("current_block_id") - (V.z("page_streak") - 1)
    T = (c - 1) * BS + L_(c - 1); ino = lib.inode_of_fd(ex, st, fd.z); D = lib.F_DATA(ex, st); a = z3.FreshConst(I2I, "wv"); x = K("x"); S = lib.F_SIZE(ex, st); sz = z3.Select(S, ino); b = x / BS; q = b - f
    ex.oblige(st, "pwritev: the offset is that of the first block", off.z == f * BS, "safety", n, ("C02",))
    # with the obligations above, byte x is part x / BS - off / BS, byte x % BS of it
    st.assume(fa(x, z3.Implies(x >= 0, z3.Select(a, x) == z3.If(z3.And(0 <= q, q < c, z3.Or(q < c - 1, x % BS < L_(c - 1))), z3.Select(z3.Select(ex.mem(st), z3.Select(ids, q)), z3.Select(offs, q) + x % BS), z3.Select(z3.Select(D, ino), x))), [z3.Select(a, x)]))
    # the same in terms of the cache
    C = Ctx(ex, st, st, {}); o = z3.Const("arg:owner", Str); k = K(); b = K(); part = z3.And(f <= b, b < f + c); buf, at = z3.Select(ids, b - f), z3.Select(offs, b - f); rd, by = ev(C, "rd", o, b), ev(C, "byte", o, b); PG = z3.Select(EF(C, "search_index").l[1], ev(C, "page", o, b))
    for name, fact in (("the parts are the blocks of the run", fa(b, z3.Implies(part, z3.And(cached(C, o, b), buf == pg.pbuf(C, PG), at == z3.Select(pg.view(C, "$off", PG), b))), [[rd], [buf]])),
                       ("the parts hold the bytes of the blocks", fa([b, k], z3.Implies(z3.And(part, 0 <= k, k < BS), z3.Select(z3.Select(ex.mem(st), buf), at + k) == z3.Select(by, k)), [z3.Select(by, k)])),
                       ("the parts are as long as the blocks", fa(b, z3.Implies(part, rd == z3.If(b == f + c - 1, L_(c - 1) - 1, BS - 1)), [rd])),
                       ("the run is written", fa(x, z3.Implies(x >= 0, z3.Select(a, x) == z3.If(z3.And(f <= x / BS, x / BS < f + c, x % BS <= ev(C, "rd", o, x / BS)), z3.Select(ev(C, "byte", o, x / BS), x % BS), z3.Select(z3.Select(D, ino), x))), [z3.Select(a, x)]))):
        ex.oblige(st, "pwritev: " + name, fact, "pre", n, ("C02",)); st.assume(fact)
    lib.setc(st, "data", z3.Store(D, ino, a)); lib.setc(st, "size", z3.Store(S, ino, z3.If(z3.And(T > 0, off.z + T > sz), off.z + T, sz)))
    return Val(LONG, [T])
class SyncPages(EngM):
    """writes every block of the owner that changed to its file and gives the file its size"""
    name = "CustomCacheEngine::sync_pages"; shares = 6; ow = "owner"; props = ("C02", "C18", "C21"); modifies = (ENG + "owner_ordered_pages_mapping", "Page.is_dirty", "e.dirty", "fs.data", "fs.size")
    opts = {"open_ok": True, "pwritev": pwritev_blocks}
    def args(self, C, case): return {"owner": sarg("owner"), "size": int_arg(C.ex, C.st, LONG, "size"), "orig_path": sarg("orig_path")}
    def dirty0(self, C, b, old=True): return z3.And(cached(C, self.o(C), b, old), ev(C, "dirty", self.o(C), b, old))
    def needs(self, C):
        b = K(); o = self.o(C); rd = ev(C, "rd", o, b)
        return super().needs(C) + [("the size is one", z3.And(C.az("size") >= 0, C.az("size") < 2 ** 62)), ("blocks have numbers", fa(b, z3.Implies(cached(C, o, b), z3.And(b >= 0, b < 2 ** 31 - 1, rd >= -1, rd < BS)), [ev(C, "page", o, b)])),
            ("only the last of a run of blocks may be short", fa(b, z3.Implies(z3.And(self.dirty0(C, b, False), self.dirty0(C, b + 1, False)), rd == BS - 1), [ev(C, "page", o, b)])),
            ("the file exists", file_of(C, C.az("orig_path")) > 0)]
    def inv(self, C): return eng_inv(C) + pg.page_inv(C) if self.body(C) else []
    def ghost_update(self, C):
        o = self.o(C); b = K(); ns = z3.FreshConst(I2B, "sync_after"); C.st.assume(fa(b, z3.Select(ns, b) == z3.Or(ev(C, "sync", o, b, True), self.dirty0(C, b)), [z3.Select(ns, b)])); ev_set(C, "sync", o, ns)
        if self.body(C): set_dirty(C)
    def res(self, C):
        ino = file_of(C, C.az("orig_path")); x = K("x"); o = self.o(C); d = z3.Select(data_of(C, ino), x); b = x / BS; sz = C.az("size"); i = K("ino"); P = ("C02",); o2 = z3.FreshConst(Str, "o"); b2 = K("b")
        D, S, S0 = (lib.F_DATA(C.ex, C.st), lib.F_SIZE(C.ex, C.st), lib.F_SIZE(C.ex, C.st0)); dd, d0 = ev(C, "dirty", o2, b2), ev(C, "dirty", o2, b2, True)
        return [("nothing failed", z3.Not(C.ret.z), P),
                ("every changed byte is in the file", fa(x, z3.Implies(x >= 0, d == z3.If(x < sz, z3.If(z3.And(self.dirty0(C, b), x % BS <= ev(C, "rd", o, b)), z3.Select(ev(C, "byte", o, b), x % BS), z3.Select(data_of(C, ino, True), x)), 0)), [d]), P),
                ("the file has its size", z3.Select(S, ino) == sz, P),
                ("other files are not touched", fa(i, z3.Implies(i != ino, z3.And(z3.Select(D, i) == data_of(C, i, True), z3.Select(S, i) == z3.Select(S0, i))), [[z3.Select(D, i)], [z3.Select(S, i)]]), P),
                ("blocks stay dirty exactly for other owners", fa([o2, b2], z3.Implies(cached(C, o2, b2), dd == z3.And(d0, o2 != o)), [dd]), P)]
    class Collect:
        def inv(self, L):
            C = Ctx(L.ex, L.entry, L.st, {}); b = K(); vis = z3.Select(L.it().visited, b); m = msel(EF(C, "owner_ordered_pages_mapping"), L.z("owner")); nb = L.v("new_iterate_blocks")
            return [("visited", fa(b, z3.Implies(vis, mhas(m, b)), [vis])), ("collected", fa(b, mhas(nb, b) == z3.And(vis, C.f("Page", "is_dirty", z3.Select(m.l[2], b)).z), [[mhas(nb, b)], [vis]])),
                    ("as recorded", fa(b, z3.Implies(mhas(nb, b), eq([z3.Select(x, b) for x in nb.l[1:]], [z3.Select(x, b) for x in m.l[1:]])), [mhas(nb, b)]))]
    class Clean:
        def inv(self, L):
            E, C = Ctx(L.ex, L.entry, L.entry, {}), Ctx(L.ex, L.entry, L.st, {}); b, p = K(), K("p"); vis = z3.Select(L.it().visited, b); nb = L.v("new_iterate_blocks"); d, d0 = (X.f("Page", "is_dirty", p).z for X in (C, E))
            return [("visited", fa(b, z3.Implies(vis, mhas(nb, b)), [vis])), ("only pages of the owner become clean", fa(p, z3.And(z3.Implies(d, d0), z3.Implies(d0, z3.Or(d, owner(C, p) == L.z("owner")))), [d])),
                    ("pages of visited blocks are clean", fa(b, z3.Implies(vis, z3.Not(C.f("Page", "is_dirty", z3.Select(nb.l[2], b)).z)), [vis]))]
    class Write:
        def inv(self, L):
            E, C = Ctx(L.ex, L.entry, L.entry, {}), Ctx(L.ex, L.entry, L.st, {}); it = L.it(); o = L.z("owner"); s = L.z("page_streak"); nb = L.v("new_iterate_blocks"); ch = L.v("page_chunk"); b, j, x = K(), K("j"), K("x"); o2 = z3.FreshConst(Str, "o")
            vis = lambda q: z3.Select(it.visited, q); pend = lambda q: z3.And(s > 0, it.key - s <= q, q < it.key); out = lambda q: z3.And(vis(q), z3.Not(pend(q)))
            oo, o0 = EF(C, "owner_ordered_pages_mapping"), EF(E, "owner_ordered_pages_mapping"); m, m0 = msel(oo, o), msel(o0, o); cj = [z3.Select(a, j) for a in ch.l[1:]]; N_ = [z3.Select(a, it.key - s + j) for a in nb.l[1:]]
            ino = z3.Select(lib.F_FD(L.ex, L.st), L.z("fd")); D, D0 = lib.F_DATA(L.ex, L.st), lib.F_DATA(L.ex, L.entry); S, S0 = lib.F_SIZE(L.ex, L.st), lib.F_SIZE(L.ex, L.entry); d = z3.Select(z3.Select(D, ino), x); i = K("i")
            return [("visited", fa(b, z3.Implies(vis(b), mhas(nb, b)), [vis(b)])), ("visited in order", fa(b, z3.Implies(z3.And(vis(b), z3.Not(it.end)), b < it.key), [vis(b)])),
                    ("a run", z3.And(0 <= s, s < 1024, ch.l[0] == s, z3.Implies(s > 0, z3.And(z3.Not(it.end), it.key >= s)))), ("nothing failed", z3.Not(L.z("failed"))),
                    ("blocks of the run", fa(j, z3.Implies(z3.And(0 <= j, j < s), z3.And(vis(it.key - s + j), eq(cj, N_))), [[c] for c in cj])),
                    ("blocks to write", fa(b, z3.Implies(mhas(nb, b), z3.And(cached(C, o, b), ev(C, "dirty", o, b), z3.Select(nb.l[2], b) == z3.Select(EF(C, "search_index").l[1], ev(C, "page", o, b)), 0 <= b, b < 2 ** 31 - 1, mhas(m, b), eq([z3.Select(x_, b) for x_ in nb.l[1:5]], [z3.Select(x_, b) for x_ in m.l[1:5]]), z3.Select(nb.l[2], b) > 0, alive(C, "Page", z3.Select(nb.l[2], b)))), [mhas(nb, b)])),
                    ("blocks before the last of the run are full", fa(b, z3.Implies(pend(b), ev(C, "rd", o, b) == BS - 1), [ev(C, "rd", o, b)])),
                    ("blocks of the run are not written yet", fa(b, z3.Implies(pend(b), vis(b)), [vis(b)])),
                    ("records of other owners", fa(o2, z3.Implies(o2 != o, eq([z3.Select(a, o2) for a in oo.l[1:]], [z3.Select(a, o2) for a in o0.l[1:]])), [z3.Select(a, o2) for a in oo.l[1:]])), ("owners", oo.l[0] == o0.l[0]),
                    ("records of the owner", z3.And(eq(m.l[:5], m0.l[:5]))), ("synced", fa(b, z3.Select(m.l[5], b) == z3.Or(out(b), z3.Select(m0.l[5], b)), [[z3.Select(m.l[5], b)], [vis(b)]])),
                    ("file", fa(x, z3.Implies(x >= 0, d == z3.If(z3.And(out(x / BS), x % BS <= ev(C, "rd", o, x / BS)), z3.Select(ev(C, "byte", o, x / BS), x % BS), z3.Select(z3.Select(D0, ino), x))), [d])),
                    ("other files", fa(i, z3.Implies(i != ino, z3.And(z3.Select(D, i) == z3.Select(D0, i), z3.Select(S, i) == z3.Select(S0, i))), [[z3.Select(D, i)], [z3.Select(S, i)]]))]
    class Fill:
        def inv(self, L):
            E, C = Ctx(L.ex, L.entry, L.entry, {}), Ctx(L.ex, L.entry, L.st, {}); o = L.z("owner"); s = L.z("page_streak"); cur = L.z("current_block_id"); p = L.z("p_id"); v = L.v("iov"); j, b = K("j"), K(); first = cur - (s - 1); o2 = z3.FreshConst(Str, "o"); ch = L.v("page_chunk")
            ptr = z3.Select(ch.l[2], j); rd = ev(C, "rd", o, cur); oo, o0 = EF(C, "owner_ordered_pages_mapping"), EF(E, "owner_ordered_pages_mapping"); m, m0 = msel(oo, o), msel(o0, o); off = z3.Select(ch.l[3], j)
            nb = L.v("new_iterate_blocks"); q = first + j
            return [("parts", z3.And(0 <= p, p <= s, v.l[0] == s)), ("chunk", fa(j, z3.Implies(z3.And(0 <= j, j < s), z3.And(mhas(nb, q), mhas(m, q), cached(C, o, q), ptr == z3.Select(EF(C, "search_index").l[1], ev(C, "page", o, q)), eq([z3.Select(a, j) for a in ch.l[1:4]], [z3.Select(a, q) for a in m.l[1:4]]), ptr > 0, alive(C, "Page", ptr), C.f("Page", "data", ptr).l[1] == 0)), [[z3.Select(a, j)] for a in ch.l[1:]])), ("bytes", L.z("streak_bytes") == z3.If(p == s, (s - 1) * BS + rd + 1, p * BS)),
                    ("filled", fa(j, z3.Implies(z3.And(0 <= j, j < p), z3.And(z3.Select(v.l[1], j) == pg.pbuf(C, ptr), z3.Select(v.l[2], j) == off, z3.Select(v.l[3], j) == z3.If(j == s - 1, rd + 1, BS))), [[z3.Select(v.l[1], j)], [z3.Select(v.l[2], j)], [z3.Select(v.l[3], j)]])),
                    ("records of other owners", fa(o2, z3.Implies(o2 != o, eq([z3.Select(a, o2) for a in oo.l[1:]], [z3.Select(a, o2) for a in o0.l[1:]])), [z3.Select(a, o2) for a in oo.l[1:]])), ("owners", oo.l[0] == o0.l[0]),
                    ("records of the owner", z3.And(eq(m.l[:5], m0.l[:5]))), ("synced", fa(b, z3.Select(m.l[5], b) == z3.Or(z3.And(first <= b, b < first + p), z3.Select(m0.l[5], b)), [z3.Select(m.l[5], b)]))]
    loops = {0: Collect(), 1: Clean(), 2: Write(), 3: Fill()}

class EngineCtor(EngM):
    """a new cache holds nothing and all its pages are free"""
    name = "CustomCacheEngine::CustomCacheEngine"; nargs = 1; ctor = True; props = ("C05", "C19", "C21"); modifies = REP + PAGE + ("mem", "buflen", "Page.data", "Page.config", ENG + "search_index", ENG + "config", ENG + "lru_main_vector", ENG + "page_order_mapping", "Page.$buf")
    def args(self, C, case): return {"config": Val(("ptr", "Config"), [z3.Int("config")])}
    def needs(self, C):
        e = lambda f: EF(C, f).l[0]
        return [("a configuration is given", C.az("config") > 0), ("fewer than 2^31 pages", z3.And(0 <= N(C), N(C) < 2 ** 31))] + ([("its containers are empty", z3.And(e("free_pages") == 0, e("search_index") == z3.K(I, z3.BoolVal(False)), *[e(f) == z3.K(Str, z3.BoolVal(False)) for f in ("owner_pages_mapping", "owner_free_pages_mapping", "owner_ordered_pages_mapping")]))] if self.body(C) else [])
    def pre(self, C):
        C.g_("Page.$id", I2I)
        for c, s in list(VIEW.items()) + list(GHOST.items()): C.g_(c, s)
        return (pg.cfg_ok(C) if self.body(C) else []) + self.needs(C)
    def mod_cells(self, C): return super().mod_cells(C) + ("Page.$id",)
    def ghost_update(self, C):
        o, b, i = z3.FreshConst(Str, "o"), K(), K("i"); np = z3.FreshConst(VIEW["e.page"], "page"); pos = z3.FreshConst(I2I, "fpos")
        C.st.assume(fa([o, b], z3.Select(z3.Select(np, o), b) == -1, [z3.Select(z3.Select(np, o), b)])); C.st.heap["e.page"] = [np]; C.st.heap["e.used"] = [z3.IntVal(0)]
        C.st.assume(fa(i, z3.Select(pos, i) == i, [z3.Select(pos, i)])); C.st.heap["eng.$fpos"] = [pos]
    def res(self, C):
        o, b = z3.FreshConst(Str, "o"), K(); return [("nothing is cached", z3.And(C.g_("e.used", I) == 0, fa([o, b], ev(C, "page", o, b) == -1, [ev(C, "page", o, b)])))]
    def outside(self, C): return []
    class Loop:
        ghosts = ("Page.$id",)
        def ghost(self, L):
            C = Ctx(L.ex, L.entry, L.st, {}); L.st.heap["Page.$id"] = [z3.Store(C.g_("Page.$id", I2I), z3.Select(EF(C, "search_index").l[1], L.prev.z("page_index")), L.prev.z("page_index"))]
        def inv(self, L):
            C = Ctx(L.ex, L.entry, L.st, {}); i, j, b = K("i"), K("j"), K(); n = L.z("it"); si, fp = EF(C, "search_index"), EF(C, "free_pages"); P = z3.Select(si.l[1], i); inr = z3.And(0 <= i, i < n); h = has(C, P, b)
            return [("counted", z3.And(0 <= n, n <= N(C), L.z("page_index") == n, fp.l[0] == n)), ("numbered", fa(i, z3.And(mhas(si, i) == inr, z3.Implies(inr, z3.And(P > 0, alive(C, "Page", P), z3.Select(C.g_("Page.$id", I2I), P) == i, owner(C, P) == lit(NONE), z3.Select(C.g_("Page.$nfree", I2I), P) > 0))), [[P], [mhas(si, i)]])),
                    ("empty", fa([i, b], z3.Implies(inr, z3.Not(h)), [h])), ("free", fa(j, z3.Implies(z3.And(0 <= j, j < n), z3.Select(fp.l[1], j) == j), [z3.Select(fp.l[1], j)]))]
    loops = {0: Loop()}

def contracts(): return [NextFree(), PageSync(), VisitWrite(), VisitRead(), EngineCtor(), IsCached(), Usage(), GetBlocks(), Allocate(), MakeReadable(), RemoveCached(), Truncate(), DirtyInfo()] + [SyncPages()]
