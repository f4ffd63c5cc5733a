"""Cache pages: which blocks a page holds and their bytes.

View of a page, used by the engine: Page.$has / $byte / $rd / $off per block and $nfree; `page_inv` couples it with the
page's buffer, the offset maps and the free list, for every page at once (so that no two pages share bytes)."""
import os, z3
from sym import *
from verify import Contract, Ctx
from contracts.faults import int_arg
from contracts.leaf import fa, K, alive, I2B, I2I
BS = int(os.environ.get("CPPVC_BS", "4096"))   # the thorough tier repeats the proofs with others
I3I = z3.ArraySort(I, I2I); I3B = z3.ArraySort(I, I2B)
VIEW = {"Page.$has": I3B, "Page.$rd": I3I, "Page.$off": I3I, "Page.$byte": z3.ArraySort(I, I3I), "Page.$nfree": I2I}
GHOST = {"Page.$free": I3B, "Page.$fidx": I3I, "Page.$blkat": I3I, "Page.$buf": I2I}
SORTS = {**VIEW, **GHOST}
REP = ("BlockOffsets.block_offset_mapping", "BlockOffsets.block_readable_to", "Page.free_block_indexes")
def view(C, n, p, old=False): n = "Page." + n; return z3.Select(C.g_(n, SORTS[n], old=old), p)
def set_view(C, n, p, v):
    n = "Page." + n; c = C.g_(n, SORTS[n]); C.st.heap[n] = [z3.Store(c, p, v)]
def PS(C): return C.f("Config", "CACHE_PAGE_SIZE").z
def pbuf(C, p): return C.f("Page", "data", p).l[0]
def mem(C, old=False): return C.ex.mem(C.st0 if old else C.st)
def cfg_ok(C): return [("the page size is a multiple of the block size", z3.And(PS(C) > 0, PS(C) < 2 ** 31, PS(C) % BS == 0))]
def page_inv(C):
    p, b, i, a, k = (z3.FreshConst(I, n) for n in "pbiak")
    al = alive(C, "Page", p); d = C.f("Page", "data", p); bom, brt = C.f("BlockOffsets", "block_offset_mapping", p), C.f("BlockOffsets", "block_readable_to", p)
    fb = C.f("Page", "free_block_indexes", p); has = z3.Select(view(C, "$has", p), b); off = z3.Select(view(C, "$off", p), b); by = z3.Select(z3.Select(view(C, "$byte", p), b), k)
    fi = z3.Select(fb.l[1], i); M = z3.Select(mem(C), d.l[0]); free = lambda o: z3.Select(view(C, "$free", p), o); ps = PS(C)
    return [("page buffers", fa(p, z3.Implies(al, z3.And(d.l[0] > 0, d.l[1] == 0, z3.Select(C.ex.buflen(C.st), d.l[0]) == ps, z3.Select(C.g_("Page.$buf", I2I), d.l[0]) == p, p > 0, C.f("Page", "config", p).z > 0)), [[d.l[0]], [d.l[1]]])),
            ("free slots counted", fa(p, z3.Implies(al, z3.And(fb.l[0] == z3.Select(C.g_("Page.$nfree", I2I), p), fb.l[0] >= 0)), [[fb.l[0]], [z3.Select(C.g_("Page.$nfree", I2I), p)]])),
            ("free slots", fa([p, i], z3.Implies(z3.And(al, 0 <= i, i < fb.l[0]), z3.And(free(fi), z3.Select(view(C, "$fidx", p), fi) == i, 0 <= fi, fi + BS <= ps, fi % BS == 0)), [fi])),
            ("free slots hold zeros", fa([p, a], z3.Implies(z3.And(al, 0 <= a, a < ps, free(a - a % BS)), z3.Select(M, a) == 0), [z3.Select(M, a)])),
            ("blocks of the page", fa([p, b], z3.Implies(al, z3.And(mhas(bom, b) == has, mhas(brt, b) == has)), [[mhas(bom, b)], [mhas(brt, b)], [has]])),
            ("block slots", fa([p, b], z3.Implies(z3.And(al, has), z3.And(bom.l[1][b] == off, bom.l[2][b] == off + BS - 1, brt.l[1][b] == z3.Select(view(C, "$rd", p), b), 0 <= off, off + BS <= ps, off % BS == 0,
                z3.Select(view(C, "$blkat", p), off) == b, z3.Not(free(off)))), [has])),
            ("block bytes", fa([p, b, k], z3.Implies(z3.And(al, has, 0 <= k, k < BS), z3.Select(M, off + k) == by), [by]))]

class PageM(Contract):
    units = ("page", "block_offsets"); props = ("C01", "C02", "C05", "C21"); modifies = (); cls = "Page"; of_page = True
    def this(self, C): return LObj(self.cls, z3.Int("this"))
    def r(self, C): return C.this.ref
    def body(self, C): return hasattr(C, "case")
    def mod_cells(self, C): return tuple(self.modifies) + (tuple(VIEW) + tuple(GHOST) if self.body(C) else ())
    def args(self, C, case): return {}
    def pre(self, C):
        out = [("the page exists", z3.And(alive(C, "Page", self.r(C)), self.r(C) > 0))] + self.needs(C)
        return cfg_ok(C) + out + page_inv(C) if self.body(C) else out
    def needs(self, C): return []
    def post(self, C): return (page_inv(C) if self.body(C) and self.modifies else []) + self.outside(C) + self.res(C)
    def res(self, C): return []
    def outside(self, C):
        if "mem" not in self.modifies or self.written(C) is not None: return []
        b = z3.FreshConst(I, "buf"); M, M0 = mem(C), mem(C, True)
        return [("bytes outside the page stay", fa(b, z3.Implies(z3.Select(C.g_("Page.$buf", I2I, old=True), b) != self.r(C), z3.Select(M, b) == z3.Select(M0, b)), [z3.Select(M, b)]))]
    def written(self, C): return None
    def frame(self, D, k, w, v): return None
    def apply(self, ex, st, fn, this, args, n):
        for c, s in list(VIEW.items()) + list(GHOST.items()): ex.ghost(st, c, s)
        return super().apply(ex, st, fn, this, args, n)
    def after(self, C): self.ghost_update(C)
    def use_at_call(self, ex, st, fn, this, args): return not ex.fname.startswith(("Page::", "BlockOffsets::"))
    def has(self, C, b, old=True): return z3.Select(view(C, "$has", self.r(C), old), b)
    def v(self, C, n, old=True): return view(C, n, self.r(C), old)
    def put(self, C, n, v): set_view(C, n, self.r(C), v)
def barg(C, n="block_id"): return {n: int_arg(C.ex, C.st, INT, n)}

class Contains(PageM):
    name = "Page::contains_block"; an = "block_id"
    def args(self, C, case): return barg(C, self.an)
    def res(self, C): return [("says whether the page holds the block", C.ret.z == self.has(C, C.az(self.an)))]
class GetReadable(PageM):
    name = "BlockOffsets::get_readable_to"; cls = "BlockOffsets"
    def args(self, C, case): return barg(C)
    def needs(self, C): return [("the page holds the block", self.has(C, C.az("block_id")))]
    def res(self, C): return [("the last readable byte", C.ret.z == z3.Select(self.v(C, "$rd"), C.az("block_id")))]
class ReadableOffsets(PageM):
    name = "BlockOffsets::get_block_readable_offsets"; cls = "BlockOffsets"; props = ("C17", "C21")
    def res(self, C):
        b = K(); r = C.ret; return [("the blocks of the page", fa(b, mhas(r, b) == self.has(C, b), [[mhas(r, b)], [self.has(C, b)]])), ("how far they are readable", fa(b, z3.Implies(mhas(r, b), z3.Select(r.l[1], b) == z3.Select(self.v(C, "$rd"), b)), [z3.Select(r.l[1], b)]))]
    class Loop:
        def inv(self, L):
            C = Ctx(L.ex, L.entry, L.st, {}); b = K(); r = L.v("res"); vis = L.it().visited; m = C.f("BlockOffsets", "block_readable_to", z3.Int("this"))
            return [("visited", fa(b, z3.Implies(z3.Select(vis, b), mhas(m, b)), [z3.Select(vis, b)])), ("copied", fa(b, mhas(r, b) == z3.Select(vis, b), [mhas(r, b)])), ("values", fa(b, z3.Implies(z3.Select(vis, b), z3.Select(r.l[1], b) == z3.Select(m.l[1], b)), [z3.Select(r.l[1], b)]))]
    loops = {0: Loop()}
class Empty(PageM):
    name = "BlockOffsets::empty"; cls = "BlockOffsets"
    def res(self, C):
        b = K(); h = self.has(C, b); w = z3.FreshConst(I, "some")
        return [("no block", z3.Implies(C.ret.z, fa(b, z3.Not(h), [h]))), ("a block", z3.Implies(z3.Not(C.ret.z), z3.Exists([b], h)))]
class HasFree(PageM):
    name = "Page::has_free_space"
    def res(self, C): return [("says whether a slot is free", C.ret.z == (z3.Select(C.g_("Page.$nfree", I2I), self.r(C)) > 0))]
class Offsets(PageM):
    name = "Page::get_block_offsets"
    def args(self, C, case): return barg(C)
    def res(self, C):
        b = C.az("block_id"); h = self.has(C, b); o = z3.Select(self.v(C, "$off"), b)
        return [("where the block is", z3.And(C.ret.l[0] == z3.If(h, o, -1), C.ret.l[1] == z3.If(h, o + BS - 1, -1)))]
def user_buf(C, b): return [("the caller's buffer is not a cache page", z3.Not(alive(C, "Page", z3.Select(C.g_("Page.$buf", I2I), b))))]
class GetData(PageM):
    """copies the first bytes of the block into the caller's buffer"""
    name = "Page::get_block_data"; modifies = ("mem",); props = ("C01", "C05", "C21")
    def args(self, C, case): return {**barg(C), "buffer": Val(BUF, [z3.Int("arg:buf"), z3.Int("arg:buf_off")]), "read_to_max_index": int_arg(C.ex, C.st, INT, "read_to_max_index")}
    def needs(self, C):
        m, b = C.az("read_to_max_index"), C.a("buffer")
        return [("the page holds the block", self.has(C, C.az("block_id"))), ("the bytes asked for are in the block", z3.And(m >= -1, m < BS)),
                ("they fit the caller's buffer", z3.Or(m < 0, z3.And(b.l[0] > 0, b.l[1] >= 0, b.l[1] + m + 1 <= z3.Select(C.ex.buflen(C.st), b.l[0]))))] + user_buf(C, b.l[0])
    def written(self, C): return C.a("buffer").l[0]
    def res(self, C):
        B_, o = C.a("buffer").l; m = C.az("read_to_max_index"); i = K("a"); x = K("buf"); M, M0 = mem(C), mem(C, True); P = ("C01", "C05")
        by = z3.Select(self.v(C, "$byte"), C.az("block_id"))
        return [("the caller's bytes are the block's", fa(i, z3.Select(z3.Select(M, B_), i) == z3.If(z3.And(i >= o, i <= o + m), z3.Select(by, i - o), z3.Select(z3.Select(M0, B_), i)), [z3.Select(z3.Select(M, B_), i)]), P),
                ("nothing else is written", fa(x, z3.Implies(x != B_, z3.Select(M, x) == z3.Select(M0, x)), [z3.Select(M, x)]))]
class Update(PageM):
    """overlays bytes on a block the page holds"""
    name = "Page::update_block_data"; modifies = ("mem", "Page.is_dirty"); props = ("C01", "C02", "C05", "C21")
    def args(self, C, case): return {**barg(C), "new_data": Val(BUF, [z3.Int("arg:buf"), z3.Int("arg:buf_off")]), "data_length": int_arg(C.ex, C.st, ULONG, "data_length"), "off_start": int_arg(C.ex, C.st, INT, "off_start")}
    def needs(self, C):
        n, o, b = C.az("data_length"), C.az("off_start"), C.a("new_data")
        return [("the bytes are in the block", z3.And(n >= 0, o >= 0, o + n <= BS)), ("the data are readable", z3.Or(n == 0, z3.And(b.l[0] > 0, b.l[1] >= 0, b.l[1] + n <= z3.Select(C.ex.buflen(C.st), b.l[0]))))] + user_buf(C, b.l[0])
    def ghost_update(self, C):
        b, n, o = C.az("block_id"), C.az("data_length"), C.az("off_start"); s = C.a("new_data").l; k = K("k"); h = self.has(C, b)
        old = z3.Select(self.v(C, "$byte"), b); nb = z3.FreshConst(I2I, "block_after_update")
        C.st.assume(fa(k, z3.Select(nb, k) == z3.If(z3.And(h, k >= o, k < o + n), z3.Select(z3.Select(mem(C, True), s[0]), s[1] + k - o), z3.Select(old, k)), [z3.Select(nb, k)]))
        self.put(C, "$byte", z3.Store(self.v(C, "$byte"), b, nb))
    def res(self, C):
        h = self.has(C, C.az("block_id")); i = K("p"); d, d0 = (C.f("Page", "is_dirty", self.r(C), old=o).z for o in (False, True))
        c, c0 = (C.f("Page", "is_dirty", i, old=o).z for o in (False, True))
        return [("works exactly if the page holds the block", C.ret.z == h), ("the page is dirty", d == z3.Or(h, d0), ("C02",)), ("no other page becomes dirty", fa(i, z3.Implies(i != self.r(C), c == c0), [c]))]
class Alloc(PageM):
    """takes a free slot for a new block: its bytes are zero and none of them is readable yet"""
    name = "Page::get_allocate_free_offset"; modifies = REP; props = ("C01", "C05", "C21")
    def args(self, C, case): return barg(C)
    def nf(self, C): return z3.Select(C.g_("Page.$nfree", I2I, old=True), self.r(C))
    def needs(self, C): return [("the block is new", z3.Not(self.has(C, C.az("block_id")))), ("a slot is free", self.nf(C) > 0)]
    def ghost_update(self, C):
        b = C.az("block_id"); o = C.ret.l[0]
        if self.body(C):
            self.put(C, "$free", z3.Store(self.v(C, "$free"), o, False)); self.put(C, "$blkat", z3.Store(self.v(C, "$blkat"), o, b))
        self.put(C, "$has", z3.Store(self.v(C, "$has"), b, True)); self.put(C, "$rd", z3.Store(self.v(C, "$rd"), b, -1)); self.put(C, "$off", z3.Store(self.v(C, "$off"), b, o))
        self.put(C, "$byte", z3.Store(self.v(C, "$byte"), b, z3.K(I, z3.IntVal(0)))); C.st.heap["Page.$nfree"] = [z3.Store(C.g_("Page.$nfree", I2I), self.r(C), self.nf(C) - 1)]
    def res(self, C): return [("returns the slot", z3.And(C.ret.l[0] >= 0, C.ret.l[1] == C.ret.l[0] + BS - 1))]
class Readable(PageM):
    name = "Page::make_block_readable_to"; modifies = REP
    def args(self, C, case): return {**barg(C, "blk_id"), **barg(C, "max_offset")}
    def needs(self, C): return [("the page holds the block", self.has(C, C.az("blk_id")))]
    def ghost_update(self, C): self.put(C, "$rd", z3.Store(self.v(C, "$rd"), C.az("blk_id"), C.az("max_offset")))
class WriteNull(PageM):
    """zeroes the tail of a block"""
    name = "Page::write_null_from"; modifies = ("mem",); props = ("C07", "C21")
    def args(self, C, case): return {**barg(C), **barg(C, "from_offset")}
    def needs(self, C): return [("the page holds the block", self.has(C, C.az("block_id"))), ("the offset is in the block", z3.And(C.az("from_offset") >= 0, C.az("from_offset") <= BS))]
    def ghost_update(self, C):
        b, f = C.az("block_id"), C.az("from_offset"); k = K("k"); old = z3.Select(self.v(C, "$byte"), b); nb = z3.FreshConst(I2I, "block_after_null")
        C.st.assume(fa(k, z3.Select(nb, k) == z3.If(z3.And(k >= f, k < BS), 0, z3.Select(old, k)), [z3.Select(nb, k)])); self.put(C, "$byte", z3.Store(self.v(C, "$byte"), b, nb))
class Remove(PageM):
    """forgets a block; its slot is free again and holds zeros"""
    name = "Page::remove_block"; modifies = REP + ("mem", "Page.is_dirty"); props = ("C01", "C06", "C07", "C21")
    def args(self, C, case): return barg(C)
    def ghost_update(self, C):
        b = C.az("block_id"); h = self.has(C, b); o = z3.Select(self.v(C, "$off"), b); nf = z3.Select(C.g_("Page.$nfree", I2I, old=True), self.r(C))
        if self.body(C):
            self.put(C, "$free", z3.If(h, z3.Store(self.v(C, "$free"), o, True), self.v(C, "$free"))); self.put(C, "$fidx", z3.If(h, z3.Store(self.v(C, "$fidx"), o, nf), self.v(C, "$fidx")))
        self.put(C, "$has", z3.Store(self.v(C, "$has"), b, False)); C.st.heap["Page.$nfree"] = [z3.Store(C.g_("Page.$nfree", I2I), self.r(C), nf + z3.If(h, 1, 0))]
    def res(self, C):
        i = K("p"); c, c0 = (C.f("Page", "is_dirty", i, old=o).z for o in (False, True)); d, d0 = (C.f("Page", "is_dirty", self.r(C), old=o).z for o in (False, True)); b = K()
        none = fa(b, z3.Not(self.has(C, b, False)), [self.has(C, b, False)])
        return [("a slot is free again", z3.Implies(self.has(C, C.az("block_id")), z3.Select(C.g_("Page.$nfree", I2I), self.r(C)) > 0)), ("a page that still has blocks stays dirty", z3.And(z3.Or(d == d0, z3.Not(d)), z3.Implies(z3.And(d0, z3.Not(d)), none)), ("C02",)), ("other pages keep their state", fa(i, z3.Implies(i != self.r(C), c == c0), [c]))]
class Reset(PageM):
    """empties the page: every slot is free and holds zeros"""
    name = "Page::reset"; modifies = REP + ("mem", "Page.is_dirty"); props = ("C01", "C05", "C06", "C21"); ctor = False
    def ghost_update(self, C):
        o = K("o")
        if self.body(C):
            nf, nx = z3.FreshConst(I2B, "all_free"), z3.FreshConst(I2I, "all_idx")
            C.st.assume(fa(o, z3.Select(nf, o) == True, [z3.Select(nf, o)])); C.st.assume(fa(o, z3.Select(nx, o) == o / BS, [z3.Select(nx, o)]))
            self.put(C, "$free", nf); self.put(C, "$fidx", nx)
            if self.ctor: C.st.heap["Page.$buf"] = [z3.Store(C.g_("Page.$buf", I2I), pbuf(C, self.r(C)), self.r(C))]
        elif self.ctor:
            g = C.g_("Page.$buf", I2I); nb = z3.FreshConst(I, "pagebuf"); C.st.heap["Page.$buf"] = [z3.Store(g, nb, self.r(C))]; C.st.assume(z3.Not(alive(C, "Page", z3.Select(g, nb))))
        self.put(C, "$has", z3.K(I, z3.BoolVal(False))); C.st.heap["Page.$nfree"] = [z3.Store(C.g_("Page.$nfree", I2I), self.r(C), PS(C) / BS)]
    def res(self, C):
        i = K("p"); c, c0 = (C.f("Page", "is_dirty", i, old=o).z for o in (False, True))
        return [("the page is clean", z3.Not(C.f("Page", "is_dirty", self.r(C)).z)), ("other pages keep their state", fa(i, z3.Implies(i != self.r(C), c == c0), [c]))]
    class Loop:
        def inv(self, L):
            C = Ctx(L.ex, L.entry, L.st, {}); fb = C.f("Page", "free_block_indexes", z3.Int("this")); j = K("j"); i = L.z("i"); p = K("p"); ps = PS(C)
            f2 = C.f("Page", "free_block_indexes", p); E = Ctx(L.ex, L.entry, L.entry, {}); f0 = E.f("Page", "free_block_indexes", p)
            return [("slots so far", z3.And(i == fb.l[0] * BS, 0 <= fb.l[0], i <= ps)), ("slot positions", fa(j, z3.Implies(z3.And(0 <= j, j < fb.l[0]), z3.Select(fb.l[1], j) == j * BS), [z3.Select(fb.l[1], j)])),
                    ("other pages", fa(p, z3.Implies(p != z3.Int("this"), z3.And([x == y for x, y in zip(f2.l, f0.l)])), list(f2.l)))]
    loops = {0: Loop()}

class PageCtor(Reset):
    """a new page is empty, clean and nobody's"""
    name = "Page::Page"; nargs = 1; ctor = True; props = ("C05", "C06", "C19", "C21"); modifies = REP + ("mem", "buflen", "Page.is_dirty", "Page.page_owner_id", "Page.data", "Page.config")
    def args(self, C, case): return {"config": Val(("ptr", "Config"), [z3.Int("config")])}
    def pre(self, C):
        if not self.body(C): return [("a configuration is given", C.a("config").z > 0)]
        e = z3.K(I, z3.BoolVal(False)); r = self.r(C)
        new = z3.And(C.f("BlockOffsets", "block_offset_mapping", r).l[0] == e, C.f("BlockOffsets", "block_readable_to", r).l[0] == e, C.f("Page", "free_block_indexes", r).l[0] == 0)
        return cfg_ok(C) + [("its containers are empty", new), ("the page is new", z3.And(self.r(C) > 0, z3.Not(alive(C, "Page", self.r(C))), C.az("config") > 0))] + page_inv(C)
    def ghost_update(self, C):
        if self.body(C): C.st.heap["Page.$alive"] = [z3.Store(C.g_("Page.$alive", I2B), self.r(C), True)]
        super().ghost_update(C)
    def outside(self, C):
        b = z3.FreshConst(I, "buf"); M, M0 = mem(C), mem(C, True); L, L0 = C.ex.buflen(C.st), C.ex.buflen(C.st0); old = z3.Select(L0, b) >= 0
        return [("existing buffers stay", fa(b, z3.Implies(old, z3.And(z3.Select(M, b) == z3.Select(M0, b), z3.Select(L, b) == z3.Select(L0, b))), [[z3.Select(M, b)], [z3.Select(L, b)]]))]
    def res(self, C):
        p = K("p"); out = super().res(C); o, o0 = (C.f("Page", "page_owner_id", p, old=x).z for x in (False, True))
        return out + [("nobody's", C.f("Page", "page_owner_id", self.r(C)).z == lit("none")), ("owners of other pages stay", fa(p, z3.Implies(p != self.r(C), o == o0), [o]))]

def contracts(): return [PageCtor(), Contains(), GetReadable(), Empty(), ReadableOffsets(), HasFree(), Offsets(), GetData(), Update(), Alloc(), Readable(), WriteNull(), Remove(), Reset()]
