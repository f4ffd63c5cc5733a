"""The objects of one cached file: Data (which blocks, in which page, readable up to where), Item, BlockInfo.

Callers see a Data through its view: ghost maps Data.$has / $page / $rd per block, assigned by each method's
specification (`ghost_update`).  The representation invariant `data_inv` couples the view with the real maps;
each method is proved to keep it, and nobody else can reach the private fields."""
import z3
from sym import *
from verify import Contract, Ctx
from contracts.faults import int_arg
I2B = z3.ArraySort(I, B); I2I = z3.ArraySort(I, I)
VIEW = {"Data.$has": z3.ArraySort(I, I2B), "Data.$page": z3.ArraySort(I, I2I), "Data.$rd": z3.ArraySort(I, I2I)}
REP = ("Data.blocks", "BlockInfo.page_index_number", "BlockInfo.readable_offset", "BlockInfo.$of", "BlockInfo.$blk")
def fa(q, body, pats): return z3.ForAll(q if isinstance(q, list) else [q], body, patterns=[p[0] if isinstance(p, list) else p for p in pats])
def refof(v): return v.ref if isinstance(v, LObj) else v.z
def K(n="b"): return z3.FreshConst(I, n)
def view(C, n, d, old=False): return z3.Select(C.g_("Data." + n, VIEW["Data." + n], old=old), d)
def set_view(C, n, d, arr):
    c = C.g_("Data." + n, VIEW["Data." + n]); C.st.heap["Data." + n] = [z3.Store(c, d, arr)]
def alive(C, cls, r, old=False): return z3.Select(C.g_(cls + ".$alive", I2B, old=old), r)
def of(C, i, old=False): return z3.Select(C.g_("BlockInfo.$of", I2I, old=old), i)
def blk(C, i, old=False): return z3.Select(C.g_("BlockInfo.$blk", I2I, old=old), i)
def data_inv(C):
    """the view is what the maps say; every BlockInfo belongs to one block of one Data"""
    d, b = z3.FreshConst(I, "d"), K()
    m = C.f("Data", "blocks", d); h, info = mhas(m, b), z3.Select(m.l[1], b)
    pg = C.f("BlockInfo", "page_index_number", info).z; rd = C.f("BlockInfo", "readable_offset", info).l[1]
    vh = z3.Select(view(C, "$has", d), b)
    return [("the blocks recorded are those of the file", fa([d, b], z3.Implies(alive(C, "Data", d), h == vh), [[h], [vh]])),
            ("each block has its own record", fa([d, b], z3.Implies(z3.And(alive(C, "Data", d), h), z3.And(info > 0, alive(C, "BlockInfo", info), of(C, info) == d, blk(C, info) == b,
                pg == z3.Select(view(C, "$page", d), b), rd == z3.Select(view(C, "$rd", d), b))), [h]))]

class DataM(Contract):
    units = ("data", "block_info", "item"); props = ("C01", "C07", "C21"); modifies = (); view_changes = ()
    def this(self, C): return LObj("Data", z3.Int("this"))
    @property
    def me(self): return z3.Int("this")
    def r(self, C): return C.this.ref
    def body(self, C): return hasattr(C, "case")
    def inv(self, C): return data_inv(C) if self.body(C) else []
    def mod_cells(self, C): return self.modifies + (tuple(VIEW) if self.body(C) else ())
    def args(self, C, case): return {}
    def pre(self, C): return [("the object exists", alive(C, "Data", self.r(C)))] + self.inv(C)
    def post(self, C): return self.inv(C) + self.res(C)
    def res(self, C): return []
    def post_ghost(self, C): pass
    def apply(self, ex, st, fn, this, args, n):
        for c, s in VIEW.items(): ex.ghost(st, c, s)
        return super().apply(ex, st, fn, this, args, n)
    def after(self, C): self.ghost_update(C)
    def loc(self, C): return C.f("Data", "blocks", self.r(C))
    def frame(self, D, k, w, v): return None

class DataCtor(DataM):
    name = "Data::Data"; modifies = ("Data.blocks",)
    def ghost_update(self, C): set_view(C, "$has", self.r(C), z3.K(I, z3.BoolVal(False)))
    def pre(self, C):
        out = [("the object exists", alive(C, "Data", self.r(C)))]
        if self.body(C):
            m = C.f("Data", "blocks", self.r(C)); set_view(C, "$has", self.r(C), m.l[0])
            C.st.assume(m.l[0] == z3.K(I, z3.BoolVal(False)))        # a new map is empty
        return out + self.inv(C)
    def res(self, C): return []
class Dtor(DataM):
    name = "Data::~Data"; modifies = ("Data.blocks",)
    def post(self, C): return []
    class Loop:
        def inv(self, L):
            C = Ctx(L.ex, L.entry, L.st, {}); b = K(); m = C.f("Data", "blocks", z3.Int("this")); info = z3.Select(m.l[1], b); vis = z3.Select(L.it().visited, b)
            E = Ctx(L.ex, L.entry, L.entry, {}); i = z3.FreshConst(I, "i")
            return [("records of other files are not touched", fa(i, z3.Implies(of(E, i) != z3.Int("this"), alive(C, "BlockInfo", i) == alive(E, "BlockInfo", i)), [alive(C, "BlockInfo", i)])),
                    ("visited", fa(b, z3.Implies(vis, mhas(m, b)), [vis])),
                    ("records not yet visited still exist", fa(b, z3.Implies(z3.And(mhas(m, b), z3.Not(vis)), z3.And(info > 0, alive(C, "BlockInfo", info), of(C, info) == z3.Int("this"), blk(C, info) == b)), [mhas(m, b)]))]
    loops = {0: Loop()}
    def use_at_call(self, *a): return False

def blk_arg(C): return int_arg(C.ex, C.st, INT, "blk_id")
class HasBlock(DataM):
    name = "Data::has_block"
    def args(self, C, case): return {"blk_id": blk_arg(C)}
    def res(self, C): return [("says whether the block is there", C.ret.z == z3.Select(view(C, "$has", self.r(C)), C.az("blk_id")))]
class GetPage(DataM):
    name = "Data::get_page_id"
    def args(self, C, case): return {"blk_id": blk_arg(C)}
    def res(self, C): return [("the page of the block, -1 without one", C.ret.z == z3.If(z3.Select(view(C, "$has", self.r(C)), C.az("blk_id")), z3.Select(view(C, "$page", self.r(C)), C.az("blk_id")), -1))]
class CountBlocks(DataM):
    name = "Data::count_blocks"
    def res(self, C):
        b = K(); h = z3.Select(view(C, "$has", self.r(C)), b); return [("not 0 with a block", z3.And(C.ret.z >= 0, fa(b, z3.Implies(h, C.ret.z > 0), [h])), ("C06", "C07"))]
class ReadOff(DataM):
    name = "Data::_get_readable_offsets"
    def args(self, C, case): return {"blk_id": blk_arg(C)}
    def pre(self, C): return super().pre(C) + [("the block is there", z3.Select(view(C, "$has", self.r(C)), C.az("blk_id")))]
    def res(self, C): return [("the last readable byte", C.ret.l[1] == z3.Select(view(C, "$rd", self.r(C)), C.az("blk_id")))]
    def fresh_ret(self, C, fn): return fresh(("tup", INT, INT), "ret_offs") if False else super().fresh_ret(C, fn)
class MaxOffsets(DataM):
    name = "Data::get_blocks_max_offsets"
    def res(self, C):
        b = K(); h = z3.Select(view(C, "$has", self.r(C)), b); r = C.ret
        return [("lists exactly the blocks of the file", fa(b, mhas(r, b) == h, [[mhas(r, b)], [h]]), ("C01", "C02")),
                ("with the last readable byte of each", fa(b, z3.Implies(h, z3.Select(r.l[1], b) == z3.Select(view(C, "$rd", self.r(C)), b)), [z3.Select(r.l[1], b)]), ("C01", "C02"))]
    class Loop:
        def inv(self, L):
            C = Ctx(L.ex, L.entry, L.st, {}); b = K(); t = z3.Int("this"); m = C.f("Data", "blocks", t); vis = z3.Select(L.it().visited, b); r = L.v("res")
            return [("visited", fa(b, z3.Implies(vis, mhas(m, b)), [vis])),
                    ("listed so far", fa(b, z3.And(mhas(r, b) == vis, z3.Implies(vis, z3.Select(r.l[1], b) == z3.Select(view(C, "$rd", t), b))), [[mhas(r, b)], [vis]]))]
    loops = {0: Loop()}

class SetPage(DataM):
    name = "Data::set_block_page_id"; modifies = REP
    def args(self, C, case): return {n: int_arg(C.ex, C.st, INT, n) for n in ("blk_id", "allocated_page", "readable_from", "readable_to")}
    def vals(self, C):
        r, b = self.r(C), C.az("blk_id"); h = view(C, "$has", r, True); rd0 = z3.If(z3.Select(h, b), z3.Select(view(C, "$rd", r, True), b), 0)
        to = C.az("readable_to"); return r, b, h, z3.If(to > rd0, to, rd0)
    def ghost_update(self, C):
        r, b, h, rd = self.vals(C)
        set_view(C, "$has", r, z3.Store(h, b, True)); set_view(C, "$page", r, z3.Store(view(C, "$page", r, True), b, C.az("allocated_page"))); set_view(C, "$rd", r, z3.Store(view(C, "$rd", r, True), b, rd))
        if self.body(C):
            i = z3.Select(self.loc(C).l[1], b)
            C.st.heap["BlockInfo.$of"] = [z3.Store(C.g_("BlockInfo.$of", I2I), i, r)]; C.st.heap["BlockInfo.$blk"] = [z3.Store(C.g_("BlockInfo.$blk", I2I), i, b)]
    def res(self, C): return [("returns the last readable byte", C.ret.z == self.vals(C)[3])]
class RemoveBlock(DataM):
    name = "Data::remove_block"; modifies = REP
    def args(self, C, case): return {"blk_id": blk_arg(C)}
    def ghost_update(self, C): set_view(C, "$has", self.r(C), z3.Store(view(C, "$has", self.r(C), True), C.az("blk_id"), False))
class RemoveAll(DataM):
    name = "Data::remove_all_blocks"; modifies = REP; loops = {0: Dtor.Loop()}
    def ghost_update(self, C): set_view(C, "$has", self.r(C), z3.K(I, z3.BoolVal(False)))

class TruncateBlocks(DataM):
    """drops every block after (k, idx) and makes block k readable up to idx-1; returns the blocks from k on with their pages"""
    name = "Data::truncate_blocks_after"; modifies = REP; props = ("C06", "C07", "C21")
    def args(self, C, case): return {n: int_arg(C.ex, C.st, INT, n) for n in ("blk_id", "blk_byte_index")}
    def pre(self, C): return super().pre(C) + [("the position is inside a block", z3.And(C.az("blk_byte_index") >= 0, C.az("blk_id") >= 0))]
    @staticmethod
    def gone(b, k, idx): return z3.Or(b > k, z3.And(b == k, idx == 0))
    def ghost_update(self, C):
        r, k, idx = self.r(C), C.az("blk_id"), C.az("blk_byte_index"); b = K(); h = view(C, "$has", r, True)
        nh = z3.FreshConst(I2B, "has_after_truncate"); C.st.assume(fa(b, z3.Select(nh, b) == z3.And(z3.Select(h, b), z3.Not(self.gone(b, k, idx))), [[z3.Select(nh, b)], [z3.Select(h, b)]]))
        rd = view(C, "$rd", r, True)
        set_view(C, "$has", r, nh); set_view(C, "$rd", r, z3.If(z3.And(z3.Select(h, k), idx > 0), z3.Store(rd, k, idx - 1), rd))
    def res(self, C):
        b = K(); r, k = self.r(C), C.az("blk_id"); h = z3.Select(view(C, "$has", r, True), b); R = C.ret; P = ("C06", "C07")
        return [("lists exactly the blocks from the cut on", fa(b, mhas(R, b) == z3.And(h, b >= k), [[mhas(R, b)], [h]]), P),
                ("with their pages", fa(b, z3.Implies(mhas(R, b), z3.Select(R.l[1], b) == z3.Select(view(C, "$page", r, True), b)), [mhas(R, b)]), P)]
    class Loop:
        def others(self, C, E, t):
            d = z3.FreshConst(I, "d"); m, m0 = C.f("Data", "blocks", d), E.f("Data", "blocks", d)
            return fa(d, z3.Implies(d != t, z3.And([x == y for x, y in zip(m.l, m0.l)])), list(m.l))
        def inv(self, L):
            E = Ctx(L.ex, L.entry, L.entry, {}); C = Ctx(L.ex, L.entry, L.st, {}); t = z3.Int("this"); b = K()
            m0, m = E.f("Data", "blocks", t), C.f("Data", "blocks", t); k, idx = L.z("blk_id"), L.z("blk_byte_index"); vis = z3.Select(L.it().visited, b)
            gone = TruncateBlocks.gone(b, k, idx); info = z3.Select(m0.l[1], b); R = L.v("res"); i = z3.FreshConst(I, "i")
            pg, rd = "page_index_number", "readable_offset"
            return [("visited", fa(b, z3.Implies(vis, mhas(m0, b)), [vis])),
                    ("other files", self.others(C, E, t)),
                    ("blocks left", fa(b, mhas(m, b) == z3.And(mhas(m0, b), z3.Not(z3.And(vis, gone))), [[mhas(m, b)], [vis], [mhas(m0, b)]])),
                    ("records stay where they were", fa(b, z3.Select(m.l[1], b) == info, [z3.Select(m.l[1], b)])),
                    ("records left exist", fa(b, z3.Implies(mhas(m, b), alive(C, "BlockInfo", info)), [mhas(m, b)])),
                    ("pages do not change", fa(i, C.f("BlockInfo", pg, i).z == E.f("BlockInfo", pg, i).z, [C.f("BlockInfo", pg, i).z])),
                    ("only the cut block's record changes", fa(i, C.f("BlockInfo", rd, i).l[1] == z3.If(z3.And(z3.Select(L.it().visited, k), idx > 0, i == z3.Select(m0.l[1], k)), idx - 1, E.f("BlockInfo", rd, i).l[1]), [C.f("BlockInfo", rd, i).l[1]])),
                    ("records of other files are not touched", fa(i, z3.Implies(of(E, i) != t, alive(C, "BlockInfo", i) == alive(E, "BlockInfo", i)), [alive(C, "BlockInfo", i)])),
                    ("listed so far", fa(b, mhas(R, b) == z3.And(vis, b >= k), [[mhas(R, b)], [vis]])),
                    ("listed pages", fa(b, z3.Implies(mhas(R, b), z3.Select(R.l[1], b) == z3.Select(view(E, "$page", t), b)), [mhas(R, b)]))]
    loops = {0: Loop()}

def metaval(v, f):
    """the leaves of a field of a Metadata passed by value"""
    i = 0
    for g, t in STRUCTS["Metadata"]:
        n = len(leaves(t))
        if g == f: return v.l[i:i + n]
        i += n
def never_named(v, s):
    """a written-out list of names without s"""
    n = z3.simplify(v.l[0])
    return z3.is_int_value(n) and all(is_lit(x) and not x.eq(lit(s)) for x in (z3.simplify(z3.Select(v.l[1], i)) for i in range(n.as_long())))
FIELDS = (("size", "size"), ("atime", "atim"), ("ctime", "ctim"), ("mtime", "mtim"), ("nlinks", "nlinks"))
class UpdateMeta(Contract):
    """each named value is copied from the new metadata, everything else stays"""
    name = "Item::update_metadata"; units = ("item", "metadata"); props = ("C03", "C07", "C08", "C09", "C21");
    modifies = tuple("Metadata." + f for _, f in FIELDS)
    def mod_cells(self, C): return tuple("Metadata." + f for s, f in FIELDS if not never_named(C.a("values_to_update"), s))
    def this(self, C): return LObj("Item", z3.Int("this"))
    def args(self, C, case):
        n = z3.Int("names_len"); C.st.assume(n >= 0); C.st.assume(n < 2 ** 31)
        return {"new_meta": fresh(("struct", "Metadata"), "new_meta"), "values_to_update": Val(("vec", STR), [n, z3.Const("names", z3.ArraySort(I, Str))])}
    def pre(self, C): return [("the item has metadata", C.f("Item", "metadata", refof(C.this)).z > 0)]
    def named(self, C, s, n=None):
        v = C.a("values_to_update"); q = z3.FreshConst(I, "q"); n0 = z3.simplify(v.l[0])
        if z3.is_int_value(n0): return z3.Or([z3.BoolVal(False)] + [z3.simplify(z3.Select(v.l[1], i)) == lit(s) for i in range(n0.as_long())])
        return z3.Exists([q], z3.And(0 <= q, q < (v.l[0] if n is None else n), z3.Select(v.l[1], q) == lit(s)))
    def post(self, C):
        m = C.f("Item", "metadata", refof(C.this)).z; out = []; i = z3.FreshConst(I, "i")
        for s, f in FIELDS:
            v, v0 = (C.f("Metadata", f, x, old=o) for x, o in ((m, False), (m, True)))
            out.append(("%s is the new one exactly if named" % s, z3.And([x == z3.If(self.named(C, s), z, y) for x, y, z in zip(v.l, v0.l, metaval(C.a("new_meta"), f))])))
            c, c0 = C.f("Metadata", f, i), C.f("Metadata", f, i, old=True)
            out.append(("%s of other files stays" % s, fa(i, z3.Implies(i != m, z3.And([x == y for x, y in zip(c.l, c0.l)])), [c.l[0]])))
        return out
    class Loop:
        def inv(self, L):
            E = Ctx(L.ex, L.entry, L.entry, {}); C = Ctx(L.ex, L.entry, L.st, {}); m = C.f("Item", "metadata", z3.Int("this")).z; i = z3.FreshConst(I, "i"); out = []
            it = L.it(); V = L.v("values_to_update")
            out.append(("position", z3.And(0 <= it.idx, it.idx <= V.l[0])))
            for s, f in FIELDS:
                q = z3.FreshConst(I, "q"); hit = z3.Exists([q], z3.And(0 <= q, q < it.idx, z3.Select(V.l[1], q) == lit(s)))
                v, v0, w = C.f("Metadata", f, m), E.f("Metadata", f, m), metaval(L.v("new_meta"), f)
                out.append((s, z3.And([x == z3.If(hit, z, y) for x, y, z in zip(v.l, v0.l, w)])))
                c, c0 = C.f("Metadata", f, i), E.f("Metadata", f, i)
                out.append((s + " elsewhere", fa(i, z3.Implies(i != m, z3.And([x == y for x, y in zip(c.l, c0.l)])), [c.l[0]])))
            return out
    loops = {0: Loop()}

def contracts(): return [DataCtor(), Dtor(), HasBlock(), GetPage(), CountBlocks(), ReadOff(), MaxOffsets(), SetPage(), RemoveBlock(), RemoveAll(), TruncateBlocks(), UpdateMeta()]
