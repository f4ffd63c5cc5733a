"""The cache: which files have contents in memory, under which names (libs/libpcache/src/cache.cpp).

For callers a file `c` (an inode number as text) has contents (`chas`), metadata (`cmeta`), a synced flag, and the
blocks of the engine's view (e.*).  `cache_inv` couples the items with the engine: every block of an item is cached in
the page the item says, with the same last readable byte, and files without an item have no cached block."""
import z3
from sym import *
from verify import Contract, Ctx
from contracts.faults import int_arg
from contracts.ops import sarg, S, CACHE_CELLS
from contracts.leaf import fa, K, alive, I2B, I2I
from contracts import leaf, page as pg, engine as en
from contracts.engine import ev, ev_set, cached, BS, one_key, sym_map, eq
import lib
S2S, I2S = z3.ArraySort(Str, Str), z3.ArraySort(I, Str)
GHOST = {"Item.$cid": I2S, "Data.$cid": I2S, "Metadata.$cid": I2S}
ITEMS = ("Cache.contents", "Cache.item_locks", "Item.data", "Item.metadata", "Item.data_synced", "Item.$alive", "Data.$alive", "Metadata.$alive")
META = ("Metadata.size", "Metadata.nlinks", "Metadata.atim", "Metadata.ctim", "Metadata.mtim")
BLOCKS = en.REP + en.PAGE + tuple(en.VIEW) + tuple(leaf.VIEW) + leaf.REP
MF = ("size", "nlinks", "atim", "ctim", "mtim")
def kc(n="c"): return z3.FreshConst(Str, n)
def CF(C, f, old=False): return C.f("Cache", f, old=old)
def chas(C, c, old=False): return mhas(CF(C, "contents", old), c)
def citem(C, c, old=False): return z3.Select(CF(C, "contents", old).l[1], c)
def cdata(C, c, old=False): return C.f("Item", "data", citem(C, c, old), old=old).z
def cmeta(C, c, old=False): return C.f("Item", "metadata", citem(C, c, old), old=old).z
def mf(C, f, c, old=False): return C.f("Metadata", f, cmeta(C, c, old), old=old).l
def synced(C, c, old=False): return C.f("Item", "data_synced", citem(C, c, old), old=old).z
def names(C, old=False): return CF(C, "file_inode_mapping", old)
def file(c): return z3.And(c != lit("none"), c != lit(""))
def cache_inv(C):
    c, b = kc(), K(); d = cdata(C, c); it = citem(C, c); m = cmeta(C, c); h = z3.Select(leaf.view(C, "$has", d), b); G = lambda n: C.g_(n, I2S)
    return [("items", fa(c, z3.Implies(chas(C, c), z3.And(file(c), it > 0, d > 0, m > 0, alive(C, "Item", it), alive(C, "Data", d), alive(C, "Metadata", m), z3.Select(G("Item.$cid"), it) == c, z3.Select(G("Data.$cid"), d) == c, z3.Select(G("Metadata.$cid"), m) == c,
                mhas(CF(C, "item_locks"), c))), [[chas(C, c)], [it]])),
            ("locks", fa(c, z3.Implies(mhas(CF(C, "item_locks"), c), z3.Select(CF(C, "item_locks").l[1], c) > 0), [mhas(CF(C, "item_locks"), c)])),
            ("links", fa(c, z3.Implies(chas(C, c), z3.And(mf(C, "nlinks", c)[0] >= 0, mf(C, "nlinks", c)[0] < 2 ** 31)), [it])),
            ("blocks of an item are in the cache", fa([c, b], z3.Implies(chas(C, c), z3.And(h == cached(C, c, b), z3.Implies(h, z3.And(z3.Select(leaf.view(C, "$page", d), b) == ev(C, "page", c, b), z3.Select(leaf.view(C, "$rd", d), b) == ev(C, "rd", c, b))))), [[h], [ev(C, "page", c, b)]])),
            ("blocks have numbers", fa([c, b], z3.Implies(cached(C, c, b), z3.And(0 <= b, b < 2 ** 31 - 1, 0 <= ev(C, "rd", c, b), ev(C, "rd", c, b) < BS)), [ev(C, "page", c, b)])),
            ("files without an item have no blocks", fa([c, b], z3.Implies(z3.Not(chas(C, c)), z3.Not(cached(C, c, b))), [ev(C, "page", c, b)]))]
def other_files(C, o, meta=True, blocks=True, what=("C01",)):
    """everything about other files is as before"""
    c, b = kc(), K(); ne = c != o; h = chas(C, c); same = [h == chas(C, c, True)]
    sm = z3.Implies(h, z3.And([synced(C, c) == synced(C, c, True)] + [eq(mf(C, f, c), mf(C, f, c, True)) for f in MF]))
    out = [("other files stay in the cache or out of it", fa(c, z3.Implies(ne, z3.And(same)), [h]), what)]
    if meta: out.append(("metadata of other files stay", fa(c, z3.Implies(ne, sm), [citem(C, c)]), what))
    return out
def meta_same(C, o): return z3.And([eq(mf(C, f, o), mf(C, f, o, True)) for f in MF])

class CacheM(Contract):
    units = ("cache", "item", "metadata", "data", "block_info"); props = ("C01", "C18", "C21"); modifies = (); consts = {"APPLY_LRU_EVICTION": 0}; min_rank = 3; ow = "cid"
    def this(self, C): return LObj("Cache", None)
    def inside(self, C): return hasattr(C, "case") or C.ex.fname.startswith("Cache::")
    def body(self, C): return hasattr(C, "case")
    def o(self, C): return C.az(self.ow)
    def mod_cells(self, C): return tuple(self.modifies) + (tuple(GHOST) + tuple(en.GHOST) if self.inside(C) and self.modifies else ())
    def pre(self, C):
        for c, s in list(GHOST.items()) + list(leaf.VIEW.items()) + list(en.VIEW.items()) + list(en.GHOST.items()): C.g_(c, s)
        return (cache_inv(C) if self.inside(C) else []) + self.needs(C)
    def needs(self, C): return []
    def post(self, C): return (cache_inv(C) if self.inside(C) and self.modifies else []) + self.res(C)
    def res(self, C): return []
    def frame(self, D, k, w, v): return None
    def use_at_call(self, ex, st, fn, this, args): return not (self.inline_at_call or self.small and ex.fname.startswith("Cache::"))
    small = False

class OriginalInode(CacheM):
    """the inode a name was last mapped to"""
    name = "Cache::get_original_inode"; props = ("C08", "C04", "C18", "C21")
    def args(self, C, case): return {"path": sarg("path")}
    def res(self, C): return [("the file the name is known for", C.ret.z == z3.If(mhas(names(C), C.az("path")), z3.Select(names(C).l[1], C.az("path")), lit("")))]
class InsertMapping(CacheM):
    name = "Cache::insert_inode_mapping"; props = ("C08", "C09", "C04", "C18", "C21"); modifies = ("Cache.file_inode_mapping", "Metadata.nlinks"); ow = "inode"
    def args(self, C, case): return {"path": sarg("path"), "inode": sarg("inode"), "increase": Val(BOOL, [z3.Bool("arg:increase")])}
    def needs(self, C): return [("links can be counted", z3.Implies(chas(C, self.o(C)), mf(C, "nlinks", self.o(C))[0] < 2 ** 31 - 1))]
    def res(self, C):
        n, n0 = names(C), names(C, True); p, o = C.az("path"), self.o(C); P = ("C08", "C09")
        return [("the name is recorded", z3.And(n.l[0] == z3.Store(n0.l[0], p, True), n.l[1] == z3.Store(n0.l[1], p, o)), P),
                ("the file has one more link if asked for", z3.Implies(chas(C, o), mf(C, "nlinks", o)[0] == mf(C, "nlinks", o, True)[0] + z3.If(C.az("increase"), 1, 0)), P)] + other_files(C, o, what=P)
class HasContent(CacheM):
    name = "Cache::has_content_cached"; small = True; min_rank = None
    def args(self, C, case): return {"cid": sarg("cid")}
    def res(self, C): return [("says whether the file has contents in the cache", C.ret.z == chas(C, self.o(C)))]
class ContentPtr(CacheM):
    name = "Cache::_get_content_ptr"; small = True; min_rank = None
    def args(self, C, case): return {"cid": sarg("cid")}
    def res(self, C): return [("the item of the file, if it has one", C.ret.z == z3.If(chas(C, self.o(C)), citem(C, self.o(C)), 0))]
class IsBlockCached(CacheM):
    name = "Cache::is_block_cached"; props = ("C01", "C05", "C18", "C21")
    def args(self, C, case): return {"cid": sarg("cid"), "blk_id": int_arg(C.ex, C.st, INT, "blk_id")}
    def res(self, C): return [("says whether the block is in the cache", C.ret.z == cached(C, self.o(C), C.az("blk_id")), ("C01", "C05"))]
class GetMeta(CacheM):
    name = "Cache::get_content_metadata"; small = True; min_rank = None; props = ("C03", "C07", "C08", "C09", "C21")
    def args(self, C, case): return {"cid": sarg("cid")}
    def res(self, C):
        o = self.o(C); return [("the metadata of the file, if it has contents", C.ret.z == z3.If(chas(C, o), cmeta(C, o), 0)), ("they exist", z3.Implies(chas(C, o), z3.And(cmeta(C, o) > 0, alive(C, "Metadata", cmeta(C, o)))))]
class UpdateMeta(CacheM):
    """the named values are replaced"""
    name = "Cache::update_content_metadata"; small = True; min_rank = None; props = ("C03", "C07", "C08", "C09", "C21"); modifies = META
    def cases(self): return ["size", "atime", "atime,mtime", "ctime,mtime", "nlinks", "size,ctime,mtime", "atime,ctime,mtime", "size,atime,ctime,mtime", "size,atime,ctime,mtime,nlinks", "any"]
    def args(self, C, case):
        t = ("vec", STR); v = empty(t); w = case.split(",")
        if case == "any": return {"cid": sarg("cid"), "new_meta": fresh(("struct", "Metadata"), "new_meta"), "values_to_update": Val(t, [z3.Int("names_len"), z3.Const("names", z3.ArraySort(I, Str))])}
        a = v.l[1]
        for i, s in enumerate(w): a = z3.Store(a, i, lit(s))
        return {"cid": sarg("cid"), "new_meta": fresh(("struct", "Metadata"), "new_meta"), "values_to_update": Val(t, [z3.IntVal(len(w)), a])}
    def named(self, C, s):
        v = C.a("values_to_update"); n = z3.simplify(v.l[0])
        if not z3.is_int_value(n): return z3.Or([z3.And(i < n, z3.simplify(z3.Select(v.l[1], i)) == lit(s)) for i in range(5)])
        return z3.Or([z3.simplify(z3.Select(v.l[1], i)) == lit(s) for i in range(n.as_long())])
    def mod_cells(self, C): return tuple("Metadata." + f for n, f in leaf.FIELDS if not leaf.never_named(C.a("values_to_update"), n)) + (tuple(GHOST) if self.inside(C) else ())
    def new(self, C, f): return leaf.metaval(C.a("new_meta"), f)
    def needs(self, C):
        n = C.a("values_to_update").l[0]; few = [] if z3.is_int_value(z3.simplify(n)) else [("at most five names", z3.And(n >= 0, n <= 5))]
        return few + [("links can be counted", z3.Implies(self.named(C, "nlinks"), z3.And(self.new(C, "nlinks")[0] >= 0, self.new(C, "nlinks")[0] < 2 ** 31)))]
    def res(self, C):
        o = self.o(C); out = [("says whether the file has contents", C.ret.z == chas(C, o))]
        for s, f in leaf.FIELDS:
            out.append(("%s is the new one exactly if named" % s, z3.Implies(chas(C, o), z3.And([x == z3.If(self.named(C, s), n, y) for x, y, n in zip(mf(C, f, o), mf(C, f, o, True), self.new(C, f))])), ("C03", "C07", "C08", "C09")))
        return out + other_files(C, o)

# ------------------------------------------------------------------ blocks
def outside(C):
    b = K("buf"); M, M0 = pg.mem(C), pg.mem(C, True); return ("bytes outside the cache stay", fa(b, z3.Implies(user(C, b), z3.Select(M, b) == z3.Select(M0, b)), [z3.Select(M, b)]))
def user(C, b): return z3.Not(alive(C, "Page", z3.Select(C.g_("Page.$buf", I2I), b)))
class PutBlocks(CacheM):
    """stores the bytes over the cached block, or over zeros; the file has contents afterwards"""
    name = "Cache::put_data_blocks"; props = ("C01", "C02", "C03", "C05", "C06", "C18", "C21"); modifies = ITEMS + META + BLOCKS
    def cases(self): return ["one", "empty"]
    def args(self, C, case):
        return {"cid": sarg("cid"), "blocks": sym_map(("map", INT, ("tup", BUF, ULONG, INT, INT), True), case, C), "operation_type": int_arg(C.ex, C.st, INT, "operation_type")}
    def one(self, C):
        k = one_key(C, C.a("blocks")); return k[0] if k else None
    def el(self, C): return msel(C.a("blocks"), self.one(C)).l
    def needs(self, C):
        if self.one(C) is None: return [("the owner is a file", file(self.o(C)))]
        bid, bo, n, off, to = self.el(C)
        return [("the owner is a file", file(self.o(C))), ("the block has a number", z3.And(0 <= self.one(C), self.one(C) < 2 ** 31 - 1)), ("the bytes are in the block", z3.And(n >= 0, off >= 0, off + n <= BS, to >= 0, to < BS)), ("the data are readable", z3.Or(n == 0, z3.And(bid > 0, bo >= 0, bo + n <= z3.Select(C.ex.buflen(C.st), bid))))] + pg.user_buf(C, bid)
    def ghost_update(self, C):
        if not self.body(C): return
        o = self.o(C)
        for g, r in (("Item.$cid", citem(C, o)), ("Data.$cid", cdata(C, o)), ("Metadata.$cid", cmeta(C, o))): C.st.heap[g] = [z3.Store(C.g_(g, I2S), r, o)]
    def mod_cells(self, C): return super().mod_cells(C) + tuple(GHOST)
    def res(self, C):
        if self.one(C) is None: return self.none(C)
        b = self.one(C); bid, bo, n, off, to = self.el(C); o = self.o(C); q, k = K("q"), K("k"); R = C.ret; ok = z3.Select(R.l[1], b); was = cached(C, o, b, True); P1, P2 = ("C01", "C05"), ("C02",); c = kc(); by = z3.Select(ev(C, "byte", o, b), k)
        new = z3.Not(chas(C, o, True)); rd0 = z3.If(was, ev(C, "rd", o, b, True), 0); fd = lambda n: (ev(C, n, c, q), ev(C, n, c, q, True)); here = z3.And(c == o, q == b); dd, d0 = fd("dirty")
        return [("answers for the block", fa(q, mhas(R, q) == (q == b), [mhas(R, q)])), ("a cached block is never refused", z3.Implies(was, ok), P1), ("stored or refused", ok == cached(C, o, b), P1),
                ("the bytes are those written, over those cached, over zeros", fa(k, z3.Implies(ok, by == z3.If(z3.And(k >= off, k < off + n), z3.Select(z3.Select(pg.mem(C, True), bid), bo + k - off), z3.If(was, z3.Select(ev(C, "byte", o, b, True), k), 0))), [by]), P1),
                ("readable at least as far as before", z3.Implies(ok, ev(C, "rd", o, b) == z3.If(to > rd0, to, rd0)), P1), ("the block will be written out", z3.Implies(ok, z3.And(ev(C, "dirty", o, b), z3.Not(ev(C, "sync", o, b)), z3.Not(synced(C, o)))), P2),
                ("dirty blocks stay dirty", fa([c, q], z3.Implies(z3.And(d0, cached(C, c, q, True)), dd), [dd]), P2),
                ("other blocks stay", fa([c, q], z3.Implies(z3.Not(here), z3.And([x == y for n_ in ("page", "rd", "byte", "sync") for x, y in [fd(n_)]])), [[fd("page")[0]], [fd("rd")[0]], [fd("byte")[0]], [fd("sync")[0]]]), P1),
                ("the file has contents", chas(C, o), P1), ("refused only when every page is in use", z3.Implies(z3.Not(ok), C.g_("e.used", I) == en.N(C)), ("C03", "C05", "C06")), ("pages in use stay in use", z3.And(C.g_("e.used", I) >= C.g_("e.used", I, old=True), C.g_("e.used", I) <= en.N(C)), ("C03", "C06")),
                ("new contents start with size 0 and one link", z3.Implies(new, z3.And(mf(C, "size", o)[0] == 0, mf(C, "nlinks", o)[0] == 1)), ("C07", "C08")),
                ("metadata stay", z3.Implies(z3.Not(new), meta_same(C, o)), P1), outside(C)] + other_files(C, o)
    def none(self, C): return self.none_(C) + [("as many pages in use", C.g_("e.used", I) == C.g_("e.used", I, old=True), ("C03", "C06"))]
    def none_(self, C):
        o = self.o(C); c, q = kc(), K("q"); P1 = ("C01", "C05"); new = z3.Not(chas(C, o, True)); fd = lambda n: (ev(C, n, c, q), ev(C, n, c, q, True)); dd, d0 = fd("dirty")
        return [("answers for no block", fa(q, z3.Not(mhas(C.ret, q)), [mhas(C.ret, q)])), ("blocks stay", fa([c, q], z3.And([x == y for n_ in ("page", "rd", "byte", "sync") for x, y in [fd(n_)]]), [[fd("page")[0]], [fd("rd")[0]], [fd("byte")[0]], [fd("sync")[0]]]), P1),
                ("dirty blocks stay dirty", fa([c, q], z3.Implies(z3.And(d0, cached(C, c, q, True)), dd), [dd]), ("C02",)),
                ("the file has contents", chas(C, o), P1), ("new contents start with size 0 and one link", z3.Implies(new, z3.And(mf(C, "size", o)[0] == 0, mf(C, "nlinks", o)[0] == 1)), ("C07", "C08")),
                ("metadata stay", z3.Implies(z3.Not(new), z3.And(meta_same(C, o), synced(C, o) == synced(C, o, True))), P1), outside(C)] + other_files(C, o)
class GetBlocks(CacheM):
    """copies a cached block to the caller"""
    name = "Cache::get_data_blocks"; props = ("C01", "C05", "C18", "C21"); modifies = ("mem",) + leaf.REP
    def cases(self): return ["one"]
    def args(self, C, case): return {"cid": sarg("cid"), "blocks": sym_map(("map", INT, BUF, True), case, C)}
    def one(self, C):
        k = one_key(C, C.a("blocks"))
        if not k: raise Unsupported("get_data_blocks without a block")
        return k[0]
    def needs(self, C):
        bid, bo = msel(C.a("blocks"), self.one(C)).l
        return [("the owner is a file", file(self.o(C))), ("the block fits the caller's buffer", z3.And(bid > 0, bo >= 0, bo + BS <= z3.Select(C.ex.buflen(C.st), bid)))] + pg.user_buf(C, bid)
    def res(self, C):
        b = self.one(C); bid, bo = msel(C.a("blocks"), b).l; o = self.o(C); q, i, x = K("q"), K("a"), K("buf"); R = C.ret; hit = cached(C, o, b); M, M0 = pg.mem(C), pg.mem(C, True); P = ("C01", "C05")
        return [("answers exactly for a cached block", fa(q, mhas(R, q) == z3.And(q == b, hit), [mhas(R, q)]), P), ("the block was there", z3.Implies(hit, z3.And(z3.Select(R.l[1], b), z3.Select(R.l[3], b) == ev(C, "rd", o, b))), P),
                ("the caller gets the block's bytes", fa(i, z3.Select(z3.Select(M, bid), i) == z3.If(z3.And(hit, i >= bo, i < bo + BS), z3.Select(ev(C, "byte", o, b), i - bo), z3.Select(z3.Select(M0, bid), i)), [z3.Select(z3.Select(M, bid), i)]), P),
                ("nothing else is written", fa(x, z3.Implies(x != bid, z3.Select(M, x) == z3.Select(M0, x)), [z3.Select(M, x)]))]
class TruncateItem(CacheM):
    """no block after the new end stays; the block it lies in reads as zeros from there on"""
    name = "Cache::truncate_item"; ow = "owner"; props = ("C01", "C05", "C06", "C07", "C18", "C21"); modifies = ("Item.data_synced",) + BLOCKS
    def args(self, C, case): return {"owner": sarg("owner"), "new_size": int_arg(C.ex, C.st, LONG, "new_size")}
    def needs(self, C): return [("the new size is one", z3.And(C.az("new_size") >= 0, C.az("new_size") < 2 ** 31 * BS))]
    def res(self, C):
        o = self.o(C); sz = C.az("new_size"); fr, idx = sz / BS, sz % BS; c, b, k = kc(), K(), K("k"); P = ("C01", "C06", "C07"); gone = z3.And(c == o, z3.Or(b > fr, z3.And(b == fr, idx == 0))); cut = z3.And(c == o, b == fr, idx > 0, cached(C, o, fr, True))
        pa, p0 = ev(C, "page", c, b), ev(C, "page", c, b, True); rd, r0 = ev(C, "rd", c, b), ev(C, "rd", c, b, True); by, b0 = (z3.Select(ev(C, "byte", c, b, x), k) for x in (False, True)); sy, s0 = ev(C, "sync", c, b), ev(C, "sync", c, b, True)
        return [("says whether the file has contents", C.ret.z == chas(C, o), P), ("blocks after the end are dropped", fa([c, b], z3.And((pa >= 0) == z3.And(p0 >= 0, z3.Not(gone)), z3.Implies(pa >= 0, pa == p0)), [pa]), P), ("the last block ends with the file", fa([c, b], rd == z3.If(cut, idx - 1, r0), [rd]), P),
                ("and is followed by zeros", fa([c, b, k], z3.Implies(z3.And(0 <= k, k < BS), by == z3.If(z3.And(cut, k >= idx), 0, b0)), [by]), P), ("a cut file is not synced", z3.Implies(z3.And(chas(C, o), sz > 0), z3.Not(synced(C, o))), ("C15",)),
                ("what is synced stays", fa([c, b], z3.Implies(cached(C, c, b), sy == s0), [sy]), ("C15",)), other_blocks(C, o, P),
                ("changed blocks stay changed", fa(b, z3.Implies(z3.And(cached(C, o, b), ev(C, "dirty", o, b, True)), ev(C, "dirty", o, b)), [ev(C, "dirty", o, b)]), ("C02",)),
                ("never more pages in use", C.g_("e.used", I) <= C.g_("e.used", I, old=True), ("C06",)), outside(C)] + other_files(C, o)
class SyncOwner(CacheM):
    """writes the file's changed blocks to it and gives it its size, and its times if asked to"""
    name = "Cache::sync_owner"; ow = "owner"; props = ("C02", "C03", "C16", "C18", "C21"); shares = 2
    modifies = ("Item.data_synced", "fs.data", "fs.size", "e.dirty", "e.sync", en.ENG + "owner_ordered_pages_mapping", "Page.is_dirty")
    opts = {"open_ok": True}
    def args(self, C, case): return {"owner": sarg("owner"), "only_sync_data": Val(BOOL, [z3.Bool("arg:only_sync_data")]), "orig_path": sarg("orig_path")}
    def size(self, C, old=False): return mf(C, "size", self.o(C), old)[0]
    def needs(self, C):
        o = self.o(C); b = K(); d = lambda q: z3.And(cached(C, o, q), ev(C, "dirty", o, q))
        return [("the file is there and its size is one", z3.Implies(chas(C, o), z3.And(en.file_of(C, C.az("orig_path")) > 0, self.size(C) >= 0, self.size(C) < 2 ** 62))),
                ("only the last of a run of blocks may be short", fa(b, z3.Implies(z3.And(d(b), d(b + 1)), ev(C, "rd", o, b) == BS - 1), [ev(C, "page", o, b)]))]
    def res(self, C): return sync_res(C, self.o(C), C.az("orig_path"), C.ret.z, self.size(C, True)) + [("the file is synced", z3.Implies(chas(C, self.o(C)), synced(C, self.o(C))), ("C02", "C15"))] + other_files(C, self.o(C)) + [("metadata stay", meta_same(C, self.o(C)))]
def written(C, o, x, old=True): return z3.And(cached(C, o, x / BS, old), ev(C, "dirty", o, x / BS, old), x % BS <= ev(C, "rd", o, x / BS, old))
def sync_res(C, o, path, ret, sz):
    ino = en.file_of(C, path); x, i, b = K("x"), K("ino"), K(); c = kc(); P = ("C02", "C16"); h = chas(C, o, True); D, S_, S0 = lib.F_DATA(C.ex, C.st), lib.F_SIZE(C.ex, C.st), lib.F_SIZE(C.ex, C.st0); d = z3.Select(z3.Select(D, ino), x); dd, d0 = ev(C, "dirty", c, b), ev(C, "dirty", c, b, True)
    return [("-1 without contents, else 0", ret == z3.If(h, 0, -1), P),
            ("every changed byte is in the file", fa(x, z3.Implies(z3.And(h, x >= 0), d == z3.If(x < sz, z3.If(written(C, o, x), z3.Select(ev(C, "byte", o, x / BS, True), x % BS), z3.Select(en.data_of(C, ino, True), x)), 0)), [d]), P),
            ("the file has its size", z3.Implies(h, z3.Select(S_, ino) == sz), P),
            ("other files are not touched", fa(i, z3.Implies(z3.Or(i != ino, z3.Not(h)), z3.And(z3.Select(D, i) == en.data_of(C, i, True), z3.Select(S_, i) == z3.Select(S0, i))), [[z3.Select(D, i)], [z3.Select(S_, i)]]), ("C02", "C03")),
            ("its blocks are clean, others as before", fa([c, b], z3.Implies(cached(C, c, b), dd == z3.And(d0, z3.Not(z3.And(h, c == o)))), [dd]), P),
            ("blocks written are synced", fa([c, b], z3.Implies(cached(C, c, b), ev(C, "sync", c, b) == z3.Or(ev(C, "sync", c, b, True), z3.And(h, c == o, d0))), [ev(C, "sync", c, b)]), ("C15",))]

# ------------------------------------------------------------------ names
def gone_file(C, c, P):
    b = K(); return ("no block of a dropped file stays", fa(b, z3.Implies(z3.Not(chas(C, c)), z3.Not(cached(C, c, b))), [ev(C, "page", c, b)]), P)
def other_blocks(C, o, P, when=None):
    c, b = kc(), K(); V = ("page", "rd", "byte", "sync", "dirty"); ne = c != o if when is None else z3.Or(c != o, when)
    return ("blocks of other files stay", fa([c, b], z3.Implies(ne, z3.And([ev(C, n, c, b) == ev(C, n, c, b, True) for n in V])), [[ev(C, n, c, b)] for n in V]), P)
class RemoveItem(CacheM):
    """forgets the name; forgets the file with its last link, or in any case when the cache is cleared"""
    name = "Cache::remove_cached_item"; ow = "owner"; props = ("C01", "C04", "C06", "C08", "C18", "C21"); modifies = ("Cache.file_inode_mapping",) + ITEMS + ("Metadata.nlinks",) + BLOCKS
    def args(self, C, case): return {"owner": sarg("owner"), "path": sarg("path"), "is_from_cache": Val(BOOL, [z3.Bool("arg:is_from_cache")])}
    def res(self, C):
        o = self.o(C); p = C.az("path"); n, n0 = names(C), names(C, True); h0 = chas(C, o, True); nl0 = mf(C, "nlinks", o, True)[0]; keep = z3.And(z3.Not(C.az("is_from_cache")), nl0 > 1); P = ("C04", "C06", "C08"); q = kc("name")
        return [("the name is forgotten, other names stay", z3.And(n.l[0] == z3.Store(n0.l[0], p, False), fa(q, z3.Implies(q != p, z3.Select(n.l[1], q) == z3.Select(n0.l[1], q)), [z3.Select(n.l[1], q)])), P),
                ("contents stay exactly while there are links", chas(C, o) == z3.And(h0, keep), P), ("says whether contents were dropped", C.ret.z == z3.And(h0, z3.Not(keep)), P),
                ("one link less", z3.Implies(z3.And(h0, keep), z3.And(mf(C, "nlinks", o)[0] == nl0 - 1, synced(C, o) == synced(C, o, True), *[eq(mf(C, f, o), mf(C, f, o, True)) for f in MF if f != "nlinks"])), P),
                gone_file(C, o, P), other_blocks(C, o, P, z3.And(h0, keep)), ("never more pages in use", C.g_("e.used", I) <= C.g_("e.used", I, old=True), ("C06",)), outside(C)] + other_files(C, o, what=P)
class RenameItem(CacheM):
    """the new name stands for the file; the file it stood for before has one link less"""
    name = "Cache::rename_item"; props = ("C01", "C04", "C06", "C08", "C18", "C21"); modifies = ("Cache.file_inode_mapping",) + ITEMS + ("Metadata.nlinks",) + BLOCKS
    def args(self, C, case): return {"old_cid": sarg("old_cid"), "new_cid": sarg("new_cid")}
    def res(self, C):
        a, b = C.az("old_cid"), C.az("new_cid"); n, n0 = names(C), names(C, True); ino = z3.Select(n0.l[1], a); o = z3.If(mhas(n0, b), z3.Select(n0.l[1], b), lit("")); P = ("C08",); known = mhas(n0, a); act = z3.And(known, o != ino); q = kc("name")
        h0 = chas(C, o, True); nl0 = mf(C, "nlinks", o, True)[0]; keep = nl0 > 1
        return [("names", z3.Implies(act, z3.And(n.l[0] == z3.Store(z3.Store(n0.l[0], a, False), b, True), z3.Select(n.l[1], b) == ino)), P), ("other names stay", fa(q, z3.Implies(z3.Or(q != b, z3.Not(act)), z3.Select(n.l[1], q) == z3.Select(n0.l[1], q)), [z3.Select(n.l[1], q)]), P),
                ("nothing to do", z3.Implies(z3.Not(act), n.l[0] == n0.l[0]), P), ("contents of the replaced file stay while it has links", chas(C, o) == z3.And(h0, z3.Or(keep, z3.Not(act))), P),
                ("one link less", z3.Implies(z3.And(chas(C, o)), z3.And(mf(C, "nlinks", o)[0] == nl0 - z3.If(act, 1, 0), synced(C, o) == synced(C, o, True), *[eq(mf(C, f, o), mf(C, f, o, True)) for f in MF if f != "nlinks"])), P),
                gone_file(C, o, P), other_blocks(C, o, P, z3.Or(z3.Not(act), z3.And(h0, keep))), ("never more pages in use", C.g_("e.used", I) <= C.g_("e.used", I, old=True), ("C06",)), outside(C)] + other_files(C, o, what=P)
class LockCheck(CacheM):
    """locks the item of a file that has contents"""
    name = "Cache::lockItemCheckExists"; props = ("C18", "C21")
    def args(self, C, case): return {"cid": sarg("cid")}
    def lk(self, C): m = CF(C, "item_locks"); return mhas(m, self.o(C)), z3.Select(m.l[1], self.o(C))
    def res(self, C): return [("says whether the file has contents", C.ret.z == chas(C, self.o(C))), ("its lock exists", z3.Implies(C.ret.z, z3.And(self.lk(C)[0], self.lk(C)[1] > 0)))]
    def apply(self, ex, st, fn, this, args, n):
        r = super().apply(ex, st, fn, this, args, n)
        if ex.fork(st, r.z):
            C = Ctx(ex, st, st, dict(zip([p.get("name") for p in fn.params], args))); lib.lock_acquire(ex, st, LObj("shared_mutex", self.lk(C)[1]), False, n); return Val(BOOL, [z3.BoolVal(True)])
        return Val(BOOL, [z3.BoolVal(False)])
    def lock_effect(self, D):
        extra = [k for k in D.st.locks if k not in D.locks0]; r = z3.simplify(D.ret.z)
        return len(extra) == (1 if z3.is_true(r) else 0) and (z3.is_true(r) or z3.is_false(r)) and all(k[0] == "item" for k in extra)
class Usage(CacheM):
    name = "Cache::get_cache_usage"; props = ("C03", "C05", "C06", "C18", "C21")
    def args(self, C, case): return {}
    def needs(self, C): return [("there are pages", en.N(C) > 0)]
    def res(self, C): return en.usage(C)
class FilesOf(CacheM):
    """the names of a file, each once"""
    name = "Cache::find_files_mapped_to_inode"; props = ("C15", "C18", "C21")
    def args(self, C, case): return {"inode": sarg("inode")}
    def pre(self, C): C.g_("c.$npos", z3.ArraySort(Str, I)); return super().pre(C)
    def mod_cells(self, C): return ("c.$npos",)
    def facts(self, C, R, want):
        pos = C.g_("c.$npos", z3.ArraySort(Str, I)); j = K("j"); q = kc("name"); e = z3.Select(R.l[1], j); d = z3.Select(pos, q)
        return [("length", R.l[0] >= 0), ("every entry is a name of the file, listed once", fa(j, z3.Implies(z3.And(0 <= j, j < R.l[0]), z3.And(want(e), z3.Select(pos, e) == j)), [e]), ("C15",)), ("every name of the file is listed", fa(q, z3.Implies(want(q), z3.And(0 <= d, d < R.l[0], z3.Select(R.l[1], d) == q)), [d]), ("C15",))]
    def res(self, C):
        n = names(C); return self.facts(C, C.ret, lambda q: z3.And(mhas(n, q), z3.Select(n.l[1], q) == C.az("inode")))
    class Loop:
        ghosts = ("c.$npos",)
        def ghost(self, L):
            C = Ctx(L.ex, L.entry, L.st, {}); pos = C.g_("c.$npos", z3.ArraySort(Str, I)); n, n0 = L.v("res").l[0], L.prev.v("res").l[0]; k = L.prev.it().key; L.st.heap["c.$npos"] = [z3.If(n > n0, z3.Store(pos, k, n - 1), pos)]
        def inv(self, L):
            C = Ctx(L.ex, L.entry, L.st, {}); n = names(C); vis = L.it().visited; q = kc("q")
            return [("visited", fa(q, z3.Implies(z3.Select(vis, q), mhas(n, q)), [z3.Select(vis, q)]))] + FilesOf().facts(C, L.v("res"), lambda q: z3.And(z3.Select(vis, q), z3.Select(n.l[1], q) == L.z("inode")))
    loops = {0: Loop()}

# ------------------------------------------------------------------ the whole cache
S2I = z3.ArraySort(Str, I); NPOS = "c.$npos"; CLEARS = "g.clears"
def cache_cells(C): return [k for k in C.st.heap if k.startswith(CACHE_CELLS)]
def exclusive(C): return z3.BoolVal(("cmd",) in C.st.locks and C.st.locks[("cmd",)][0] == "X")
class ClearAll(CacheM):
    """nothing stays in the cache: no name, no contents, no block; no file is written"""
    name = "Cache::clear_all_cache"; props = ("C04", "C06", "C12", "C18", "C21"); modifies = RemoveItem.modifies
    def args(self, C, case): return {}
    def pre(self, C): C.g_(CLEARS, I); C.g_(NPOS, S2I); return super().pre(C)
    def mod_cells(self, C): return cache_cells(C) + [CLEARS, NPOS] if not self.inside(C) else super().mod_cells(C) + (CLEARS, NPOS)
    def ghost_update(self, C): C.st.heap[CLEARS] = [C.g_(CLEARS, I, old=True) + 1]
    def post(self, C): return super().post(C) if self.inside(C) else self.res(C)
    def after(self, C): self.ghost_update(C)
    def event(self, C): return ("clear_all", [exclusive(C)])
    def res(self, C):
        c, q, b = kc(), kc("name"), K(); P = ("C04",); h = chas(C, c)
        return [("no file has contents", fa(c, z3.Not(h), [h]), P), ("no name is known", fa(q, z3.Not(mhas(names(C), q)), [mhas(names(C), q)]), P), ("no block is cached", fa([c, b], z3.Not(cached(C, c, b)), [ev(C, "page", c, b)]), P)] + ([outside(C)] if self.inside(C) else [])
    @staticmethod
    def put(L, vec):
        C = Ctx(L.ex, L.entry, L.st, {}); L.st.heap[NPOS] = [z3.Store(C.g_(NPOS, S2I), L.prev.it().key, L.v(vec).l[0] - 1)]
    @staticmethod
    def listed(C, v, q, lo): d = z3.Select(C.g_(NPOS, S2I), q); return z3.And(lo <= d, d < v.l[0], z3.Select(v.l[1], d) == q)
    class Collect:
        """the list has every key of the map, once"""
        ghosts = (NPOS,)
        def __init__(self, vec, cell): self.vec = vec; self.cell = cell
        def ghost(self, L): ClearAll.put(L, self.vec)
        def inv(self, L):
            C = Ctx(L.ex, L.entry, L.st, {}); v = L.v(self.vec); q, j = kc("q"), K("j"); vis = L.it().visited; m = CF(C, self.cell); e = z3.Select(v.l[1], j)
            return [("visited", fa(q, z3.Implies(z3.Select(vis, q), mhas(m, q)), [z3.Select(vis, q)])), ("length", v.l[0] >= 0), ("listed", fa(q, z3.Implies(z3.Select(vis, q), ClearAll.listed(C, v, q, 0)), [z3.Select(vis, q)])),
                    ("once", fa(j, z3.Implies(z3.And(0 <= j, j < v.l[0]), z3.And(z3.Select(vis, e), z3.Select(C.g_(NPOS, S2I), e) == j)), [e]))]
    class Names:
        def inv(self, L):
            E, C = Ctx(L.ex, L.entry, L.entry, {}), Ctx(L.ex, L.entry, L.st, {}); C.args = {}; v = L.v("items"); q = kc("q"); m = names(C); i = L.it().idx
            return cache_inv(C) + [("names left", fa(q, z3.Implies(mhas(m, q), ClearAll.listed(C, v, q, i)), [mhas(m, q)])), ("position", z3.And(0 <= i, i <= v.l[0])), outside(Ctx(L.ex, L.entry, L.st, {}))]
    class Contents:
        def inv(self, L):
            C = Ctx(L.ex, L.entry, L.st, {}); v = L.v("item_buckets"); c, j = kc(), K("j"); i = L.it().idx; e = z3.Select(v.l[1], j)
            return cache_inv(C) + [("contents left", fa(c, z3.Implies(chas(C, c), ClearAll.listed(C, v, c, i)), [chas(C, c)])), ("position", z3.And(0 <= i, i <= v.l[0])),
                    ("still to drop", fa(j, z3.Implies(z3.And(i <= j, j < v.l[0]), z3.And(chas(C, e), z3.Select(C.g_(NPOS, S2I), e) == j)), [e])), outside(C)]
    loops = {0: Collect("items", "file_inode_mapping"), 1: Names(), 2: Collect("item_buckets", "contents"), 3: Contents()}
DONE = "c.$done"; S2B = z3.ArraySort(Str, B)
class FullCheckpoint(CacheM):
    """every file with contents is written out"""
    name = "Cache::full_checkpoint"; props = ("C02", "C16", "C18", "C21"); modifies = SyncOwner.modifies; opts = {"open_ok": True}; shares = 2
    def args(self, C, case): return {}
    def pre(self, C):
        C.g_(DONE, S2B)
        return super().pre(C) + ([("ghost: nothing done yet", C.g_(DONE, S2B) == z3.K(Str, False))] if hasattr(C, "case") else [])
    def mod_cells(self, C): return super().mod_cells(C) + (DONE,)
    def event(self, C): return ("checkpoint", [exclusive(C)])
    @staticmethod
    def ino(C, c): return atoi_(c)
    def needs(self, C):
        q, c, b, i = kc("name"), kc(), K(), K("i"); ow = itoa(i); n = names(C); f = z3.Select(n.l[1], q); d = lambda x: z3.And(cached(C, ow, x), ev(C, "dirty", ow, x)); sz = mf(C, "size", c)[0]
        return [("a name leads to the file whose contents it names", fa(q, z3.Implies(z3.And(mhas(n, q), chas(C, f)), en.file_of(C, q) == self.ino(C, f)), [mhas(n, q)])),
                ("contents belong to one file", fa(c, z3.Implies(chas(C, c), z3.And(self.ino(C, c) > 0, itoa(self.ino(C, c)) == c, sz >= 0, sz < 2 ** 62)), [chas(C, c)])),
                ("only the last of a run of blocks may be short", fa([i, b], z3.Implies(z3.And(d(b), d(b + 1)), ev(C, "rd", ow, b) == BS - 1), [ev(C, "page", ow, b)]))]
    @staticmethod
    def rel(C, E, done):
        """files in `done` are written out, others are as before"""
        c, x, i, b = kc(), K("x"), K("i"), K(); me = FullCheckpoint; ino = me.ino(E, c); D, D0, S_, S0 = lib.F_DATA(C.ex, C.st), lib.F_DATA(C.ex, E.st), lib.F_SIZE(C.ex, C.st), lib.F_SIZE(C.ex, E.st); d = z3.Select(z3.Select(D, ino), x); sz = mf(E, "size", c)[0]; P = ("C02", "C16")
        mine = z3.And(chas(E, c), done(c)); ow = itoa(i)
        return [("every changed byte is in its file", fa([c, x], z3.Implies(z3.And(mine, x >= 0), d == z3.If(x < sz, z3.If(written(E, c, x, False), z3.Select(ev(E, "byte", c, x / BS), x % BS), z3.Select(z3.Select(D0, ino), x)), 0)), [d]), P),
                ("every file has its size", fa(c, z3.Implies(mine, z3.Select(S_, ino) == sz), [ino]), P),
                ("other files are not touched", fa(i, z3.Implies(z3.Not(z3.And(chas(E, ow), done(ow), me.ino(E, ow) == i)), z3.And(z3.Select(D, i) == z3.Select(D0, i), z3.Select(S_, i) == z3.Select(S0, i))), [[z3.Select(D, i)], [z3.Select(S_, i)]]), P),
                ("blocks written are clean, others as before", fa([c, b], z3.Implies(cached(C, c, b), ev(C, "dirty", c, b) == z3.And(ev(E, "dirty", c, b), z3.Not(mine))), [ev(C, "dirty", c, b)]), P),
                ("files written are synced", fa(c, z3.Implies(chas(E, c), synced(C, c) == z3.Or(done(c), synced(E, c))), [citem(C, c)]), P)]
    def res(self, C):
        E = Ctx(C.ex, C.st0, C.st0, {}); return self.rel(C, E, lambda c: z3.Select(C.g_(DONE, S2B), c)) + [("files with a name are done", self.named(C), ("C02", "C16"))]
    def named(self, C): q = kc("name"); n = names(C); return fa(q, z3.Implies(mhas(n, q), z3.Select(C.g_(DONE, S2B), z3.Select(n.l[1], q))), [mhas(n, q)])
    class Loop:
        ghosts = (DONE,)
        def ghost(self, L):
            C = Ctx(L.ex, L.entry, L.st, {}); f = z3.Select(names(C).l[1], L.prev.it().key); L.st.heap[DONE] = [z3.Store(C.g_(DONE, S2B), f, True)]
        def inv(self, L):
            E, C = Ctx(L.ex, L.ex.entry_state, L.ex.entry_state, {}), Ctx(L.ex, L.entry, L.st, {}); vis = L.it().visited; q = kc("q"); n = names(C); done = C.g_(DONE, S2B)
            return cache_inv(C) + [("visited", fa(q, z3.Implies(z3.Select(vis, q), z3.And(mhas(n, q), z3.Select(done, z3.Select(n.l[1], q)))), [z3.Select(vis, q)]))] + FullCheckpoint.rel(C, E, lambda c: z3.Select(done, c))
    loops = {0: Loop()}
class Report(CacheM):
    """every file with contents that are not synced, with the blocks that are not written out"""
    name = "Cache::report_unsynced_data"; props = ("C15", "C18", "C21")
    DP = ("c.$dpos", z3.ArraySort(Str, I2I))
    def args(self, C, case): return {}
    def pre(self, C): C.g_(NPOS, S2I); C.g_(*self.DP); C.g_("eng.$dpos", I2I); return super().pre(C)
    def mod_cells(self, C): return (NPOS, self.DP[0], "eng.$dpos")
    def facts(self, C, R, want):
        """R: names, zeros, and per file the lists of blocks"""
        pos, dp = C.g_(NPOS, S2I), C.g_(*self.DP); j, i, b = K("j"), K("i"), K(); c = kc(); e = z3.Select(R.l[1], j); d = z3.Select(pos, c); ln = z3.Select(R.l[3], j); blk = z3.Select(z3.Select(R.l[4], j), i); P = ("C15",); inr = z3.And(0 <= j, j < R.l[0]); todo = lambda c, b: z3.And(cached(C, c, b), z3.Not(ev(C, "sync", c, b))); db = z3.Select(z3.Select(dp, c), b)
        return [("length", R.l[0] >= 0), ("every entry is a file not synced, listed once", fa(j, z3.Implies(inr, z3.And(want(e), z3.Select(pos, e) == j, ln >= 0)), [e]), P), ("every file not synced is listed", fa(c, z3.Implies(want(c), z3.And(0 <= d, d < R.l[0], z3.Select(R.l[1], d) == c)), [d]), P),
                ("every block listed is not written out", fa([j, i], z3.Implies(z3.And(inr, 0 <= i, i < ln), z3.And(todo(e, blk), z3.Select(z3.Select(R.l[5], j), i) == 0, z3.Select(z3.Select(R.l[6], j), i) == ev(C, "rd", e, blk), z3.Select(z3.Select(dp, e), blk) == i)), [blk]), P),
                ("blocks listed have numbers", fa([j, i], z3.Implies(z3.And(inr, 0 <= i, i < ln), z3.And(0 <= blk, blk < 2 ** 31 - 1, 0 <= z3.Select(z3.Select(R.l[6], j), i), z3.Select(z3.Select(R.l[6], j), i) < BS)), [blk])),
                ("every block not written out is listed", fa([c, b], z3.Implies(z3.And(want(c), todo(c, b)), z3.And(0 <= db, db < z3.Select(R.l[3], d), z3.Select(z3.Select(R.l[4], d), db) == b)), [[db], [ev(C, "page", c, b)]]), P)]
    def res(self, C): return self.facts(C, C.ret, lambda c: z3.And(chas(C, c), z3.Not(synced(C, c))))
    class Loop:
        ghosts = (NPOS, "c.$dpos", "eng.$dpos")
        def ghost(self, L):
            C = Ctx(L.ex, L.entry, L.st, {}); n, n0 = L.v("unsynced_data").l[0], L.prev.v("unsynced_data").l[0]; k = L.prev.it().key; dp = C.g_(*Report.DP); pos = C.g_(NPOS, S2I)
            L.st.heap[NPOS] = [z3.If(n > n0, z3.Store(pos, k, n - 1), pos)]; L.st.heap["c.$dpos"] = [z3.If(n > n0, z3.Store(dp, k, C.g_("eng.$dpos", I2I)), dp)]
        def inv(self, L):
            C = Ctx(L.ex, L.entry, L.st, {}); vis = L.it().visited; q = kc("q"); m = CF(C, "contents")
            return [("visited", fa(q, z3.Implies(z3.Select(vis, q), mhas(m, q)), [z3.Select(vis, q)]))] + Report().facts(C, L.v("unsynced_data"), lambda c: z3.And(z3.Select(vis, c), z3.Not(synced(C, c))))
    loops = {0: Loop()}

class CacheCtor(CacheM):
    """a new cache over an engine that holds no blocks knows no file: the invariant holds from the start"""
    name = "Cache::Cache"; nargs = 2; ctor = True; props = ("C01", "C04", "C05", "C08", "C21"); modifies = ("Cache.engine", "Cache.cache_config", "Cache.contents", "Cache.file_inode_mapping", "Cache.item_locks")
    def args(self, C, case): return {"cache_config": Val(("ptr", "Config"), [z3.Int("cache_config")]), "choosenEngine": Val(("ptr", "PageCacheEngine"), [z3.Int("choosenEngine")])}
    def mod_cells(self, C): return self.modifies
    def pre(self, C):
        super().pre(C); c, b = kc(), K()
        return [("the engine holds no blocks", fa([c, b], z3.Not(cached(C, c, b)), [ev(C, "page", c, b)])), ("there are a configuration and an engine", z3.And(C.az("cache_config") > 0, C.az("choosenEngine") > 0))]
    def post(self, C):
        q = kc("q")
        return cache_inv(C) + [("no file is known", fa(q, z3.And(z3.Not(mhas(names(C), q)), z3.Not(chas(C, q))), [[mhas(names(C), q)], [chas(C, q)]])), ("it keeps the engine and the configuration", z3.And(CF(C, "engine").z == C.az("choosenEngine"), CF(C, "cache_config").z == C.az("cache_config")))]

def contracts(): return [CacheCtor(), OriginalInode(), InsertMapping(), HasContent(), ContentPtr(), IsBlockCached(), GetMeta(), UpdateMeta(), PutBlocks(), GetBlocks(), TruncateItem(), SyncOwner(), RemoveItem(), RenameItem(), LockCheck(), Usage(), FilesOf(), ClearAll(), FullCheckpoint(), Report()]
