"""The geometry of the cache (Config); here the block size is not fixed."""
import z3
from sym import *
from verify import Contract
from contracts.faults import int_arg
ULONG_ = 2 ** 64
GEO = ("IO_BLOCK_SIZE", "CACHE_PAGE_SIZE", "CACHE_NR_PAGES")
class Cfg(Contract):
    units = ("config",); props = ("C19", "C21"); consts = {"IO_BLOCK_SIZE": None, "CACHE_PAGE_SIZE": None, "CACHE_NR_PAGES": None, "APPLY_LRU_EVICTION": None}
    def this(self, C): return LObj("Config", None)
    def v(self, C, f, old=False): return C.f("Config", f, old=old).l[0]
    def pre(self, C):
        for f in GEO + ("APPLY_LRU_EVICTION",): self.v(C, f)
        return [("the sizes are sizes", z3.And([z3.And(self.v(C, f) >= 0, self.v(C, f) < ULONG_) for f in GEO]))] + self.needs(C)
    def needs(self, C): return []
class BySize(Cfg):
    """whole pages of the given number of blocks, as many as fit into the size"""
    name = "Config::setup_config_by_size"; modifies = ("Config.CACHE_PAGE_SIZE", "Config.CACHE_NR_PAGES", "Config.is_default_config")
    def args(self, C, case): return {"prealloc_bytes": int_arg(C.ex, C.st, ULONG, "prealloc_bytes"), "nr_blocks_per_page": int_arg(C.ex, C.st, INT, "nr_blocks_per_page")}
    def needs(self, C):
        p, n, b = C.az("prealloc_bytes"), C.az("nr_blocks_per_page"), self.v(C, "IO_BLOCK_SIZE"); return [("blocks have a size", b > 0), ("pages have blocks", n >= 1), ("more than a page", z3.And(p >= b, n * b < p, p < ULONG_))]
    def post(self, D):
        P = ("C19",); p, n, b = D.az("prealloc_bytes"), D.az("nr_blocks_per_page"), self.v(D, "IO_BLOCK_SIZE", True); k, s = self.v(D, "CACHE_NR_PAGES"), self.v(D, "CACHE_PAGE_SIZE")
        return [("pages hold the blocks asked for", s == n * b, P), ("as many whole pages as fit", z3.And(k >= 1, k * s <= p, p < k * s + s), P), ("it is not the default", z3.Not(self.v(D, "is_default_config")), P)]
class Manually(Cfg):
    """exactly the geometry given"""
    name = "Config::setup_config_manually"; modifies = tuple("Config." + f for f in GEO)
    def args(self, C, case): return {n: int_arg(C.ex, C.st, ULONG, n) for n in ("io_blk_sz", "pg_sz", "nr_pgs")}
    def needs(self, C): return [("whole blocks in a page", z3.And(C.az("io_blk_sz") > 0, C.az("pg_sz") % C.az("io_blk_sz") == 0)), ("there are pages", C.az("nr_pgs") > 0)]
    def post(self, D): return [("%s is the one given" % f, self.v(D, f) == D.az(a), ("C19",)) for f, a in zip(GEO, ("io_blk_sz", "pg_sz", "nr_pgs"))]
class Eviction(Cfg):
    name = "Config::set_eviction_flag"; modifies = ("Config.APPLY_LRU_EVICTION",)
    def args(self, C, case): return {"flag": Val(BOOL, [z3.Bool("arg:flag")])}
    def post(self, D): return [("eviction is as asked for", self.v(D, "APPLY_LRU_EVICTION") == z3.If(D.az("flag"), 1, 0), ("C19",))]
class CtorSize(BySize):
    name = "Config::Config"; nargs = 2; ctor = True; modifies = None
class CtorManual(Manually):
    name = "Config::Config"; nargs = 3; ctor = True; modifies = None
def contracts(): return [BySize(), Manually(), Eviction()]
