"""Library models: the standard containers (by their standard specification), and trusted contracts for the
system interface (POSIX calls over ghost file-system state), string helpers, logging (no effect) and kill (ends the process)."""
import re, z3
from sym import *
import sym
from exec import (Obl, Killed, PathEnd, SINGLETON, ALIAS, in_range, lo, hi, is_lit, consts_of)

TRUSTED = set()       # names of trusted functions actually met, for the evidence
AII = z3.ArraySort(I, I)
RANKS = {"cmd": 0, "LazyFS.write_lock": 1, "LazyFS.injecting_fault_lock": 2, "Cache.lock_cache_mtx": 3, "item": 4,
         "CustomCacheEngine.lock_cache_mtx": 5, "CustomCacheEngine.lru_management_mtx": 6}
ENUMS = {"DT_REG": 8, "FUSE_FILL_DIR_PLUS": 2}
KIND = {"ReorderF": 1, "SplitWriteF": 2, "ClearF": 3}
NOOP = {"info", "warn", "critical", "error", "debug", "trace", "set_level", "print", "printf", "reserve"}

def z(v): return v.z
def simp(e): return z3.simplify(e)

# ------------------------------------------------------------------ locks
def lock_key(ex, st, m):
    if isinstance(m, LCell): return (m.cell,)
    if isinstance(m, LObj) and m.cls in ("shared_mutex", "mutex"): return ("item", m.ref)
    if isinstance(m, tuple): return m
    raise Unsupported("lock object %r" % (m,))
def find_held(ex, st, key):
    if key in st.locks: return key
    if key[0] == "item":
        for k in st.locks:
            if k[0] == "item" and (k[1].eq(key[1]) or ex.proves(st, k[1] == key[1])): return k
    return None
def lock_acquire(ex, st, m, shared, node):
    key = lock_key(ex, st, m); r = RANKS.get(key[0])
    held = find_held(ex, st, key)
    P = ("C18",)
    if held is not None:
        ok = shared and st.locks[held][0] == "S"       # recursive shared locking never waits for itself
        ex.oblige(st, "lock %s is not already held" % key[0], ok, "lock", node, P)
        st.locks[held] = (st.locks[held][0], st.locks[held][1] + 1); return
    if key[0] == "item":
        for k in st.locks:
            if k[0] == "item": ex.oblige(st, "second item lock is a different one", k[1] != key[1], "lock", node, P)
    if r is not None:
        for k in st.locks:
            rk = RANKS.get(k[0])
            ex.oblige(st, "lock order: %s before %s" % (k[0], key[0]), rk is None or rk < r, "lock", node, P)
    st.locks[key] = ("S" if shared else "X", 1)
def lock_release(ex, st, m, shared, node):
    key = lock_key(ex, st, m); held = find_held(ex, st, key)
    ex.oblige(st, "released lock %s is held" % key[0], held is not None, "lock", node, ("C18",))
    if held is None: raise PathEnd()
    mode, n = st.locks[held]
    if n > 1: st.locks[held] = (mode, n - 1)
    else: st.locks = dict((k, v) for k, v in st.locks.items() if k is not held and k != held)

# ------------------------------------------------------------------ memory
def new_buffer(ex, st, b, n, zeroed=False):
    al = ex.ghost(st, "buflen", AII)
    st.assume(z3.And(b > 0, z3.Select(al, b) == -1))      # not an allocated buffer
    st.heap["buflen"] = [z3.Store(al, b, n)]
    if zeroed:
        m = ex.mem(st); a = z3.K(I, z3.IntVal(0)); st.heap["mem"] = [z3.Store(m, b, a)]
def check_buf(ex, st, p, n, node, what, props=("C21",)):
    bl = z3.Select(ex.buflen(st), p.l[0])
    ex.oblige(st, "%s stays inside its buffer" % what, z3.Or(n <= 0, z3.And(p.l[0] > 0, p.l[1] >= 0, p.l[1] + n <= bl)), "safety", node, props)
def bytes_of(ex, st, p): return z3.Select(ex.mem(st), p.l[0])
def fresh_range(old, lo_, n, src, so, name="cpy"):
    """array equal to old except [lo,lo+n) = src[so..]; returns (array, axiom)"""
    a = fresh_leaf(AII, name); i = z3.FreshConst(I, "i")
    val = z3.Select(src, i - lo_ + so) if not isinstance(src, int) else z3.IntVal(src)
    ax = z3.ForAll([i], z3.Select(a, i) == z3.If(z3.And(i >= lo_, i < lo_ + n), val, z3.Select(old, i)), patterns=[z3.Select(a, i)])
    return a, ax
def copy_bytes(ex, st, dst, src_arr, src_off, n, node, what):
    """dst: BUF value"""
    check_buf(ex, st, dst, n, node, what + " destination")
    m = ex.mem(st); a, ax = fresh_range(z3.Select(m, dst.l[0]), dst.l[1], n, src_arr, src_off)
    st.assume(ax); st.heap["mem"] = [z3.Store(m, dst.l[0], a)]

# ------------------------------------------------------------------ containers: iterators
def explicit_keys(dom):
    """keys of an array built by stores over the constant false array, or None"""
    keys = []
    while z3.is_app_of(dom, z3.Z3_OP_STORE):
        if not (z3.is_true(dom.arg(2)) or z3.is_false(dom.arg(2))): return None
        keys.append((dom.arg(1), z3.is_true(dom.arg(2)))); dom = dom.arg(0)
    if not (z3.is_app_of(dom, z3.Z3_OP_CONST_ARRAY) and z3.is_false(dom.arg(0))): return None
    keys.reverse(); out = []
    for k, b in keys:
        for o in out:
            if not (o.eq(k) or z3.is_false(simp(o == k))): return None
        if b:
            if not any(o.eq(k) for o in out): out.append(k)
        else: out = [o for o in out if not o.eq(k)]
    return out
def container(ex, st, lv):
    return lv.v if isinstance(lv, LTmp) else ex._read(st, lv)
def begin(ex, st, lv):
    c = container(ex, st, lv)
    if c.t[0] == "vec": return It(lv, "vec", idx=z3.IntVal(0))
    dom = c.l[0]; ordered = c.t[0] == "map" and c.t[3]
    keys = explicit_keys(simp(dom))
    if keys is not None and len(keys) <= 1:
        if not keys: return It(lv, c.t[0], key=fresh_leaf(dom.sort().domain(), "k"), end=z3.BoolVal(True), visited=z3.K(dom.sort().domain(), z3.BoolVal(False)), ordered=ordered)
        it = It(lv, c.t[0], key=keys[0], end=z3.BoolVal(False), visited=z3.K(dom.sort().domain(), z3.BoolVal(False)), ordered=ordered); it.explicit = True; return it
    ks = dom.sort().domain(); k = fresh_leaf(ks, "key"); e = fresh_leaf(B, "end"); q = z3.FreshConst(ks, "q")
    st.assume(e == z3.Not(z3.Exists([q], z3.Select(dom, q))))
    st.assume(z3.Implies(z3.Not(e), z3.Select(dom, k)))
    st.assume(z3.ForAll([q], z3.Implies(e, z3.Not(z3.Select(dom, q))), patterns=[z3.Select(dom, q)]))
    if ordered: st.assume(z3.ForAll([q], z3.Implies(z3.Select(dom, q), k <= q), patterns=[z3.Select(dom, q)]))
    return It(lv, c.t[0], key=k, end=e, visited=z3.K(ks, z3.BoolVal(False)), ordered=ordered)
def end_it(ex, st, lv):
    c = container(ex, st, lv)
    if c.t[0] == "vec": return It(lv, "vec", idx=c.l[0])
    ks = c.l[0].sort().domain()
    return It(lv, c.t[0], key=fresh_leaf(ks, "endkey"), end=z3.BoolVal(True), visited=None)
end_iter = lambda ex, st, it: end_it(ex, st, it.cont)
def havoc_iter(ex, st, it, tag):
    c = container(ex, st, it.cont)
    if it.kind == "vec":
        i = fresh_leaf(I, "idx_" + tag); st.assume(z3.And(i >= 0, i <= c.l[0])); return It(it.cont, "vec", idx=i)
    ks = c.l[0].sort().domain(); k = fresh_leaf(ks, "key_" + tag); e = fresh_leaf(B, "end_" + tag); vis = fresh_leaf(z3.ArraySort(ks, B), "vis_" + tag)
    q = z3.FreshConst(ks, "q"); dom = c.l[0]
    st.assume(z3.Implies(z3.Not(e), z3.And(z3.Select(dom, k), z3.Not(z3.Select(vis, k)))))
    st.assume(z3.ForAll([q], z3.Implies(z3.And(e, z3.Select(dom, q)), z3.Select(vis, q)), patterns=[z3.Select(dom, q)]))
    if it.ordered:
        st.assume(z3.ForAll([q], z3.Implies(z3.And(z3.Not(e), z3.Select(dom, q)), z3.Select(vis, q) == (q < k)), patterns=[z3.Select(dom, q)]))
    r = It(it.cont, it.kind, key=k, end=e, visited=vis, ordered=it.ordered); r.havoced = True
    return r
def iter_domain(ex, st, it):
    c = container(ex, st, it.cont)
    if it.kind == "vec": return lambda q: z3.And(q >= 0, q < c.l[0])
    return lambda q: z3.Select(c.l[0], q)
def iter_deref(ex, st, it, node):
    c = container(ex, st, it.cont)
    if it.kind == "vec":
        ex.oblige(st, "iterator dereference inside the sequence", z3.And(it.idx >= 0, it.idx < c.l[0]), "safety", node, ("C21",))
        return LVecAt(it.cont, it.idx)
    ex.oblige(st, "iterator dereference before end", z3.Not(it.end), "safety", node, ("C21",))
    if it.kind == "set": return LKey(Val(c.t[1], [it.key]))
    return LElem(it.cont, it.key)
def iter_next(ex, st, it):
    c = container(ex, st, it.cont)
    if it.kind == "vec": return It(it.cont, "vec", idx=it.idx + 1)
    dom = c.l[0]; ks = dom.sort().domain()
    vis = z3.Store(it.visited, it.key, z3.BoolVal(True)) if it.visited is not None else None
    if getattr(it, "explicit", False):
        return It(it.cont, it.kind, key=fresh_leaf(ks, "endkey"), end=z3.BoolVal(True), visited=vis, ordered=it.ordered)
    k = fresh_leaf(ks, "key"); e = fresh_leaf(B, "end"); q = z3.FreshConst(ks, "q")
    if it.ordered:
        st.assume(z3.Implies(z3.Not(e), z3.And(z3.Select(dom, k), k > it.key)))
        st.assume(z3.ForAll([q], z3.Implies(z3.And(z3.Select(dom, q), q > it.key), z3.And(z3.Not(e), k <= q)), patterns=[z3.Select(dom, q)]))
    else:
        if vis is None: raise Unsupported("increment of a find iterator")
        st.assume(z3.Implies(z3.Not(e), z3.And(z3.Select(dom, k), z3.Not(z3.Select(vis, k)))))
        st.assume(z3.ForAll([q], z3.Implies(z3.And(e, z3.Select(dom, q)), z3.Select(vis, q)), patterns=[z3.Select(dom, q)]))
    return It(it.cont, it.kind, key=k, end=e, visited=vis, ordered=it.ordered)
def iter_inc(ex, st, lv, it, op, postfix, node):
    if op == "--": raise Unsupported("iterator --")
    n = iter_next(ex, st, it); ex.write(st, lv, n)
    return it if postfix else lv
def iter_eq(ex, st, a, b):
    if a.kind == "vec": return a.idx == b.idx
    if z3.is_true(b.end): return a.end
    if z3.is_true(a.end): return b.end
    return z3.Or(z3.And(a.end, b.end), z3.And(z3.Not(a.end), z3.Not(b.end), a.key == b.key))

def has(ex, st, m, k):
    h = simp(mhas(m, k))
    if z3.is_true(h) or z3.is_false(h): return h
    return mhas(m, k)
def decide(ex, st, c):
    c2 = simp(c)
    if z3.is_true(c2): return True
    if z3.is_false(c2): return False
    if ex.proves(st, c): return True
    if ex.proves(st, z3.Not(c)): return False
    return None
def insert(ex, st, lv, k, v):
    m = ex._read(st, lv); d = decide(ex, st, mhas(m, k))
    if d is True: return
    n = mstore(m, k, v)
    ex.write(st, lv, n if d is False else ite(mhas(m, k), m, n))
def at_key(ex, st, m, k, node, what="at()"):
    ex.oblige(st, "%s finds its key" % what, mhas(m, k), "safety", node, ("C21",))
def vec_erase(ex, st, lv, i):
    v = ex._read(st, lv); n = Val(v.t, [v.l[0] - 1] + [fresh_leaf(a.sort(), "erased") for a in v.l[1:]]); q = z3.FreshConst(I, "q")
    for a, b in zip(n.l[1:], v.l[1:]):
        st.assume(z3.ForAll([q], z3.Select(a, q) == z3.If(q < i, z3.Select(b, q), z3.Select(b, q + 1)), patterns=[z3.Select(a, q)]))
        st.assume(z3.ForAll([q], z3.Implies(q > i, z3.Select(b, q) == z3.Select(a, q - 1)), patterns=[z3.Select(b, q)]))
    ex.write(st, lv, n)

# ------------------------------------------------------------------ globals, enums, casts
def global_var(ex, st, d, n):
    name = d["name"]
    if name == "cache_command_lock": return ("cmd",)
    if name in ("cout", "cerr", "endl", "defer_lock", "nullopt", "ECMAScript"): return (name,)
    v = ex.prog.vars.get(name)
    for key in ("ClearF::" + name, name):
        v = ex.prog.vars.get(key)
        if v is not None: break
    if v is None: raise Unsupported("global variable " + name)
    init = next((x for x in v.get("inner", ()) if x.get("kind") and not x["kind"].endswith(("Attr", "Comment"))), None)
    t = ex.var_type(v["type"]["qualType"], v["type"].get("desugaredQualType", v["type"]["qualType"]))
    if not ("const" in v["type"]["qualType"]): raise Unsupported("mutable global " + name)
    val = ex.construct_hint(st, init, t)
    if isinstance(val, Val) and val.t != t: val = ex.convert(st, val, t)
    return val
DT = {"DT_UNKNOWN": 0, "DT_FIFO": 1, "DT_CHR": 2, "DT_DIR": 4, "DT_BLK": 6, "DT_REG": 8, "DT_LNK": 10, "DT_SOCK": 12}    # <dirent.h>
def enum_const(ex, d):
    if d["name"] in ENUMS: return mkint(ENUMS[d["name"]])
    if d["name"].startswith("_S_") or d["name"] in ("ECMAScript",): return (d["name"],)
    if d["name"] in DT: return mkint(DT[d["name"]])
    raise Unsupported("enumerator " + d["name"])
def dynamic_cast(ex, st, v, t):
    kd = ex.ghost(st, "Fault.$kind", AII)
    if t[1] not in KIND: raise Unsupported("dynamic_cast to " + t[1])
    return Val(t, [z3.If(z3.And(v.z != 0, z3.Select(kd, v.z) == KIND[t[1]]), v.z, 0)])
def delete(ex, st, v, node):
    if not (isinstance(v, Val) and v.t[0] == "ptr"): raise Unsupported("delete of %r" % (v,))
    cls = v.t[1]
    if cls in ("Item", "Data", "BlockInfo", "Write", "Metadata"):
        al = ex.ghost(st, cls + ".$alive", z3.ArraySort(I, B))
        ex.oblige(st, "deleted %s is alive" % cls, z3.Or(v.z == 0, z3.Select(al, v.z)), "safety", node, ("C21",))
        d = ex.prog.fn(cls + "::~" + cls)
        if d is not None and d.body is not None and cls in ("Item",) : ex.inline(st, d, LObj(cls, v.z), [], node)
        al = ex.ghost(st, cls + ".$alive", z3.ArraySort(I, B))
        st.heap[cls + ".$alive"] = [z3.Store(al, v.z, z3.BoolVal(False))]
    return None

# ------------------------------------------------------------------ construction
def elem_nodes(n):
    return [x for x in n.get("inner", ()) if x.get("kind")]
def init_list(ex, st, t, n):
    els = elem_nodes(n)
    if t is None: raise Unsupported("initializer list without type")
    k = t[0]
    if k == "arr": t = ("vec", t[1]); k = "vec"
    if k == "vec":
        v = empty(t)
        for e in els: v = vpush(v, conv(ex, st, e, t[1]))
        return v
    if k == "map":
        m = empty(t)
        for e in els:
            p = conv(ex, st, e, ("tup", t[1], t[2])); m = mstore(m, p.l[0], comp(p, 1))
        return m
    if k == "set":
        m = empty(t)
        for e in els: m = Val(t, [z3.Store(m.l[0], conv(ex, st, e, t[1]).z, z3.BoolVal(True))])
        return m
    if k in ("tup", "struct"):
        ts = t[1:] if k == "tup" else [x for _, x in STRUCTS[t[1]]]
        out = []
        for i, x in enumerate(ts): out += (conv(ex, st, els[i], x) if i < len(els) else zero(x)).l
        return Val(t, out)
    if len(els) == 1: return conv(ex, st, els[0], t)
    if not els: return zero(t)
    raise Unsupported("initializer list of %r" % (t,))
def conv(ex, st, node, t):
    v = ex.construct_hint(st, node, t)
    return ex.convert(st, v, t) if isinstance(v, Val) else v
def construct(ex, st, n):
    t = None
    try: t = ex.var_type(n["type"]["qualType"], n["type"].get("desugaredQualType", n["type"]["qualType"]))
    except Unsupported: pass
    args = [a for a in elem_nodes(n) if a["kind"] != "CXXDefaultArgExpr"]
    qt = n["type"].get("desugaredQualType", n["type"]["qualType"])
    if t == ("rtok",) or "regex_token_iterator" in qt:
        if not args: return Val(("rtok",), [lit(""), lit(""), z3.IntVal(-1)])
        if len(args) == 1: return ex.ev(st, args[0])
        b, e = ex.ev(st, args[0]), ex.ev(st, args[1]); r = ex.ev(st, args[2])
        if len(args) != 3 or not (isinstance(b, tuple) and isinstance(e, tuple) and b[:2] == ("str-it", "begin") and e[:2] == ("str-it", "end") and b[2].z.eq(e[2].z)): raise Unsupported("regex token iterator")
        TRUSTED.add("std::sregex_token_iterator"); st.assume(rtok_n(r.z, b[2].z) >= 0); return Val(("rtok",), [r.z, b[2].z, z3.IntVal(0)])
    if "iterator" in qt:
        if not args: return ("iter-end",)
        return ex.ev(st, args[0])
    if t is None: raise Unsupported("construction of " + qt)
    k = t[0]
    if k == "lock":
        m = ex.expr(st, args[0]); defer = len(args) > 1
        if len(args) > 1 and "defer_lock" not in args[1].get("type", {}).get("qualType", ""): raise Unsupported("lock tag")
        shared = t[1] == "shared_lock"
        key = lock_key(ex, st, m)
        l = Lock(m, shared, not defer)
        if not defer: lock_acquire(ex, st, m, shared, n)
        return l
    if k in ("opaque",) or k == "obj" and t[1] in ("defer_lock_t", "nullopt_t", "basic_format_string", "allocator"):
        if args:
            try: return ex.ev(st, args[0])
            except Unsupported: return ("opaque",)
        return ("opaque",)
    if k == "regex":
        v = ex.ev(st, args[0]); return Val(REGEX, [v.z])
    if not args:
        if k == "struct":
            v = fresh(t, "tmp"); ex.note_range(st, v)
            ctor = ex.prog.fn(t[1] + "::" + t[1], 0)
            if ctor:
                tmp = LTmp(v); ex.inline(st, ctor, PtrTo(tmp), []); v = tmp.v
            return v
        if k == "obj": raise Unsupported("construction of object " + t[1])
        return zero(t)
    if k in ("map", "set", "vec"):
        a0 = args[0]; il = a0; std = False
        while il["kind"] in ("CXXStdInitializerListExpr", "MaterializeTemporaryExpr", "ImplicitCastExpr", "CXXBindTemporaryExpr", "ExprWithCleanups") and len(elem_nodes(il)) == 1:
            std = std or il["kind"] == "CXXStdInitializerListExpr"; il = elem_nodes(il)[0]
        if std and il["kind"] == "InitListExpr": return init_list(ex, st, t, il)
        old = ex._hint; ex._hint = t
        try:
            v = ex.ev(st, a0)
        finally: ex._hint = old
        if isinstance(v, Val) and v.t[0] == k: return Val(t, ex.convert(st, v, t).l)
        if isinstance(v, Val) and v.t[0] == "vec" and k in ("map", "set"):
            raise Unsupported("container from list value")
        raise Unsupported("construction of %r" % (t,))
    if k == "str":
        v = ex.ev(st, args[0])
        if isinstance(v, Val) and v.t[0] == "str": return v
        raise Unsupported("string from %r" % (v,))
    if k == "tup":
        if len(args) == 1:
            v = ex.construct_hint(st, args[0], t)
            return ex.convert(st, v, t)
        if len(args) == len(t) - 1: return Val(t, [x for a, y in zip(args, t[1:]) for x in conv(ex, st, a, y).l])
        raise Unsupported("tuple construction")
    if k == "opt":
        v = ex.ev(st, args[0])
        if not isinstance(v, Val): return Val(t, [z3.BoolVal(False)] + [fresh_leaf(s, "nil") for s in leaves(t)[1:]])
        if v.t[0] == "opt": return Val(t, v.l)
        return Val(t, [z3.BoolVal(True)] + ex.convert(st, v, t[1]).l)
    if len(args) == 1:
        v = ex.construct_hint(st, args[0], t)
        return ex.convert(st, v, t) if isinstance(v, Val) else v
    raise Unsupported("construction of " + qt)

# ------------------------------------------------------------------ methods
def method(ex, st, me, args, n):
    name = me["name"]; bn = me["inner"][0]
    inner = bn
    while inner["kind"] in ("ImplicitCastExpr", "ParenExpr"): inner = inner["inner"][0]
    b = ex.expr(st, bn) if not (me.get("isArrow") and inner["kind"] == "MemberExpr" and inner["name"] == "faults") else ex.expr(st, inner)
    if me.get("isArrow") and not (isinstance(b, LCell) and b.cell == "LazyFS.faults"):
        p = ex.rv(st, b)
        if isinstance(p, It): b = iter_deref(ex, st, p, n)
        else: b = ex.deref(st, p, n)
    if isinstance(b, LVar) and isinstance(st.env.get(b.slot), (LObj, PtrTo, Lock, It)): 
        w = st.env[b.slot]
        if isinstance(w, Lock): return lock_method(ex, st, b, w, name, n)
        b = w.lv if isinstance(w, PtrTo) else w
    args = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
    if isinstance(b, It):
        if name == "base": return b
        raise Unsupported("iterator method " + name)
    if isinstance(b, tuple):
        if name == "lock" : lock_acquire(ex, st, b, False, n); return None
        if name == "unlock": lock_release(ex, st, b, False, n); return None
        raise Unsupported("method on %r" % (b,))
    if isinstance(b, LObj) and b.cls in ("shared_mutex", "mutex"):
        if name == "lock": lock_acquire(ex, st, b, False, n); return None
        if name == "unlock": lock_release(ex, st, b, False, n); return None
        if name in ("lock_shared", "unlock_shared"): (lock_acquire if name == "lock_shared" else lock_release)(ex, st, b, True, n); return None
        raise Unsupported("mutex method " + name)
    if isinstance(b, LObj) and b.cls not in STRUCTS:
        fn = find_method(ex, b.cls, name, len(args))
        if fn is None: raise Unsupported("method %s::%s" % (b.cls, name))
        av = eval_args(ex, st, fn, args)
        return ex.call_fn(st, fn, b, av, n)
    if isinstance(b, Val): b = LTmp(b)
    v = ex._read(st, b)
    if isinstance(v, LObj): 
        fn = find_method(ex, v.cls, name, len(args)); return ex.call_fn(st, fn, v, eval_args(ex, st, fn, args), n)
    t = v.t; k = t[0]
    if k == "mutex":
        if name == "lock": lock_acquire(ex, st, b, False, n); return None
        if name == "unlock": lock_release(ex, st, b, False, n); return None
        raise Unsupported("mutex method " + name)
    if k == "struct":
        fn = find_method(ex, t[1], name, len(args))
        if fn is not None: return ex.call_fn(st, fn, PtrTo(b), eval_args(ex, st, fn, args), n)
    if k == "str": return str_method(ex, st, v, name, args, n)
    if k == "int" or k == "bool":
        if name == "load": return ex.rv(st, b)
        if name == "store": ex.write(st, b, conv(ex, st, args[0], t)); return None
        if name in ("fetch_add", "fetch_sub"):
            cur = ex.rv(st, b); d = conv(ex, st, args[0], t); w = ex.arith(st, "+" if name == "fetch_add" else "-", cur, d, t, n)
            ex.write(st, b, w); return cur
        if name.startswith("operator "): return ex.rv(st, b)
        raise Unsupported("atomic method " + name)
    if k == "opt":
        if name == "has_value": return mkbool(v.l[0])
        if name == "value":
            ex.oblige(st, "optional has a value", v.l[0], "safety", n, ("C21",)); return LOpt(b)
    if k in ("map", "set", "vec", "llist"): return cont_method(ex, st, b, v, name, args, n)
    raise Unsupported("method %s on %r" % (name, t))
def find_method(ex, cls, name, nargs):
    c = ALIAS.get(cls, cls)
    while c:
        f = ex.prog.fn(c + "::" + name, nargs)
        if f is not None: return f
        c = (ex.prog.bases.get(c) or [None])[0]
    return None
def eval_args(ex, st, fn, args):
    out = []
    for i, a in enumerate(args):
        p = fn.params[i] if i < len(fn.params) else None
        qt = p["type"]["qualType"] if p else ""
        try: t = ex.var_type(qt, p["type"].get("desugaredQualType", qt)) if p else None
        except Unsupported: t = None
        if qt.rstrip().endswith("&"):
            x = ex.expr(st, a)
            if isinstance(x, Val) and t and x.t != t and t[0] not in ("obj", "opaque"): x = ex.convert(st, x, t)
            out.append(x); continue
        v = ex.construct_hint(st, a, t)
        if isinstance(v, Val) and t is not None and t[0] not in ("obj", "opaque") and v.t != t: v = ex.convert(st, v, t)
        out.append(v)
    return out
def lock_method(ex, st, lv, l, name, n):
    if name == "lock":
        ex.oblige(st, "lock object does not own the lock yet", not l.owned, "lock", n, ("C18",))
        lock_acquire(ex, st, l.mtx, l.shared, n); st.env[lv.slot] = Lock(l.mtx, l.shared, True); return None
    if name == "unlock":
        ex.oblige(st, "lock object owns the lock", l.owned, "lock", n, ("C18",))
        lock_release(ex, st, l.mtx, l.shared, n); st.env[lv.slot] = Lock(l.mtx, l.shared, False); return None
    if name == "owns_lock": return mkbool(l.owned)
    raise Unsupported("lock method " + name)
def str_method(ex, st, v, name, args, n):
    if name == "c_str" or name == "data": return v
    if name == "empty": return mkbool(v.z == lit(""))
    if name in ("length", "size"):
        st.assume(z3.And(slen(v.z) >= 0, slen(v.z) < 2 ** 30)); return Val(ULONG, [slen(v.z)])
    if name == "substr":
        a = ex.ev(st, args[0])
        if len(args) == 2:
            b = ex.ev(st, args[1]); ex.oblige(st, "substr position within the string", z3.And(a.z >= 0, a.z <= slen(v.z)), "safety", n, ("C21",))
            return Val(STR, [z3.If(b.z >= slen(v.z) - a.z, substr_(v.z, a.z), z3.Function("substr2", Str, I, I, Str)(v.z, a.z, b.z))])
        ex.oblige(st, "substr position within the string", z3.And(a.z >= 0, a.z <= slen(v.z)), "safety", n, ("C21",))
        return Val(STR, [substr_(v.z, a.z)])
    if name in ("begin", "end"): return ("str-it", name, v)
    if name in ("operator basic_string", "operator string_type", "str"): return v
    # other questions about texts are uninterpreted functions of the texts and numbers they are asked with
    vs = [ex.ev(st, x) for x in args]
    if name in ("compare", "find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of", "at", "front", "back") and all(isinstance(x, Val) and len(x.l) == 1 for x in vs):
        zs = [v.z] + [x.z for x in vs]
        if name in ("at", "front", "back"):
            i = {"at": lambda: zs[1], "front": lambda: z3.IntVal(0), "back": lambda: slen(v.z) - 1}[name](); c = char_at(v.z, i); ex.oblige(st, "position within the string", z3.And(i >= 0, i < slen(v.z)), "safety", n, ("C21",)); st.assume(z3.And(c >= -128, c < 128)); return Val(("int", 8, True), [c])
        r = z3.Function("str_%s_%s" % (name, "".join("s" if z.sort() == Str else "i" for z in zs)), *([z.sort() for z in zs] + [I]))(*zs)
        if name == "compare":
            if len(zs) == 2: st.assume((r == 0) == (v.z == zs[1]))
            st.assume(z3.And(r >= -2 ** 31, r < 2 ** 31)); return Val(INT, [r])
        TRUSTED.add("std::string::" + name); st.assume(z3.Or(z3.And(r >= 0, r <= slen(v.z)), r == 2 ** 64 - 1)); return Val(ULONG, [r])
    raise Unsupported("string method " + name)
def vsize(ex, st, v):
    if v.t[0] == "vec":
        if v.t[1] == INT and "Config.CACHE_NR_PAGES" in st.heap:  # a list without repetitions of numbers from [0, m) has at most m of them
            m = st.heap["Config.CACHE_NR_PAGES"][0]; n = v.l[0]; a, b = fresh_leaf(I, "at"), fresh_leaf(I, "at"); e = lambda k: z3.Select(v.l[1], k)
            st.assume(z3.Or(m < 0, n <= m, z3.And(0 <= a, a < n, z3.Or(e(a) < 0, e(a) >= m)), z3.And(0 <= a, a < b, b < n, e(a) == e(b))))
        return v.l[0]
    keys = explicit_keys(simp(v.l[0]))
    if keys is not None and len(keys) <= 1: return z3.IntVal(len(keys))
    c = card(v.l[0]); st.assume(z3.And(c >= 0, c < 2 ** 31))
    ks = v.l[0].sort().domain(); q = z3.FreshConst(ks, "q"); el = z3.Select(simp(v.l[0]), q)
    st.assume(z3.ForAll([q], z3.Implies(el, c >= 1), patterns=[el]))
    w = fresh_leaf(ks, "wit"); st.assume(z3.Implies(c >= 1, z3.Select(v.l[0], w)))
    if ks == I and "Config.CACHE_NR_PAGES" in st.heap:          # a set of numbers from [0, m) has at most m of them
        m = st.heap["Config.CACHE_NR_PAGES"][0]; u = fresh_leaf(I, "out"); st.assume(z3.Or(m < 0, c <= m, z3.And(z3.Select(v.l[0], u), z3.Or(u < 0, u >= m))))
    return c
def cont_method(ex, st, b, v, name, args, n):
    t = v.t; k = t[0]
    if name in ("reserve", "shrink_to_fit"):
        return None
    if k == "llist": return list_method(ex, st, b, v, name, args, n)
    if name == "begin" or name == "cbegin": return begin(ex, st, b)
    if name == "end" or name == "cend": return end_it(ex, st, b)
    if name == "size": return Val(ULONG, [vsize(ex, st, v)])
    if name == "empty":
        return mkbool(vsize(ex, st, v) == 0)
    if name == "clear": ex.write(st, b, empty(t)); return None
    if k in ("map", "set"):
        if name in ("find", "count", "at"):
            key = conv(ex, st, args[0], t[1]).z
            if name == "find": return It(b, k, key=key, end=simp_not(mhas(v, key)), visited=None, ordered=(k == "map" and t[3]))
            if name == "count": return Val(ULONG, [z3.If(mhas(v, key), 1, 0)])
            at_key(ex, st, v, key, n); return LMapAt(b, key)
        if name in ("insert", "emplace"):
            if k == "set":
                key = conv(ex, st, args[0], t[1]).z; ex.write(st, b, Val(t, [z3.Store(v.l[0], key, z3.BoolVal(True))])); return None
            if name == "emplace" and len(args) == 2: p = Val(("tup", t[1], t[2]), conv(ex, st, args[0], t[1]).l + conv(ex, st, args[1], t[2]).l)
            else: p = conv(ex, st, args[0], ("tup", t[1], t[2]))
            insert(ex, st, b, p.l[0], comp(p, 1)); return None
        if name == "erase":
            x = ex.construct_hint(st, args[0], t[1])
            if isinstance(x, It): key = x.key; ex.oblige(st, "erased iterator is valid", z3.Not(x.end), "safety", n, ("C21",))
            else: key = ex.convert(st, ex.rv(st, x), t[1]).z
            cur = ex._read(st, b)
            if explicit_keys(simp(cur.l[0])) == []: return None
            ex.write(st, b, merase(cur, key) if k == "map" else Val(t, [z3.Store(cur.l[0], key, z3.BoolVal(False))])); return None
    if k == "vec":
        if name in ("push_back", "emplace_back"):
            if name == "emplace_back" and len(args) != 1: raise Unsupported("emplace_back")
            x = conv(ex, st, args[0], t[1]); ex.write(st, b, vpush(ex._read(st, b), x)); return None
        if name == "pop_back":
            ex.oblige(st, "pop_back on a non-empty sequence", v.l[0] > 0, "safety", n, ("C21",))
            ex.write(st, b, Val(t, [v.l[0] - 1] + v.l[1:])); return None
        if name in ("back", "front"):
            ex.oblige(st, "%s of a non-empty sequence" % name, v.l[0] > 0, "safety", n, ("C21",))
            return LVecAt(b, v.l[0] - 1 if name == "back" else z3.IntVal(0))
        if name == "at":
            i = ex.ev(st, args[0]); ex.oblige(st, "index within the sequence", z3.And(i.z >= 0, i.z < v.l[0]), "safety", n, ("C21",)); return LVecAt(b, i.z)
        if name == "erase":
            x = ex.ev(st, args[0])
            if isinstance(x, It) and len(args) == 1:
                ex.oblige(st, "erased position is inside the sequence", z3.And(x.idx >= 0, x.idx < v.l[0]), "safety", n, ("C21",))
                vec_erase(ex, st, b, x.idx); return None
            if isinstance(x, tuple) and x[0] == "removed":
                w = fresh(t, "rest"); q = z3.FreshConst(I, "q"); 
                st.assume(z3.And(w.l[0] >= 0, w.l[0] <= v.l[0]))
                st.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < w.l[0]), z3.Select(w.l[1], q) != x[1]), patterns=[z3.Select(w.l[1], q)]))
                ex.write(st, b, w); return None
    raise Unsupported("container method %s on %s" % (name, k))
def list_end(ex, st, v, back):
    """the first or last node, 0 for an empty list.  A node stays itself until it is erased; nodes are numbered so that the front is the largest"""
    q = z3.FreshConst(I, "q"); nd = fresh_leaf(I, "node"); has = z3.Select(v.l[0], q)
    st.assume(z3.Or(z3.And(nd != 0, z3.Select(v.l[0], nd)), nd == 0)); st.assume(z3.ForAll([q], z3.Implies(has, z3.And(nd != 0, nd <= q if back else q <= nd)), patterns=[has]))
    TRUSTED.add("std::list"); return nd
def list_method(ex, st, b, v, name, args, n):
    t = v.t; dom, vals, lo_, hi_ = v.l[0], v.l[1:-2], v.l[-2], v.l[-1]; put = lambda d, va, l, h: ex.write(st, b, Val(t, [d] + va + [l, h]))
    if name in ("push_front", "push_back"):
        x = conv(ex, st, args[0], t[1]); nd = hi_ + 1 if name == "push_front" else lo_ - 1
        put(z3.Store(dom, nd, z3.BoolVal(True)), [z3.Store(a, nd, y) for a, y in zip(vals, x.l)], lo_ if name == "push_front" else nd, nd if name == "push_front" else hi_); return None
    if name in ("begin", "cbegin"): return Val(("lnode",), [list_end(ex, st, v, False)])
    if name in ("end", "cend"): return Val(("lnode",), [z3.IntVal(0)])
    if name == "empty": return mkbool(list_end(ex, st, v, False) == 0)
    if name in ("front", "back", "pop_front", "pop_back"):
        nd = list_end(ex, st, v, name.endswith("back")); ex.oblige(st, "%s of a non-empty list" % name, nd != 0, "safety", n, ("C21", "C17"))
        if name.startswith("pop"): put(z3.Store(dom, nd, z3.BoolVal(False)), vals, lo_, hi_); return None
        return Val(t[1], [z3.Select(a, nd) for a in vals])
    if name == "erase" and len(args) == 1:
        x = ex.rv(st, ex.construct_hint(st, args[0], ("lnode",)))
        if not isinstance(x, Val) or x.t[0] != "lnode": raise Unsupported("list erase")
        ex.oblige(st, "the erased element is in the list", z3.Select(dom, x.z), "safety", n, ("C21", "C17")); put(z3.Store(dom, x.z, z3.BoolVal(False)), vals, lo_, hi_); return None
    raise Unsupported("list method " + name)
def simp_not(e):
    e = simp(e)
    if z3.is_true(e): return z3.BoolVal(False)
    if z3.is_false(e): return z3.BoolVal(True)
    return z3.Not(e)

# ------------------------------------------------------------------ numbers in a text (std::sregex_token_iterator, std::stoi)
rtok = z3.Function("regex_match_at", Str, Str, I, Str); rtok_n = z3.Function("regex_matches", Str, Str, I); str_num = z3.Function("stoi", Str, I)
def rtok_end(st, v):
    st.assume(rtok_n(v.l[0], v.l[1]) >= 0); return z3.Or(v.l[2] < 0, v.l[2] >= rtok_n(v.l[0], v.l[1]))
def f_stoi(ex, st, a, n):
    v = ex.ev(st, a[0]); TRUSTED.add("std::stoi (of a number without sign that fits an int)"); r = str_num(v.z); st.assume(z3.And(r >= 0, r < 2 ** 31)); return Val(INT, [r])

# ------------------------------------------------------------------ operators
def operator(ex, st, name, args, n):
    if name == "operator<<": return ("cout",)
    a = ex.expr(st, args[0])
    if name == "operator()" : raise Unsupported("call operator")
    if name in ("operator==", "operator!="):
        x = ex.rv(st, a); y = ex.ev(st, args[1])
        if isinstance(x, Val) and isinstance(y, Val) and x.t == y.t == ("rtok",):
            ex_, ey = rtok_end(st, x), rtok_end(st, y); e = z3.Or(z3.And(ex_, ey), z3.And(z3.Not(ex_), z3.Not(ey), *[p == q for p, q in zip(x.l, y.l)])); return mkbool(e if name == "operator==" else z3.Not(e))
        if isinstance(x, tuple) or isinstance(y, tuple): raise Unsupported("iterator comparison")
        e = ex.equal(st, x, y); return mkbool(e if name == "operator==" else z3.Not(e))
    if name in ("operator*", "operator->"):
        v = ex.rv(st, a)
        if isinstance(v, It):
            lv = iter_deref(ex, st, v, n)
            return lv if name == "operator*" else PtrTo(lv)
        if isinstance(v, Val) and v.t == ("rtok",):
            ex.oblige(st, "token iterator is not at the end", z3.Not(rtok_end(st, v)), "safety", n, ("C21",)); return Val(STR, [rtok(*v.l)])
        if isinstance(v, Val) and v.t[0] == "opt":
            ex.oblige(st, "optional has a value", v.l[0], "safety", n, ("C21",)); return LOpt(a)
        raise Unsupported("operator* on %r" % (v,))
    if name == "operator++":
        v = ex.rv(st, a)
        if isinstance(v, It): return iter_inc(ex, st, a, v, "++", len(args) > 1, n)
        if isinstance(v, Val) and v.t == ("rtok",):
            ex.oblige(st, "token iterator is not at the end", z3.Not(rtok_end(st, v)), "safety", n, ("C21",)); w = Val(v.t, [v.l[0], v.l[1], v.l[2] + 1]); ex.write(st, a, w); return v if len(args) > 1 else a
        if isinstance(v, Val) and v.t[0] == "int":
            w = ex.arith(st, "+", v, mkint(1, v.t), v.t, n); ex.write(st, a, w); return v if len(args) > 1 else w
        raise Unsupported("operator++")
    if name in ("operator+", "operator+="):
        x = ex.rv(st, a); y = ex.ev(st, args[1])
        if isinstance(x, It) and isinstance(y, Val) and x.kind == "vec": return It(x.cont, "vec", idx=x.idx + y.z)
        if isinstance(x, Val) and isinstance(y, Val) and x.t[0] == "str" and y.t[0] == "str":
            r = Val(STR, [concat(x.z, y.z)])
            if name == "operator+=": ex.write(st, a, r); return a
            return r
        if name == "operator+=" and isinstance(x, Val) and x.t[0] == "int": w = ex.arith(st, "+", x, ex.convert(st, y, x.t), x.t, n); ex.write(st, a, w); return w
        raise Unsupported("operator+")
    if name == "operator[]":
        v = ex._read(st, a) if isinstance(a, LV) else a
        t = v.t
        if t[0] == "vec":
            i = ex.ev(st, args[1]); ex.oblige(st, "index within the sequence", z3.And(i.z >= 0, i.z < v.l[0]), "safety", n, ("C21",)); return LVecAt(a, i.z)
        if t[0] == "map":
            k = conv(ex, st, args[1], t[1]).z; m = ex._read(st, a); d = decide(ex, st, mhas(m, k))
            if d is True: return LMapAt(a, k)
            if t[2][0] == "ptr" and t[2][1] in ("shared_mutex",): # operator[] inserts a null lock when missing; locking it would crash
                ex.oblige(st, "item lock exists", mhas(m, k), "safety", n, ("C18", "C21")); return LMapAt(a, k)
            w = mstore(m, k, zero(t[2]))
            ex.write(st, a, w if d is False else ite(mhas(m, k), m, w)); return LMapAt(a, k)
        raise Unsupported("operator[] on %r" % (t,))
    if name == "operator=":
        cur = ex._read(st, a) if isinstance(a, LV) and not (isinstance(a, LVar) and not isinstance(st.env.get(a.slot), Val)) else None
        v = ex.construct_hint(st, args[1], cur.t if isinstance(cur, Val) else None)
        if isinstance(cur, Val) and isinstance(v, Val) and v.t != cur.t: v = ex.convert(st, v, cur.t)
        ex.write(st, a, v); return a
    if name in ("operator<", "operator>", "operator<=", "operator>="):
        x = ex.rv(st, a); y = ex.ev(st, args[1]); 
        if isinstance(x, Val) and x.t[0] == "int": return ex.binop(st, name[8:], x, y, n)
    raise Unsupported(name)

# ------------------------------------------------------------------ functions
def call(ex, st, name, args, n, ref):
    args = [a for a in args if a["kind"] != "CXXDefaultArgExpr"]
    d = ref.get("referencedDecl", {}) if ref else {}
    if name in NOOP or name in ("print_config",):
        return None
    h = globals().get("f_" + name)
    repo = repo_fn(ex, name, len(args), d)
    if repo is not None and (name not in TRUSTED_OVER):
        return ex.call_fn(st, repo, LObj("LazyFS", None) if not repo.static or repo.cls else None, eval_args(ex, st, repo, args), n)
    if h is not None: return h(ex, st, args, n)
    raise Unsupported("function " + name)
TRUSTED_OVER = {"regex_escape"}
def repo_fn(ex, name, nargs, d):
    if name in ("begin", "end", "open", "close", "read", "write", "link", "unlink", "rename", "truncate", "compare"): return None
    if d.get("kind") == "CXXMethodDecl":
        for c in ("LazyFS", "SplitWriteF", "ReorderF", "ClearF", "Cache", "CustomCacheEngine", "Page"):
            f = ex.prog.fn(c + "::" + name, nargs)
            if f is not None: return f
        return None
    f = ex.prog.fn(name, nargs)
    if f is not None and f.cls == "" and f.qname.split("::")[0] in ("lazyfs", "cache", "faults"): return f
    return None
def f_this_(ex, st, a, n): return LObj("LazyFS", None)
def f_begin(ex, st, a, n): return begin(ex, st, aslv(ex.expr(st, a[0])))
def f_end(ex, st, a, n): return end_it(ex, st, aslv(ex.expr(st, a[0])))
def aslv(x): return LTmp(x) if isinstance(x, Val) else x
def f_next(ex, st, a, n):
    it = ex.ev(st, a[0])
    if len(a) > 1 and not (isinstance(ex.ev(st, a[1]), Val) and z3.is_int_value(simp(ex.ev(st, a[1]).z)) and simp(ex.ev(st, a[1]).z).as_long() == 1): raise Unsupported("next(n)")
    return iter_next(ex, st, it)
def f_prev(ex, st, a, n):
    it = ex.ev(st, a[0]); c = container(ex, st, it.cont)
    if it.kind == "vec": return It(it.cont, "vec", idx=it.idx - 1)
    if it.ordered is False and not (it.kind == "map" and c.t[3]): raise Unsupported("prev of unordered")
    if z3.is_true(it.end):
        dom = c.l[0]; k = fresh_leaf(dom.sort().domain(), "last"); q = z3.FreshConst(dom.sort().domain(), "q")
        st.assume(z3.ForAll([q], z3.Implies(z3.Select(dom, q), z3.And(z3.Select(dom, k), q <= k)), patterns=[z3.Select(dom, q)]))
        return It(it.cont, it.kind, key=k, end=z3.BoolVal(False), visited=None, ordered=True)
    raise Unsupported("prev")
def f_get(ex, st, a, n):
    # std::get<I>(tuple): the index is in the type of the callee; recovered from the result type position
    x = ex.expr(st, a[0]); v = ex._read(st, x) if isinstance(x, LV) else x
    i = tuple_index(n)
    return LComp(x, i) if isinstance(x, LV) else comp(v, i)
def tuple_index(n):
    r = n["inner"][0]
    while r["kind"] != "DeclRefExpr": r = r["inner"][0]
    qt = r.get("type", {}).get("qualType", "")
    m = re.search(r"__tuple_element_t<(\d+)|tuple_element<(\d+)", qt) or re.search(r"_Nth_type<(\d+)", qt)
    if m: return int(m.group(1) or m.group(2))
    raise Unsupported("std::get index in " + qt)
def f_make_pair(ex, st, a, n):
    t = ex.var_type(n["type"]["qualType"], n["type"].get("desugaredQualType", n["type"]["qualType"]))
    h = getattr(ex, "_hint", None)
    vs = [ex.ev(st, x) for x in a]
    if t[0] != "tup": t = ("tup",) + tuple(v.t for v in vs)
    out = []
    for v, x in zip(vs, t[1:]):
        if not isinstance(v, Val): raise Unsupported("make_pair of %r" % (v,))
        if x[0] in ("opaque", "obj"): x = v.t
        out.append(v if v.t == x else ex.convert(st, v, x) if not (x[0] == "buf" and v.t[0] == "buf") else v)
    return Val(("tup",) + tuple(o.t for o in out), [l for o in out for l in o.l])
f_make_tuple = f_make_pair
def f_max(ex, st, a, n):
    x, y = ex.ev(st, a[0]), ex.ev(st, a[1]); return Val(x.t, [z3.If(x.z >= y.z, x.z, y.z)])
def f_min(ex, st, a, n):
    x, y = ex.ev(st, a[0]), ex.ev(st, a[1]); return Val(x.t, [z3.If(x.z <= y.z, x.z, y.z)])
def f_to_string(ex, st, a, n): TRUSTED.add("std::to_string"); return Val(STR, [itoa(ex.ev(st, a[0]).z)])
def f_move(ex, st, a, n): return ex.expr(st, a[0])
f_forward = f_move
def f_regex_match(ex, st, a, n):
    TRUSTED.add("std::regex_match"); s = ex.ev(st, a[0]); r = ex.ev(st, a[1]); return mkbool(re_match(s.z, r.z))
def f_regex_escape(ex, st, a, n):
    TRUSTED.add("regex_escape (result matches exactly the given path)"); return Val(STR, [re_escape(ex.ev(st, a[0]).z)])
def f_getpid(ex, st, a, n):
    ex.pid = z3.Int("pid"); return Val(INT, [ex.pid])
def f_kill(ex, st, a, n):
    p = ex.ev(st, a[0]); s = ex.ev(st, a[1]); TRUSTED.add("kill")
    pid = z3.Int("pid")
    if ex.proves(st, z3.And(p.z == pid, s.z == 9)):
        event(st, "kill", [])
        if not ex.mute: ex.kills.append(st.copy())
        raise Killed()
    raise Unsupported("kill with other arguments")
def f_for_each(ex, st, a, n):
    b = ex.ev(st, a[0]); lam = ex.ev(st, a[2])
    raise Unsupported("for_each")
def f_find(ex, st, a, n):
    b = ex.ev(st, a[0])
    if not (isinstance(b, It) and b.kind == "vec"): raise Unsupported("std::find")
    c = container(ex, st, b.cont); x = conv(ex, st, a[2], c.t[1])
    i = fresh_leaf(I, "found"); q = z3.FreshConst(I, "q")
    st.assume(z3.And(i >= b.idx, i <= c.l[0])); st.assume(z3.Implies(i < c.l[0], z3.And([p == r for p, r in zip(vget(c, i).l, x.l)])))
    st.assume(z3.ForAll([q], z3.Implies(z3.And(q >= b.idx, q < i), z3.Not(z3.And([p == r for p, r in zip(vget(c, q).l, x.l)]))), patterns=[z3.Select(c.l[1], q)]))
    return It(b.cont, "vec", idx=i)
def f_remove(ex, st, a, n):
    b = ex.ev(st, a[0]); x = ex.ev(st, a[2])
    if not (isinstance(b, It) and b.kind == "vec"): raise Unsupported("std::remove")
    return ("removed", x.z)
def f_find_first_of(ex, st, a, n):
    b = ex.ev(st, a[0]); p = ex.ev(st, a[2]); c = container(ex, st, b.cont); d = container(ex, st, p.cont)
    i = fresh_leaf(I, "found"); q = z3.FreshConst(I, "q"); r = z3.FreshConst(I, "r"); w = fresh_leaf(I, "w")
    st.assume(z3.And(i >= 0, i <= c.l[0])); st.assume(z3.Implies(i < c.l[0], z3.And(w >= 0, w < d.l[0], z3.Select(c.l[1], i) == z3.Select(d.l[1], w))))
    st.assume(z3.ForAll([q, r], z3.Implies(z3.And(q >= 0, q < i, r >= 0, r < d.l[0]), z3.Select(c.l[1], q) != z3.Select(d.l[1], r)), patterns=[z3.MultiPattern(z3.Select(c.l[1], q), z3.Select(d.l[1], r))]))
    return It(b.cont, "vec", idx=i)
def f_sort(ex, st, a, n):
    b = ex.ev(st, a[0]); c = container(ex, st, b.cont)
    if c.t[0] != "vec" or c.t[1][0] != "int": raise Unsupported("sort")
    w = fresh(c.t, "sorted"); q, r = z3.FreshConst(I, "q"), z3.FreshConst(I, "r"); f = z3.Function(fresh_name("perm"), I, I)
    st.assume(w.l[0] == c.l[0])
    st.assume(z3.ForAll([q, r], z3.Implies(z3.And(0 <= q, q <= r, r < w.l[0]), z3.Select(w.l[1], q) <= z3.Select(w.l[1], r)), patterns=[z3.MultiPattern(z3.Select(w.l[1], q), z3.Select(w.l[1], r))]))
    st.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < w.l[0]), z3.And(f(q) >= 0, f(q) < c.l[0], z3.Select(w.l[1], q) == z3.Select(c.l[1], f(q)))), patterns=[z3.Select(w.l[1], q)]))
    g = z3.Function(fresh_name("place"), I, I)
    st.assume(z3.ForAll([r], z3.Implies(z3.And(0 <= r, r < c.l[0]), z3.And(g(r) >= 0, g(r) < c.l[0], z3.Select(w.l[1], g(r)) == z3.Select(c.l[1], r))), patterns=[z3.Select(c.l[1], r)]))
    ex.write(st, b.cont, w); TRUSTED.add("std::sort"); return None
def f_ceil(ex, st, a, n):
    v = ex.ev(st, a[0]); r = v.z if v.t[0] == "dbl" else z3.ToReal(v.z); return Val(DBL, [z3.ToReal(-z3.ToInt(-r))])
def f_floor(ex, st, a, n):
    v = ex.ev(st, a[0]); r = v.z if v.t[0] == "dbl" else z3.ToReal(v.z); return Val(DBL, [z3.ToReal(z3.ToInt(r))])
def f___assert_fail(ex, st, a, n):
    ex.oblige(st, "assertion holds", False, "safety", n, ("C21", "C19")); raise PathEnd()
def f_strdup(ex, st, a, n): return ex.ev(st, a[0])
def f_free(ex, st, a, n): 
    ex.ev(st, a[0]); return None
def f_malloc(ex, st, a, n):
    s = ex.ev(st, a[0]); b = fresh_leaf(I, "heapbuf"); new_buffer(ex, st, b, s.z); TRUSTED.add("malloc (never fails)"); return Val(BUF, [b, z3.IntVal(0)])
def f_calloc(ex, st, a, n):
    s = ex.ev(st, a[0]); t = ex.ev(st, a[1]); b = fresh_leaf(I, "heapbuf"); TRUSTED.add("calloc (never fails)")
    if is_lit(simp(s.z)) and simp(s.z).as_long() == 1: s, t = t, s
    if not (is_lit(simp(t.z)) and simp(t.z).as_long() == 1): raise Unsupported("calloc of %s" % t.z)
    new_buffer(ex, st, b, s.z, True); return Val(BUF, [b, z3.IntVal(0)])
def f_memcpy(ex, st, a, n):
    d, s, k = [ex.ev(st, x) for x in a]
    check_buf(ex, st, s, k.z, n, "memcpy source"); copy_bytes(ex, st, d, bytes_of(ex, st, s), s.l[1], k.z, n, "memcpy"); return d
def f_memset(ex, st, a, n):
    d = ex.ev(st, a[0]); c = ex.ev(st, a[1]); 
    if isinstance(d, PtrTo):
        v = ex._read(st, d.lv); ex.write(st, d.lv, zero(v.t)); return d
    k = ex.ev(st, a[2])
    if not is_lit(simp(c.z)): raise Unsupported("memset value")
    copy_bytes(ex, st, d, simp(c.z).as_long(), z3.IntVal(0), k.z, n, "memset"); return d
def f_strcmp(ex, st, a, n):
    x, y = ex.ev(st, a[0]), ex.ev(st, a[1]); return Val(INT, [z3.If(x.z == y.z, 0, 1)])
def f_strlen(ex, st, a, n):
    v = ex.ev(st, a[0])
    if not isinstance(v, Val) or v.t != STR: raise Unsupported("strlen of a buffer")
    st.assume(z3.And(slen(v.z) >= 0, slen(v.z) < 2 ** 30)); return Val(ULONG, [slen(v.z)])
def f___errno_location(ex, st, a, n):
    e = ex.ghost(st, "errno", I); st.assume(z3.And(e >= -2**31, e < 2**31)); return PtrTo(LTmp(Val(INT, [e])))

# ------------------------------------------------------------------ system calls over ghost file-system state
def event(st, name, args): st.trace.append((name, list(args)))
def fsc(ex, st, name, sort): return ex.ghost(st, "fs." + name, sort)
def F_INO(ex, st): return fsc(ex, st, "ino", z3.ArraySort(Str, I))         # path -> inode number, 0 when absent
def F_FD(ex, st): return fsc(ex, st, "fd", AII)                            # descriptor -> inode number
def F_SIZE(ex, st): return fsc(ex, st, "size", AII)
def F_DATA(ex, st): return fsc(ex, st, "data", z3.ArraySort(I, AII))
def F_REG(ex, st): return fsc(ex, st, "reg", z3.ArraySort(I, B))
def F_NLINK(ex, st): return fsc(ex, st, "nlink", AII)
def setc(st, name, v): st.heap["fs." + name] = [v]
def outcome(ex, st, name):
    """success or failure of a call (forks); failure sets errno to a positive number"""
    b = fresh_leaf(B, name + "_ok")
    if ex.fork(st, b): return True
    e = fresh_leaf(I, "errno"); st.assume(z3.And(e > 0, e < 4096)); st.heap["errno"] = [e]
    return False
def fd_new(ex, st, ino):
    fd = fresh_leaf(I, "fd"); st.assume(z3.And(fd > 2, fd < 2 ** 31)); setc(st, "fd", z3.Store(F_FD(ex, st), fd, ino))
    op = fsc(ex, st, "isopen", z3.ArraySort(I, B)); st.assume(z3.Not(z3.Select(op, fd))); setc(st, "isopen", z3.Store(op, fd, z3.BoolVal(True)))
    return fd
def bit_and(x, m):
    f = z3.Function("bitand", I, I, I)
    if z3.is_app(x) and x.decl().name() == "bitand" and is_lit(x.arg(1)): m &= x.arg(1).as_long(); x = x.arg(0)
    return f(x, z3.IntVal(m)) if m else z3.IntVal(0)
# directory streams: the k-th entry of an open directory, the position of each stream
dir_at = z3.Function("directory_entry", I, I, I); dir_n = z3.Function("directory_entries", I, I)
def f_opendir(ex, st, a, n):
    p = ex.ev(st, a[0]); TRUSTED.add("opendir/readdir/closedir"); d = fresh_leaf(I, "dir"); t = ("ptr", "DIR")
    if outcome(ex, st, "opendir"):
        st.assume(z3.And(d > 0, dir_n(d) >= 0)); q = z3.FreshConst(I, "q"); st.assume(z3.ForAll([q], dir_at(d, q) > 0, patterns=[dir_at(d, q)]))
        st.heap["dir.pos"] = [z3.Store(ex.ghost(st, "dir.pos", AII), d, 0)]
    else: st.assume(d == 0)
    if "tree" in ex.opts: ex.opts["tree"](ex, st, p.z, d)
    event(st, "opendir", [p.z, d]); return Val(t, [d])
def f_readdir(ex, st, a, n):
    d = ex.ev(st, a[0]); ex.oblige(st, "readdir on an open directory", d.z > 0, "safety", n, ("C21", "C20")); P = ex.ghost(st, "dir.pos", AII); k = z3.Select(P, d.z); more = k < dir_n(d.z)
    st.heap["dir.pos"] = [z3.If(more, z3.Store(P, d.z, k + 1), P)]; return Val(("ptr", "dirent"), [z3.If(more, dir_at(d.z, k), 0)])
def f_closedir(ex, st, a, n):
    d = ex.ev(st, a[0]); ex.oblige(st, "closedir on an open directory", d.z > 0, "safety", n, ("C21", "C20")); event(st, "closedir", [d.z]); return Val(INT, [z3.IntVal(0)])
def f_open(ex, st, a, n):
    p = ex.ev(st, a[0]); fl = ex.ev(st, a[1]); TRUSTED.add("open")
    mode = ex.ev(st, a[2]).z if len(a) > 2 else z3.IntVal(0)
    creat = is_lit(simp(fl.z)) and simp(fl.z).as_long() & 0o100
    if ex.opts.get("open_ok") or outcome(ex, st, "open"):
        ino = z3.Select(F_INO(ex, st), p.z); bit = lambda m: z3.BoolVal(simp(fl.z).as_long() & m != 0) if is_lit(simp(fl.z)) else bit_and(fl.z, m) != 0
        if not z3.is_false(bit(0o100)) and not ex.opts.get("open_ok"):
            new = ino == 0; ni = fresh_leaf(I, "new_inode"); N = F_NLINK(ex, st)          # a new file takes an inode number that no name leads to
            st.assume(z3.Implies(new, z3.And(bit(0o100), ni > 0, z3.Select(N, ni) == 0, z3.Select(F_REG(ex, st), ni)))); st.assume(ino >= 0)
            setc(st, "nlink", z3.If(new, z3.Store(N, ni, 1), N)); setc(st, "ino", z3.If(new, z3.Store(F_INO(ex, st), p.z, ni), F_INO(ex, st)))
            set_size(ex, st, z3.If(new, ni, ino), z3.If(z3.Or(new, bit(0o1000)), 0, z3.Select(F_SIZE(ex, st), z3.If(new, ni, ino))))
            ino = z3.If(new, ni, ino)
        elif not ex.opts.get("open_ok"): st.assume(ino > 0)
        fd = fd_new(ex, st, ino)
        event(st, "open", [p.z, fl.z, mode, fd]); return Val(INT, [fd])
    event(st, "open", [p.z, fl.z, mode, z3.IntVal(-1)]); return mkint(-1)
def f_close(ex, st, a, n):
    fd = ex.ev(st, a[0]); op = fsc(ex, st, "isopen", z3.ArraySort(I, B)); setc(st, "isopen", z3.Store(op, fd.z, z3.BoolVal(False)))
    event(st, "close", [fd.z]); return mkint(0)
def inode_of_fd(ex, st, fd): return z3.Select(F_FD(ex, st), fd)
def rng64(st, e): st.assume(z3.And(e >= 0, e < 2 ** 62))
def f_pread(ex, st, a, n):
    fd, b, k, off = [ex.ev(st, x) for x in a]; TRUSTED.add("pread (returns every byte up to the end of the file)")
    ino = inode_of_fd(ex, st, fd.z); sz = z3.Select(F_SIZE(ex, st), ino); rng64(st, sz)
    r = fresh_leaf(I, "nread"); st.assume(r == z3.If(off.z >= sz, 0, z3.If(sz - off.z < k.z, sz - off.z, k.z)))
    check_buf(ex, st, b, k.z, n, "pread")
    m = ex.mem(st); src = z3.Select(F_DATA(ex, st), ino)
    arr, ax = fresh_range(z3.Select(m, b.l[0]), b.l[1], r, src, off.z, "rd"); st.assume(ax); st.heap["mem"] = [z3.Store(m, b.l[0], arr)]
    event(st, "pread", [fd.z, k.z, off.z, r]); return Val(LONG, [r])
def zero_ext(ex, st, ino, data, sz, off):
    return data
def f_pwrite(ex, st, a, n):
    fd, b, k, off = [ex.ev(st, x) for x in a]; TRUSTED.add("pwrite (writes all bytes)")
    check_buf(ex, st, b, k.z, n, "pwrite")
    do_pwrite(ex, st, fd.z, bytes_of(ex, st, b), b.l[1], k.z, off.z)
    event(st, "pwrite", [fd.z, bytes_of(ex, st, b), b.l[1], k.z, off.z]); return Val(LONG, [k.z])
def do_pwrite(ex, st, fd, src, so, k, off):
    ino = inode_of_fd(ex, st, fd); D = F_DATA(ex, st); S = F_SIZE(ex, st); sz = z3.Select(S, ino); rng64(st, sz)
    arr, ax = fresh_range(z3.Select(D, ino), off, k, src, so, "wr"); st.assume(ax)
    setc(st, "data", z3.Store(D, ino, arr)); setc(st, "size", z3.Store(S, ino, z3.If(z3.And(k > 0, off + k > sz), off + k, sz)))
def f_ftruncate(ex, st, a, n):
    fd, k = ex.ev(st, a[0]), ex.ev(st, a[1]); TRUSTED.add("ftruncate")
    if not ex.opts.get("io_ok", True) and not outcome(ex, st, "ftruncate"): event(st, "ftruncate", [fd.z, k.z, z3.IntVal(-1)]); return mkint(-1)
    set_size(ex, st, inode_of_fd(ex, st, fd.z), k.z); event(st, "ftruncate", [fd.z, k.z, z3.IntVal(0)]); return mkint(0)
def f_truncate(ex, st, a, n):
    p, k = ex.ev(st, a[0]), ex.ev(st, a[1]); TRUSTED.add("truncate")
    set_size(ex, st, z3.Select(F_INO(ex, st), p.z), k.z); event(st, "truncate", [p.z, k.z, z3.IntVal(0)]); return mkint(0)
def set_size(ex, st, ino, k):
    """bytes past the end of a backing file are zero (kept as an invariant of the ghost file system)"""
    D = F_DATA(ex, st); S = F_SIZE(ex, st); old = z3.Select(D, ino); a = fresh_leaf(AII, "tr"); i = z3.FreshConst(I, "i")
    st.assume(z3.ForAll([i], z3.Select(a, i) == z3.If(i < k, z3.Select(old, i), 0), patterns=[z3.Select(a, i)]))
    setc(st, "data", z3.Store(D, ino, a)); setc(st, "size", z3.Store(S, ino, k))
def f_fsync(ex, st, a, n):
    fd = ex.ev(st, a[0]); ok = outcome(ex, st, "fsync"); event(st, "fsync", [fd.z]); return mkint(0 if ok else -1)
def f_fdatasync(ex, st, a, n):
    fd = ex.ev(st, a[0]); ok = outcome(ex, st, "fdatasync"); event(st, "fdatasync", [fd.z]); return mkint(0 if ok else -1)
def f_clock_gettime(ex, st, a, n):
    TRUSTED.add("clock_gettime"); p = ex.ev(st, a[1]); t = fresh(("struct", "timespec"), "now"); ex.note_range(st, t)
    for k, z in zip(("clock.sec", "clock.nsec"), t.l): ex.ghost(st, k, I); st.heap[k] = [z]
    ex.write(st, p.lv, t); event(st, "clock", t.l); return mkint(0)
def stat_fill(ex, st, path, p, name):
    ok = ex.fork(st, z3.Select(F_INO(ex, st), path) > 0) if ex.opts.get("stat_ok") else outcome(ex, st, name)
    if not ok: event(st, name, [path, z3.IntVal(-1), None]); return mkint(-1)
    s = fresh(("struct", "stat"), "st"); ino = z3.Select(F_INO(ex, st), path)
    ex.note_range(st, s)
    st.assume(z3.And(s.l[1] == ino, ino > 0, s.l[2] >= 1, s.l[2] < 2 ** 31 - 2, s.l[2] == z3.Select(F_NLINK(ex, st), ino)))
    sz = z3.Select(F_SIZE(ex, st), ino); st.assume(z3.And(comp(s, 7).z == sz, sz >= 0, sz < 2 ** 62))
    bitand = z3.Function("bitand", I, I, I)
    st.assume((bitand(s.l[3], 0o170000) == 0o100000) == z3.Select(F_REG(ex, st), ino))
    ex.write(st, p.lv, s); event(st, name, [path, z3.IntVal(0), s]); return mkint(0)
def f_lstat(ex, st, a, n):
    p = ex.ev(st, a[0]); b = ex.ev(st, a[1]); TRUSTED.add("lstat"); return stat_fill(ex, st, p.z, b, "lstat")
def f_stat(ex, st, a, n):
    p = ex.ev(st, a[0]); b = ex.ev(st, a[1]); TRUSTED.add("stat"); return stat_fill(ex, st, p.z, b, "stat")
def simple(name, kinds):
    """a call on paths and scalars: records its arguments, may fail"""
    def f(ex, st, a, n):
        TRUSTED.add(name); vs = [ex.ev(st, x) for x in a]
        ls = []
        for v in vs:
            if isinstance(v, Val): ls += [l for l in v.l]
            elif isinstance(v, PtrTo):
                w = ex._read(st, v.lv); ls += list(w.l)
            else: ls.append(None)
        ok = outcome(ex, st, name)
        event(st, name, ls + [z3.IntVal(0 if ok else -1)])
        if ok and name in EFFECT: EFFECT[name](ex, st, vs)
        if kinds == "count":
            r = fresh_leaf(I, name + "_n"); st.assume(z3.And(r >= 0, r <= vs[-1].z)) if name == "readlink" else st.assume(r >= 0)
            if not ok: return mkint(-1, LONG)
            st.trace[-1][1][-1] = r
            if name == "readlink":
                check_buf(ex, st, vs[1], vs[2].z, n, "readlink")
                m = ex.mem(st); st.heap["mem"] = [z3.Store(m, vs[1].l[0], fresh_leaf(AII, "lnk"))]
            return Val(LONG, [r])
        return mkint(0 if ok else -1)
    return f
def eff_rename(ex, st, v):
    """two names of one file: nothing happens (POSIX); the file the new name led to has one name less"""
    m = F_INO(ex, st); N = F_NLINK(ex, st); a, b = z3.Select(m, v[0].z), z3.Select(m, v[1].z); same = a == b
    st.assume(a > 0); st.assume(z3.Implies(b > 0, z3.Select(N, b) >= 1))
    setc(st, "ino", z3.If(same, m, z3.Store(z3.Store(m, v[1].z, a), v[0].z, 0))); setc(st, "nlink", z3.If(z3.Or(same, b == 0), N, z3.Store(N, b, z3.Select(N, b) - 1)))
def eff_unlink(ex, st, v):
    m = F_INO(ex, st); N = F_NLINK(ex, st); a = z3.Select(m, v[0].z); st.assume(z3.And(a > 0, z3.Select(N, a) >= 1))
    setc(st, "ino", z3.Store(m, v[0].z, 0)); setc(st, "nlink", z3.Store(N, a, z3.Select(N, a) - 1))
def eff_link(ex, st, v):
    m = F_INO(ex, st); N = F_NLINK(ex, st); a = z3.Select(m, v[0].z); st.assume(z3.And(a > 0, z3.Select(m, v[1].z) == 0, z3.Select(N, a) >= 1, z3.Select(N, a) < 2 ** 31 - 3))
    setc(st, "ino", z3.Store(m, v[1].z, a)); setc(st, "nlink", z3.Store(N, a, z3.Select(N, a) + 1))
EFFECT = {"rename": eff_rename, "unlink": eff_unlink, "link": eff_link}
for _n in ("access", "mkdir", "rmdir", "symlink", "link", "unlink", "rename", "chmod", "lchown", "chown", "utimensat", "utimes", "lsetxattr", "lremovexattr", "setxattr", "removexattr", "posix_fallocate"):
    globals()["f_" + _n] = simple(_n, "zero")
for _n in ("readlink", "lgetxattr", "llistxattr", "getxattr", "listxattr", "lseek"):
    globals()["f_" + _n] = simple(_n, "count")
def f_pwritev(ex, st, a, n):
    fd = ex.ev(st, a[0]); iov = ex.ev(st, a[1]); cnt = ex.ev(st, a[2]); off = ex.ev(st, a[3]); TRUSTED.add("pwritev")
    h = ex.opts.get("pwritev")
    if h is None: raise Unsupported("pwritev")
    return h(ex, st, fd, iov, cnt, off, n)
