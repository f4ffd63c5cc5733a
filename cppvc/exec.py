"""Symbolic execution of clang AST nodes; generates proof obligations."""
import z3, re, os
from sym import *
import sym

SINGLETON = {"Cache", "CustomCacheEngine", "PageCacheEngine", "LazyFS", "Config"}
ALIAS = {"PageCacheEngine": "CustomCacheEngine"}
RANGE = {}

def is_lit(e): return z3.is_int_value(e)
_qcache = {}
def has_quant(e):
    i = e.get_id()
    r = _qcache.get(i)
    if r is None:
        todo = [e]; seen = set(); r = False
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): r = True; break
            todo.extend(x.children())
        _qcache[i] = (r, e)
        return r
    return r[0]

class Obl:
    __slots__ = ("label", "kind", "hyps", "goal", "where", "props", "fn", "done")
    def __init__(self, label, kind, hyps, goal, where, props, fn, done=False):
        self.label = label; self.kind = kind; self.hyps = hyps; self.goal = goal; self.where = where; self.props = props; self.fn = fn; self.done = done

class Killed(Exception): pass
class PathEnd(Exception): pass

class Out:
    """outcome of a statement list: kind in fall, ret, brk, cont, kill"""
    __slots__ = ("k", "st", "v")
    def __init__(self, k, st, v=None): self.k = k; self.st = st; self.v = v

def is_for_each(n):
    if n.get("kind") != "CallExpr": return False
    f = n["inner"][0]
    while f.get("inner"): f = f["inner"][0]
    return f.get("kind") == "DeclRefExpr" and f["referencedDecl"].get("name") == "for_each"
def has_return(n): return n.get("kind") == "ReturnStmt" or any(has_return(x) for x in n.get("inner", ()))
_loopids = {}
def loop_numbers(fn):
    """loops of a function, numbered in source order"""
    if fn is None or fn.body is None: return {}
    r = _loopids.get(fn.node["id"])
    if r is None:
        r = {}; todo = [fn.body]
        while todo:
            n = todo.pop()
            if n.get("kind") in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt") or is_for_each(n): r[n["id"]] = len(r)
            todo.extend(reversed(n.get("inner", ())))
        _loopids[fn.node["id"]] = r
    return r
class Frame:
    def __init__(self, fn, this, spec=None): self.fn = fn; self.this = this; self.spec = spec; self.loopids = loop_numbers(fn)

class Exec:
    MAXOUT = 400
    def __init__(self, prog, contracts, lib, fname, consts=None, opts=None):
        self.prog = prog; self.contracts = contracts; self.lib = lib; self.fname = fname
        self.obls = []; self.created = {}; self.mute = 0; self.frames = []; self.depth = 0
        self.consts = consts or {}; self.opts = opts or {}
        self.pref = None; self.pos = 0; self.widths = None
        self.kills = []      # states at kill()
        self.celltypes = {}; self.quick = 0; self.inlined = set(); self.called = set(); self.globals_ax = []
        self.files = {}
        self.notes = set()
        self.pcbase = 0

    # ------------------------------------------------------------ solver helpers
    def _solver(self, st, extra):
        s = z3.Solver(); s.set("timeout", 400)
        for f in st.pc:
            if not has_quant(f): s.add(f)
        for f in extra: s.add(f)
        return s
    def feasible(self, st, *extra):
        for e in extra:
            if z3.is_false(z3.simplify(e)): return False
        self.quick += 1
        return self._solver(st, extra).check() != z3.unsat
    def proves(self, st, goal):
        g = z3.simplify(goal)
        if z3.is_true(g): return True
        if z3.is_false(g): return False
        self.quick += 1
        return self._solver(st, [z3.Not(goal)]).check() == z3.unsat

    def line(self, node):
        r = node.get("range", {}).get("begin", {}) if node else {}
        off = r.get("offset", r.get("expansionLoc", {}).get("offset"))
        fn = self.frames[-1].fn if self.frames else None
        if off is None or fn is None: return "?"
        from frontend import UNITS
        src = UNITS[fn.unit][0]
        if src not in self.files: self.files[src] = open(os.path.join(self.prog.repo, src), "rb").read()
        return "%s:%d" % (os.path.basename(src), self.files[src].count(b"\n", 0, off) + 1)

    def oblige(self, st, label, goal, kind, node=None, props=()):
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        if not self.mute:
            done = False
            if z3.is_true(z3.simplify(goal)): done = True
            elif kind in ("safety", "lock") and self.proves(st, goal): done = True
            self.obls.append(Obl(label, kind, list(st.pc) if not done else None, goal if not done else None, self.line(node), props, self.fname, done))
        st.assume(goal)

    # ------------------------------------------------------------ choice points
    def choose(self, n):
        if n == 1: return 0
        if self.pref is None: raise Unsupported("choice outside of an expression context")
        if self.pos < len(self.pref): c = self.pref[self.pos]
        else: c = 0; self.pref.append(0); self.widths.append(n)
        self.widths[self.pos] = n
        self.pos += 1
        return c
    def fork(self, st, cond):
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        t = self.feasible(st, cond); f = self.feasible(st, z3.Not(cond))
        if t and not f: return True
        if f and not t: return False
        if not t and not f: raise PathEnd()
        if self.choose(2) == 0: st.assume(cond); return True
        st.assume(z3.Not(cond)); return False
    def multi(self, st, fn):
        """all (state, value) results of evaluating fn on st"""
        save = (self.pref, self.pos, self.widths); res = []; kills = []
        pref = []; widths = []
        first = True
        while True:
            s2 = st.copy(); self.pref = pref; self.pos = 0; self.widths = widths
            nob = len(self.obls)
            try:
                v = fn(s2); res.append((s2, v))
            except PathEnd: pass
            except Killed: pass
            except Exception:
                self.pref, self.pos, self.widths = save; raise
            first = False
            if len(res) > self.MAXOUT: self.pref, self.pos, self.widths = save; raise Unsupported("too many paths")
            # next
            while pref and pref[-1] + 1 >= widths[-1]: pref.pop(); widths.pop()
            if not pref: break
            pref[-1] += 1
        self.pref, self.pos, self.widths = save
        return res

    # ------------------------------------------------------------ cells
    def cell_type(self, cls, field):
        cls = ALIAS.get(cls, cls)
        key = (cls, field)
        if key in FIELD_TYPE: return FIELD_TYPE[key]
        c = cls
        while True:
            f = self.prog.fields.get(c, {}).get(field)
            if f: break
            b = self.prog.bases.get(c) or ()
            if not b: raise Unsupported("unknown field %s::%s" % (cls, field))
            c = b[0]
        t = parse_type(f[0])[0]
        FIELD_TYPE[key] = t
        return t
    def cell_name(self, cls, field): return "%s.%s" % (ALIAS.get(cls, cls), field)
    def cell(self, st, name, t, indexed):
        l = st.heap.get(name)
        if l is None:
            l = [z3.Const("%s@%d" % (name, i), z3.ArraySort(I, s) if indexed else s) for i, s in enumerate(leaves(t))]
            st.heap[name] = l; self.created[name] = l
        return l
    def ghost(self, st, name, sort):
        l = st.heap.get(name)
        if l is None:
            l = [z3.Const(name + "@0", sort)]; st.heap[name] = l; self.created[name] = l
        return l[0]

    # ------------------------------------------------------------ l-value access
    def note_range(self, st, v):
        """machine integers read from memory are within their type"""
        if v.t[0] == "int":
            e = v.l[0]
            if is_lit(e): return
            k = ("r", e.get_id(), v.t)
            if k in st.seen: return
            st.seen.add(k); st.seen.add(e) if False else None
            self._keep.append(e)
            st.assume(in_range(e, v.t))
        elif v.t[0] in ("tup", "struct"):
            n = len(v.t) - 1 if v.t[0] == "tup" else len(STRUCTS[v.t[1]])
            for i in range(n): self.note_range(st, comp(v, i))
        elif v.t[0] == "vec":
            k = ("v", v.l[0].get_id())
            if k not in st.seen and not is_lit(v.l[0]):
                st.seen.add(k); self._keep.append(v.l[0]); st.assume(z3.And(v.l[0] >= 0, v.l[0] < 2**62))
    _keep = []
    def read(self, st, lv):
        v = self._read(st, lv)
        self.note_range(st, v) if isinstance(v, Val) else None
        return v
    def _read(self, st, lv):
        if isinstance(lv, LVar):
            v = st.env.get(lv.slot)
            if v is None: raise Unsupported("unbound variable")
            return v
        if isinstance(lv, LCell):
            cls, f = lv.cell.split(".", 1); t = self.cell_type(cls, f)
            l = self.cell(st, lv.cell, t, lv.ref is not None)
            return Val(t, l if lv.ref is None else [z3.Select(x, lv.ref) for x in l])
        if isinstance(lv, LComp): return comp(self._read(st, lv.base), lv.i)
        if isinstance(lv, LMapAt): return msel(self._read(st, lv.base), lv.k)
        if isinstance(lv, LVecAt): return vget(self._read(st, lv.base), lv.i)
        if isinstance(lv, LMem): return Val(CHAR, [z3.Select(z3.Select(self.mem(st), lv.buf), lv.off)])
        if isinstance(lv, LOpt): b = self._read(st, lv.base); return Val(b.t[1], b.l[1:])
        if isinstance(lv, (LKey, LTmp)): return lv.v
        if isinstance(lv, LElem):
            m = self._read(st, lv.cont); return Val(("tup", m.t[1], m.t[2]), [lv.k] + msel(m, lv.k).l)
        if isinstance(lv, LObj):
            if lv.cls in STRUCTS:
                return Val(("struct", lv.cls), [x for f, _ in STRUCTS[lv.cls] for x in self._read(st, LCell(self.cell_name(lv.cls, f), lv.ref)).l])
            return lv
        raise Unsupported("read of %r" % lv)
    def write(self, st, lv, v):
        if isinstance(lv, LVar): st.env[lv.slot] = v; return
        if isinstance(lv, LCell):
            cls, f = lv.cell.split(".", 1); t = self.cell_type(cls, f)
            l = self.cell(st, lv.cell, t, lv.ref is not None)
            st.heap[lv.cell] = list(v.l) if lv.ref is None else [z3.Store(x, lv.ref, y) for x, y in zip(l, v.l)]
            return
        if isinstance(lv, LComp): self.write(st, lv.base, comp_set(self._read(st, lv.base), lv.i, v)); return
        if isinstance(lv, LMapAt):
            m = self._read(st, lv.base); self.write(st, lv.base, Val(m.t, [m.l[0]] + [z3.Store(a, lv.k, x) for a, x in zip(m.l[1:], v.l)])); return
        if isinstance(lv, LVecAt): self.write(st, lv.base, vset(self._read(st, lv.base), lv.i, v)); return
        if isinstance(lv, LMem):
            m = self.mem(st); st.heap["mem"] = [z3.Store(m, lv.buf, z3.Store(z3.Select(m, lv.buf), lv.off, v.z))]; return
        if isinstance(lv, LOpt): b = self._read(st, lv.base); self.write(st, lv.base, Val(b.t, [z3.BoolVal(True)] + v.l)); return
        if isinstance(lv, LTmp): lv.v = v; return
        if isinstance(lv, LObj) and lv.cls in STRUCTS:
            for i, (f, _) in enumerate(STRUCTS[lv.cls]): self.write(st, LCell(self.cell_name(lv.cls, f), lv.ref), comp(v, i))
            return
        raise Unsupported("write to %r" % lv)
    def mem(self, st): return self.ghost(st, "mem", z3.ArraySort(I, z3.ArraySort(I, I)))
    def buflen(self, st): return self.ghost(st, "buflen", z3.ArraySort(I, I))
    def rv(self, st, x):
        if isinstance(x, LV):
            if isinstance(x, LObj) and x.cls not in STRUCTS: return x
            return self.read(st, x)
        return x
    def ev(self, st, node): return self.rv(st, self.expr(st, node))
    def cond(self, st, node):
        return self.truth(st, self.ev(st, node))
    def truth(self, st, v):
        if isinstance(v, PtrTo): return z3.Not(v.null)
        if isinstance(v, LObj): return z3.BoolVal(True) if v.ref is None else v.ref != 0
        if not isinstance(v, Val): raise Unsupported("condition of %r" % (v,))
        if v.t[0] == "bool": return v.z
        if v.t[0] in ("int", "ptr"): return v.z != 0
        if v.t[0] == "buf": return v.l[0] != 0
        if v.t == STR and z3.is_const(v.z) and v.z.decl().name().startswith("str:"): return z3.BoolVal(True)          # a string literal is not null
        raise Unsupported("condition of type %r" % (v.t,))

    # ------------------------------------------------------------ statements
    def block(self, sts, nodes):
        """sts: list of states; runs the statements; returns outcomes"""
        outs = []; cur = sts
        for n in nodes:
            nxt = []
            for s in cur:
                for o in self.stmt(s, n):
                    (nxt if o.k == "fall" else outs).append(o.st if o.k == "fall" else o)
            cur = self.merge_states(nxt)
            if len(cur) + len(outs) > self.MAXOUT: raise Unsupported("too many paths")
            if not cur: break
        return outs + [Out("fall", s) for s in cur]

    def stmt(self, st, n):
        k = n.get("kind")
        m = getattr(self, "s_" + k, None) if k else None
        if k is None: return [Out("fall", st)]
        if m: return m(st, n)
        c = n
        while c.get("kind") in ("ExprWithCleanups", "ImplicitCastExpr") and c.get("inner"): c = c["inner"][0]
        if is_for_each(c): return self.s_for_each(st, c)
        return [Out("fall", s) for s, _ in self.multi(st, lambda s: self.expr(s, n))]
    def e_PyExpr(self, st, n): return n["fn"](st)
    def s_for_each(self, st, n):
        """std::for_each (begin, end, lambda): a loop over the range with the lambda's body"""
        args = n["inner"][1:]; lam = args[2]
        while lam.get("kind") != "LambdaExpr":
            if not lam.get("inner"): raise Unsupported("for_each without a lambda")
            lam = lam["inner"][0]
        op = next((m for r in lam["inner"] if r.get("kind") == "CXXRecordDecl" for m in r.get("inner", ()) if m.get("kind") == "CXXMethodDecl" and m.get("name") == "operator()"), None)
        par = next((x for x in (op or {}).get("inner", ()) if x.get("kind") == "ParmVarDecl"), None); body = next((x for x in (op or {}).get("inner", ()) if x.get("kind") == "CompoundStmt"), None)
        if body is None: body = next((x for x in lam["inner"] if x.get("kind") == "CompoundStmt"), None)
        if par is None or body is None or has_return(body): raise Unsupported("for_each lambda")
        slot, pslot = "it:" + n["id"], par["id"]; self.names[slot] = "__begin1"; self.names[pslot] = par.get("name"); before = set(st.env)
        b, e = self.ev(st, args[0]), self.ev(st, args[1])
        if not isinstance(b, It) or not isinstance(e, It): raise Unsupported("for_each range")
        st.env[slot] = b
        if not par["type"]["qualType"].rstrip().endswith("&"): raise Unsupported("for_each parameter by value")
        def bind(s): s.env["&" + pslot] = self.lib.iter_deref(self, s, s.env[slot], n); s.env[pslot] = None; return Val(BOOL, [z3.BoolVal(True)])
        cond = {"kind": "PyExpr", "fn": lambda s: Val(BOOL, [z3.Not(self.lib.iter_eq(self, s, s.env[slot], self.lib.end_it(self, s, b.cont)))])}
        inc = {"kind": "PyExpr", "fn": lambda s: self.lib.iter_inc(self, s, LVar(slot), s.env[slot], "++", False, n)}
        outs = self.loop(st, n, cond, inc, {"kind": "CompoundStmt", "inner": [{"kind": "PyExpr", "fn": bind}] + list(body.get("inner", ()))}, None)
        for o in outs: self.leave_scope(o.st, before)
        return outs

    def s_NullStmt(self, st, n): return [Out("fall", st)]
    def s_CompoundStmt(self, st, n):
        before = set(st.env)
        outs = self.block([st], n.get("inner", ()))
        for o in outs: self.leave_scope(o.st, before)
        return outs
    def leave_scope(self, st, before):
        # RAII: locks declared in this scope are released in reverse order
        for slot in [x for x in st.env if x not in before][::-1]:
            v = st.env[slot]
            if isinstance(v, Lock) and v.owned: self.lib.lock_release(self, st, v.mtx, v.shared, None)
            if not (isinstance(slot, str) and slot.startswith("$")): del st.env[slot]
    def s_DeclStmt(self, st, n):
        cur = [st]
        for d in n.get("inner", ()):
            if d.get("kind") not in ("VarDecl",): continue
            nxt = []
            for s in cur: nxt += [r[0] for r in self.multi(s, lambda s2, d=d: self.vardecl(s2, d))]
            cur = nxt
        return [Out("fall", s) for s in cur]
    def vardecl(self, st, d):
        slot = d["id"]; self.names = getattr(self, "names", {}); self.names[slot] = d.get("name")
        ty = d["type"]; init = next((x for x in d.get("inner", ()) if x.get("kind") and not x["kind"].endswith(("Attr", "Comment", "Decl"))), None)
        qt = ty.get("qualType", ""); ds = ty.get("desugaredQualType", qt)
        isref = qt.rstrip().endswith("&")
        if d.get("storageClass") == "static":
            v = self.ev(st, init); st.env[slot] = v; return
        if init is None or d.get("init") is None and init.get("kind") == "CXXConstructExpr" and not init.get("inner") and False:
            t = self.var_type(qt, ds)
            if t[0] == "arr": st.env[slot] = self.new_array(st, t, d); return
            if t[0] in ("lock", "opaque", "obj"): raise Unsupported("uninitialised variable of type %s" % qt)
            st.env[slot] = empty(t) if t[0] not in ("int", "bool", "ptr", "buf", "dbl", "struct") else fresh(t, d.get("name", "v"))
            if t[0] in ("int", "struct"): self.note_range(st, st.env[slot])
            return
        if isref:
            x = self.expr(st, init)
            if isinstance(x, Val) or isinstance(x, LTmp): st.env[slot] = x if isinstance(x, Val) else x.v
            elif isinstance(x, LV) and not isinstance(x, LObj): st.env["&" + slot] = x; st.env[slot] = None
            else: st.env[slot] = x
            return
        t = None
        try: t = self.var_type(qt, ds)
        except Unsupported: pass
        if t and t[0] == "arr":
            st.env[slot] = self.new_array(st, t, d)
            return
        self.hint = t
        if t and t[0] == "struct" and init.get("kind") == "CXXConstructExpr" and not init.get("inner"):
            st.env[slot] = fresh(t, d.get("name", "v")); self.note_range(st, st.env[slot])
            ctor = self.prog.fn(t[1] + "::" + t[1], 0)
            if ctor: self.inline(st, ctor, PtrTo(LVar(slot)), [])
            return
        v = self.construct_hint(st, init, t)
        if isinstance(v, Val) and t and t[0] not in ("opaque", "obj") and v.t != t: v = self.convert(st, v, t)
        st.env[slot] = v
        st.env.pop("&" + slot, None)
    def construct_hint(self, st, init, t):
        old = getattr(self, "_hint", None); self._hint = t
        try: return self.ev(st, init)
        finally: self._hint = old
    def var_type(self, qt, ds):
        try:
            t = parse_type(ds)[0]
            if t[0] not in ("opaque", "obj"): return t
        except Unsupported: pass
        return parse_type(qt)[0]
    def new_array(self, st, t, d):
        # a local array: a fresh buffer (char) or a fresh vector of elements
        if t[1] == CHAR:
            b = fresh_leaf(I, "stk_" + d.get("name", "a"))
            if t[2].isdigit(): n = z3.IntVal(int(t[2]))
            else:
                sz = [x for x in d.get("inner", ()) if x.get("kind")]
                n = None
                m = re.fullmatch(r"\w+", t[2])
                if m:
                    for s2, v in st.env.items():
                        if self.names.get(s2) == t[2] and isinstance(v, Val): n = v.z
                if n is None: raise Unsupported("array bound " + t[2])
            self.lib.new_buffer(self, st, b, n)
            return Val(BUF, [b, z3.IntVal(0)])
        v = fresh(("vec", t[1]), d.get("name", "arr"))
        n = int(t[2]) if t[2].isdigit() else None
        if n is None:
            for s2, w in st.env.items():
                if self.names.get(s2) == t[2] and isinstance(w, Val): n = w.z
            if n is None: raise Unsupported("array bound " + t[2])
        else: n = z3.IntVal(n)
        v.l[0] = n
        return v

    def s_IfStmt(self, st, n):
        inner = n["inner"]; i = 0; outs = []
        if n.get("hasInit"):
            r = self.stmt(st, inner[0]); i = 1; st = r[0].st
        if n.get("hasVar"): raise Unsupported("if with declaration")
        c, th = inner[i], inner[i + 1]; el = inner[i + 2] if len(inner) > i + 2 else None
        for s, cv in self.multi(st, lambda s: self.cond(s, c)):
            cs = z3.simplify(cv); base = len(s.pc)
            pos = [] if z3.is_false(cs) else [True]; neg = [] if z3.is_true(cs) else [False]
            r = []
            for b in pos + neg:
                s2 = s.copy(); f = cv if b else z3.Not(cv)
                if not (z3.is_true(cs) or z3.is_false(cs)):
                    if not self.feasible(s2, f): continue
                    s2.pc.append(f)
                if b: r += self.stmt(s2, th)
                elif el is not None: r += self.stmt(s2, el)
                else: r.append(Out("fall", s2))
            f = [o.st for o in r if o.k == "fall"]
            outs += [o for o in r if o.k != "fall"]
            outs += [Out("fall", x) for x in self.merge_states(f)]
        return outs

    def s_ReturnStmt(self, st, n):
        inner = n.get("inner", ())
        if not inner: return [Out("ret", st, None)]
        old = getattr(self, "_hint", None)
        try: self._hint = parse_type(self.frames[-1].fn.ret)[0] if self.frames[-1].fn.ret not in ("auto",) else None
        except Unsupported: self._hint = None
        h = self._hint
        def f(s):
            self._hint = h
            v = self.ev(s, inner[0])
            if isinstance(v, Val) and h and h[0] not in ("opaque", "obj", "void") and v.t != h: v = self.convert(s, v, h)
            return v
        r = [Out("ret", s, v) for s, v in self.multi(st, f)]
        self._hint = old
        return r
    def s_BreakStmt(self, st, n): return [Out("brk", st)]
    def s_ContinueStmt(self, st, n): return [Out("cont", st)]
    def s_CXXTryStmt(self, st, n):
        # nothing in the verified subset throws: throwing calls are safety obligations
        return self.stmt(st, n["inner"][0])

    # ------------------------------------------------------------ merging
    def merge_states(self, sts):
        if len(sts) < 2: return sts
        res = [sts[0]]
        for s in sts[1:]:
            m = None
            for i, r in enumerate(res):
                m = self.merge(r, s)
                if m: res[i] = m; break
            if not m: res.append(s)
        return res
    def merge(self, a, b):
        return self.merge_out(a, b, None, None)[0] if self.mergeable(a, b) else None
    def mergeable(self, a, b):
        if len(a.trace) != len(b.trace) or any(x is not y for x, y in zip(a.trace, b.trace)): return False
        if a.locks != b.locks: return False
        for k in set(a.env) | set(b.env):
            x, y = a.env.get(k), b.env.get(k)
            if x is y: continue
            if isinstance(x, Val) and isinstance(y, Val):
                if x.t != y.t: return False
                if all(p.eq(q) for p, q in zip(x.l, y.l)): continue
                if x.t[0] in ("map", "set") and not self.opts.get("merge_arrays"): return False
                continue
            if isinstance(x, It) and isinstance(y, It) and x.same(y): continue
            if isinstance(x, PtrTo) and isinstance(y, PtrTo) and x.lv is y.lv: continue
            if isinstance(x, Lock) and isinstance(y, Lock) and (x.mtx, x.shared, x.owned) == (y.mtx, y.shared, y.owned): continue
            return False
        if not self.opts.get("merge_arrays"):
            for k in set(a.heap) | set(b.heap):
                x, y = a.heap.get(k), b.heap.get(k)
                if x is None or y is None: continue
                if not all(p.eq(q) for p, q in zip(x, y)): return False
        return True
    def merge_out(self, a, b, va, vb):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]: n += 1
        fa, fb = a.pc[n:], b.pc[n:]
        s = State(); s.pc = a.pc[:n]; s.seen = a.seen & b.seen; s.trace = list(a.trace); s.locks = dict(a.locks)
        c = z3.And(fa) if fa else z3.BoolVal(True)
        if fa and fb and z3.is_not(fb[0]) and fb[0].arg(0).eq(fa[0]):
            c = fa[0]
            r1, r2 = fa[1:], fb[1:]
            if r1: s.pc.append(z3.Implies(c, z3.And(r1)))
            if r2: s.pc.append(z3.Implies(z3.Not(c), z3.And(r2)))
        elif fa and fb and z3.is_not(fa[0]) and fa[0].arg(0).eq(fb[0]):
            c = fa[0]
            r1, r2 = fa[1:], fb[1:]
            if r1: s.pc.append(z3.Implies(c, z3.And(r1)))
            if r2: s.pc.append(z3.Implies(z3.Not(c), z3.And(r2)))
        else:
            if fa or fb: s.pc.append(z3.Or(c, z3.And(fb) if fb else z3.BoolVal(True)))
        for k in set(a.env) | set(b.env):
            x, y = a.env.get(k), b.env.get(k)
            if isinstance(x, Val) and isinstance(y, Val): s.env[k] = x if x is y else ite(c, x, y)
            elif isinstance(x, PtrTo) and x is not y and isinstance(y, PtrTo): s.env[k] = PtrTo(x.lv, z3.If(c, x.null, y.null))
            else: s.env[k] = x if k in a.env else y
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x is None or y is None: s.heap[k] = x or y     # first pass only: in the pass that counts every cell exists from the start
            else: s.heap[k] = [ite_leaf(c, p, q) for p, q in zip(x, y)]
        v = None
        if va is not None or vb is not None:
            if isinstance(va, Val) and isinstance(vb, Val): v = va if va is vb else ite(c, va, vb)
            elif va is vb: v = va
        return s, v

    # ------------------------------------------------------------ loops
    def s_ForStmt(self, st, n):
        init, _, cond, inc, body = n["inner"]
        before = set(st.env); outs = []
        r = self.stmt(st, init) if init.get("kind") else [Out("fall", st)]
        for o in r:
            outs += self.loop(o.st, n, cond if cond.get("kind") else None, inc if inc.get("kind") else None, body, None)
        for o in outs: self.leave_scope(o.st, before)
        return outs
    def s_WhileStmt(self, st, n):
        inner = n["inner"]
        return self.loop(st, n, inner[-2], None, inner[-1], None)
    def s_CXXForRangeStmt(self, st, n):
        inner = n["inner"]; before = set(st.env)
        # init, range, begin, end, cond, inc, loopvar, body
        cur = [st]
        for d in inner[0:4]:
            if d.get("kind") == "DeclStmt":
                cur = [o.st for s in cur for o in self.s_DeclStmt(s, d)]
        outs = []
        for s in cur: outs += self.loop(s, n, inner[4], inner[5], inner[7], inner[6])
        for o in outs: self.leave_scope(o.st, before)
        return outs

    def iteration(self, st, cond, var, body, inc):
        """one iteration from st under cond; returns outcomes (cont folded into fall, inc applied)"""
        outs = []; res = []
        before = set(st.env)
        cur = [st]
        if var is not None: cur = [o.st for s in cur for o in self.s_DeclStmt(s, var)]
        for s in cur:
            for o in self.stmt(s, body):
                if o.k in ("fall", "cont"):
                    self.leave_scope(o.st, before)
                    if inc is not None:
                        for s2, _ in self.multi(o.st, lambda s3: self.expr(s3, inc)): res.append(Out("fall", s2))
                    else: res.append(Out("fall", o.st))
                else:
                    if o.k == "brk": self.leave_scope(o.st, before)
                    res.append(o)
        return res

    def loop(self, st, node, cond, inc, body, var):
        fr = self.frames[-1]
        no = fr.loopids.get(node["id"], -1)
        spec = fr.spec.loops.get(no) if fr.spec is not None and getattr(fr.spec, "loops", None) else None
        if spec is None and fr.fn is not None:
            lib_spec = self.contracts.get((fr.fn.cls + "::" if fr.fn.cls else "") + fr.fn.name)
            if lib_spec is not None and getattr(lib_spec, "loops", None): spec = lib_spec.loops.get(no)
        if spec == "search": return self.loop_search(st, node, cond, inc, body, var)
        if spec is not None and not (hasattr(spec, "applies") and not spec.applies(self, st)):
            return self.loop_inv(st, node, cond, inc, body, var, spec, no)
        r = self.loop_unroll(st, node, cond, inc, body, var)
        if r is not None: return r
        return self.loop_search(st, node, cond, inc, body, var)

    def loop_unroll(self, st, node, cond, inc, body, var):
        """complete unrolling: succeeds only when the loop is exhausted within the limit on every path"""
        limit = self.opts.get("unroll", 6); mark = len(self.obls); outs = []; cur = [st]
        for it in range(limit + 1):
            nxt = []
            for s in cur:
                for s2, c in self.multi(s, lambda x: self.cond(x, cond) if cond is not None else z3.BoolVal(True)):
                    cs = z3.simplify(c)
                    if not z3.is_true(cs) and self.feasible(s2, z3.Not(c)):
                        s3 = s2.copy(); s3.assume(z3.Not(c)); outs.append(Out("fall", s3))
                    if not z3.is_false(cs) and self.feasible(s2, c):
                        if it == limit or (it >= 1 and not is_small(self, s2, cond)): del self.obls[mark:]; return None
                        s3 = s2.copy(); s3.assume(c)
                        for o in self.iteration(s3, cond, var, body, inc):
                            if o.k == "fall": nxt.append(o.st)
                            elif o.k == "brk": outs.append(Out("fall", o.st))
                            else: outs.append(o)
            cur = self.merge_states(nxt)
            if not cur: break
        if cur: del self.obls[mark:]; return None
        f = self.merge_states([o.st for o in outs if o.k == "fall"])
        return [o for o in outs if o.k != "fall"] + [Out("fall", s) for s in f]

    def changed(self, a, b):
        """slots and cells that differ"""
        ch = set()
        for k in set(a.env) & set(b.env):
            x, y = a.env[k], b.env[k]
            if x is y: continue
            if isinstance(x, Val) and isinstance(y, Val) and x.t == y.t and all(p.eq(q) for p, q in zip(x.l, y.l)): continue
            if isinstance(x, It) and isinstance(y, It) and x.same(y): continue
            ch.add(("env", k))
        for k in set(a.heap) | set(b.heap):
            x, y = a.heap.get(k), b.heap.get(k)
            if x is None or y is None: continue
            if not all(p.eq(q) for p, q in zip(x, y)): ch.add(("heap", k))
        if len(a.trace) != len(b.trace): ch.add(("trace", ""))
        if a.locks != b.locks: ch.add(("locks", ""))
        return ch
    def havoc(self, st, mod, tag):
        for kind, k in sorted(mod, key=lambda m: (m[0] != "heap", isinstance(st.env.get(m[1]), It), str(m[1]) if m[0] == "heap" else list(self.names).index(m[1]) if m[1] in self.names else -1)):   # containers before their iterators
            if kind == "env":
                v = st.env[k]
                if isinstance(v, Val):
                    st.env[k] = fresh(v.t, (self.names.get(k) or "v") + "_" + tag)
                    # the array base of pointers walking in one buffer is kept by specs when needed
                    self.note_range(st, st.env[k])
                elif isinstance(v, It): st.env[k] = self.lib.havoc_iter(self, st, v, tag)
                else: raise Unsupported("loop modifies %r" % (v,))
            elif kind == "heap":
                st.heap[k] = [fresh_leaf(x.sort(), k + "_" + tag) for x in st.heap[k]]
            elif kind == "locks": raise Unsupported("loop changes the set of held locks")
    def loop_mods(self, st, cond, inc, body, var):
        mod = set(); self.mute += 1
        try:
            for rounds in range(6):
                s = st.copy(); self.havoc(s, mod, "d")
                new = set(mod)
                ok = False
                for s2, c in self.multi(s, lambda x: self.cond(x, cond) if cond is not None else z3.BoolVal(True)):
                    if not self.feasible(s2, c): continue
                    s2.assume(c); s0 = s2.copy()
                    for o in self.iteration(s2, cond, var, body, inc):
                        if o.k in ("fall",): new |= self.changed(s, o.st)
                if new == mod: return mod
                mod = new
            raise Unsupported("loop frame does not stabilise")
        finally: self.mute -= 1

    def loop_inv(self, st, node, cond, inc, body, var, spec, no):
        mod = self.loop_mods(st, cond, inc, body, var)
        if ("trace", "") in mod: mod.discard(("trace", "")); self.notes.add("trace of loop %d abstracted" % no)
        for k in getattr(spec, "ghosts", ()): mod = mod | {("heap", k)}; st.heap[k]
        entry = st
        L = LoopCtx(self, entry, entry, mod, no)
        for lab, f, props in norm(spec.inv(L)): self.oblige(st, "loop%d-init:%s" % (no, lab), f, "inv", node, props)
        h = st.copy(); self.havoc(h, mod, "L%d" % no)
        L2 = LoopCtx(self, entry, h, mod, no)
        for lab, f, props in norm(spec.inv(L2)): h.assume(f)
        outs = []
        exits = []
        for s2, c in self.multi(h, lambda x: self.cond(x, cond) if cond is not None else z3.BoolVal(True)):
            if self.feasible(s2, c):
                s3 = s2.copy(); s3.assume(c)
                if hasattr(spec, "step"):
                    for f in spec.step(LoopCtx(self, entry, s3, mod, no)): s3.assume(f)
                for o in self.iteration(s3, cond, var, body, inc):
                    if o.k == "fall":
                        L3 = LoopCtx(self, entry, o.st, mod, no); L3.prev = LoopCtx(self, entry, s3, mod, no)
                        if hasattr(spec, "ghost"): spec.ghost(L3)          # assignments to ghost cells at the end of an iteration
                        for lab, f, props in norm(spec.inv(L3)): self.oblige(o.st, "loop%d-preserve:%s" % (no, lab), f, "inv", node, props)
                    elif o.k == "brk": exits.append(o.st)
                    else: outs.append(o)
            if self.feasible(s2, z3.Not(c)):
                s4 = s2.copy(); s4.assume(z3.Not(c)); exits.append(s4)
        return outs + [Out("fall", s) for s in self.merge_states(exits)]

    def loop_search(self, st, node, cond, inc, body, var):
        """a loop whose completed iterations change nothing but the iterator:
        either some element leaves the loop, or every element completes an iteration"""
        mod = self.loop_mods(st, cond, inc, body, var)
        its = [k for kind, k in mod if kind == "env" and isinstance(st.env.get(k), It)]
        idx = []
        if len(its) != 1 or len(mod) != 1: raise Unsupported("loop without invariant in %s (modifies %s)" % (self.frames[-1].fn.name, sorted(str(self.names.get(k, k)) for _, k in mod)))
        slot = its[0]; it0 = st.env[slot]
        h = st.copy(); it = self.lib.havoc_iter(self, h, it0, "S"); h.env[slot] = it
        base = len(h.pc)
        outs = []; falls = []; exits = []
        elem = it.key if it.kind != "vec" else it.idx
        for s2, c in self.multi(h, lambda x: self.cond(x, cond)):
            if not self.feasible(s2, c): continue
            s3 = s2.copy(); s3.assume(c)
            for o in self.iteration(s3, cond, var, body, inc):
                if o.k == "fall": falls.append(o.st)
                elif o.k == "brk": exits.append(o)
                else: exits.append(o)
        suff = []
        for s in falls:
            f = [x for x in s.pc[base:]]
            suff.append(z3.And(f) if f else z3.BoolVal(True))
        allf = z3.Or(suff) if suff else z3.BoolVal(False)
        # symbols introduced during the body other than the element are existential
        okay = [v for v in consts_of(allf) if "!" in v.decl().name()]
        hc = set(c.decl().name() for f in h.pc for c in consts_of(f)) | set(c.decl().name() for l in h.heap.values() for x in l for c in consts_of(x))
        for v in h.env.values():
            if isinstance(v, Val): hc |= set(c.decl().name() for x in v.l for c in consts_of(x))
        intro = [v for v in okay if v.decl().name() not in hc and not v.eq(elem)]
        dom = self.lib.iter_domain(self, h, it)
        q = z3.FreshConst(elem.sort(), "e")
        bodyf = z3.substitute(allf, (elem, q))
        intro2 = [z3.FreshConst(v.sort(), "x") for v in intro]
        if intro: bodyf = z3.Exists(intro2, z3.substitute(bodyf, *zip(intro, intro2)))
        fin = st.copy(); fin.assume(z3.ForAll([q], z3.Implies(dom(q), bodyf)))
        fin.env[slot] = self.lib.end_iter(self, fin, it)
        res = [Out("fall", fin)]
        for o in exits:
            if it.kind == "vec":
                o.st.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < elem), bodyf)))
            res.append(Out("fall", o.st) if o.k == "brk" else o)
        return res

    # ------------------------------------------------------------ functions
    def inline(self, st, fn, this, args, node=None):
        """execute the body of fn; returns (value); merges or forks outcomes"""
        if self.depth > 12: raise Unsupported("inlining depth")
        key = (fn.cls + "::" if fn.cls else "") + fn.name
        self.inlined.add(key)
        outs = self.run_body(st, fn, this, args)
        rets = [o for o in outs if o.k in ("ret", "fall")]
        if not rets: raise PathEnd()
        # merge all into one if possible
        acc = [(rets[0].st, rets[0].v)]
        for o in rets[1:]:
            done = False
            for i, (s, v) in enumerate(acc):
                if self.mergeable(s, o.st) and (isinstance(v, Val) and isinstance(o.v, Val) and v.t == o.v.t or v is o.v):
                    acc[i] = self.merge_out(s, o.st, v, o.v); done = True; break
            if not done: acc.append((o.st, o.v))
        i = self.choose(len(acc)) if len(acc) > 1 else 0
        s, v = acc[i]
        st.env = s.env; st.heap = s.heap; st.pc = s.pc; st.trace = s.trace; st.locks = s.locks; st.seen = s.seen
        return v
    def run_body(self, st, fn, this, args, spec=None):
        s = st.copy(); outer = s.env
        s.env = dict((k, v) for k, v in outer.items())
        # pointers to caller locals stay valid: caller slots are kept (ids are unique), recursion is cut by contracts
        if any(f.fn is fn for f in self.frames): raise Unsupported("recursion without contract: " + fn.name)
        self.frames.append(Frame(fn, this, spec)); self.depth += 1
        try:
            before = set(s.env)
            for p, a in zip(fn.params, args):
                slot = p["id"]; self.names = getattr(self, "names", {}); self.names[slot] = p.get("name")
                s.env.pop("&" + slot, None)
                qt = p["type"]["qualType"]; isref = qt.rstrip().endswith("&")
                if isref and isinstance(a, LV) and not isinstance(a, (LObj, LTmp)): s.env["&" + slot] = a; s.env[slot] = None
                else:
                    v = self.rv(s, a)
                    s.env[slot] = v
            cur = [s]
            for ini in fn.inits:
                nxt = []
                for x in cur: nxt += [r[0] for r in self.multi(x, lambda y, ini=ini: self.ctor_init(y, fn, this, ini))]
                cur = nxt
            outs = []
            for x in cur:
                outs += self.stmt_list(x, fn.body)
            for o in outs:
                self.leave_scope(o.st, before)
                for k in [k for k in o.st.env if k not in before]: del o.st.env[k]
            for o in outs:
                if o.k == "kill": self.kills.append(o)
            return outs
        finally:
            self.frames.pop(); self.depth -= 1
    def stmt_list(self, st, body):
        if body is None: return [Out("fall", st)]
        return self.stmt(st, body)
    def ctor_init(self, st, fn, this, ini):
        a = ini.get("anyInit")
        e = next((x for x in ini.get("inner", ()) if x.get("kind")), None)
        if a and e is not None and e["kind"] == "CXXConstructExpr" and not e.get("inner"):
            try: t = self.cell_type(this.cls, a["name"])
            except (Unsupported, AttributeError): return
            if t[0] in ("map", "set", "vec", "str", "opt"): self.write(st, self.member(st, this, a["name"]), empty(t))
        elif a and e is not None:
            lv = self.member(st, this, a["name"])
            t = self.type_of(st, lv)
            if e["kind"] == "CXXDefaultInitExpr":
                e = self.prog.fields[this.cls][a["name"]][1]
                if e is None: return
            v = self.construct_hint(st, e, t)
            self.write(st, lv, self.convert(st, v, t))

    def type_of(self, st, lv):
        v = self._read(st, lv)
        return v.t if isinstance(v, Val) else None

    def obj_of_this(self):
        return self.frames[-1].this

    def member(self, st, obj, name):
        """obj: LObj / PtrTo / LV of struct or tuple"""
        if isinstance(obj, PtrTo): return self.member(st, obj.lv, name)
        if isinstance(obj, LObj):
            cls = ALIAS.get(obj.cls, obj.cls)
            if cls == "Config" and name in self.consts: return Val(self.cell_type(cls, name), [self.consts[name]] if not isinstance(self.consts[name], int) else [z3.IntVal(self.consts[name])])
            t = self.cell_type(cls, name)
            c = cls
            while name not in self.prog.fields.get(c, {}) and self.prog.bases.get(c): c = self.prog.bases[c][0]
            if t[0] == "obj": return LObj(t[1], obj.ref)     # a sub-object shares the reference of its owner
            return LCell(self.cell_name(cls, name), None if cls in SINGLETON else obj.ref)
        if isinstance(obj, LElem):
            if name == "first": return LKey(Val(self._read(st, obj.cont).t[1], [obj.k]))
            return LMapAt(obj.cont, obj.k)
        if isinstance(obj, LV):
            v = self._read(st, obj)
            if isinstance(v, LObj): return self.member(st, v, name)
            return LComp(obj, field_index(v.t, name))
        if isinstance(obj, Val): return comp(obj, field_index(obj.t, name))
        raise Unsupported("member %s of %r" % (name, obj))

    def deref(self, st, p, node):
        """pointer value -> l-value"""
        if isinstance(p, PtrTo):
            self.oblige(st, "pointer not null", z3.Not(p.null), "safety", node)
            return p.lv
        if isinstance(p, LObj): return p
        if isinstance(p, It): return self.lib.iter_deref(self, st, p, node)
        if isinstance(p, Val):
            if p.t[0] == "ptr":
                if p.t[1] in SINGLETON: return LObj(p.t[1], None)
                self.oblige(st, "pointer to %s not null" % p.t[1], p.z != 0, "safety", node)
                if p.t[1] in self.opts.get("alive", ()):
                    al = self.ghost(st, p.t[1] + ".$alive", z3.ArraySort(I, B))
                    self.oblige(st, "%s object not deleted" % p.t[1], z3.Select(al, p.z), "safety", node)
                return LObj(p.t[1], p.z)
            if p.t[0] == "buf":
                self.lib.check_buf(self, st, p, z3.IntVal(1), node, "access")
                return LMem(p.l[0], p.l[1])
        raise Unsupported("dereference of %r" % (p,))

    # ------------------------------------------------------------ expressions
    def expr(self, st, n):
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None: raise Unsupported("expression %s" % k)
        return m(st, n)
    def _sub(self, st, n): return self.expr(st, n["inner"][0])
    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = e_CXXRewrittenBinaryOperator = _sub
    def e_MaterializeTemporaryExpr(self, st, n): return self._sub(st, n)
    def e_CXXThisExpr(self, st, n): return self.obj_of_this()
    def e_IntegerLiteral(self, st, n): return Val(parse_type(n["type"].get("desugaredQualType", n["type"]["qualType"]))[0], [z3.IntVal(int(n["value"]))])
    def e_CharacterLiteral(self, st, n): return Val(CHAR, [z3.IntVal(int(n["value"]))])
    def e_FloatingLiteral(self, st, n): return Val(DBL, [z3.RealVal(n["value"])])
    def e_CXXBoolLiteralExpr(self, st, n): return mkbool(bool(n["value"]))
    def e_StringLiteral(self, st, n):
        import json as _j
        s = n["value"]
        try: s = _j.loads(s)
        except Exception: s = s[1:-1] if not s.startswith("R") else s
        return Val(STR, [lit(s)])
    def e_PredefinedExpr(self, st, n): return Val(STR, [lit("__func__")])
    def e_CXXNullPtrLiteralExpr(self, st, n): return Val(("ptr", "null"), [z3.IntVal(0)])
    e_GNUNullExpr = e_CXXNullPtrLiteralExpr
    def e_ImplicitValueInitExpr(self, st, n): return zero(self.var_type(n["type"]["qualType"], n["type"].get("desugaredQualType", n["type"]["qualType"])))
    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr
    def e_CXXDefaultArgExpr(self, st, n): return ("default",)
    def e_SourceLocExpr(self, st, n): return ("default",)
    def e_UnaryExprOrTypeTraitExpr(self, st, n):
        if n.get("name") == "sizeof":
            at = n.get("argType", {}).get("qualType")
            if at == "char": return mkint(1, ULONG)
            return Val(ULONG, [z3.Int("sizeof(%s)" % (at or "expr"))])
        raise Unsupported("sizeof-like")
    def e_DeclRefExpr(self, st, n):
        d = n["referencedDecl"]; k = d["kind"]
        if k in ("VarDecl", "ParmVarDecl"):
            slot = d["id"]
            if "&" + slot in st.env: return st.env["&" + slot]
            if slot in st.env:
                v = st.env[slot]
                return LVar(slot)
            # captured variables of lambdas have the same decl id; globals by name
            return self.lib.global_var(self, st, d, n)
        if k in ("FunctionDecl", "CXXMethodDecl"): return FnRef(d["name"])
        if k == "EnumConstantDecl":
            if d["name"] in self.prog.enums: return mkint(self.prog.enums[d["name"]])
            return self.lib.enum_const(self, d)
        if k == "BindingDecl": raise Unsupported("structured binding")
        raise Unsupported("reference to " + k)
    def e_MemberExpr(self, st, n):
        base = n["inner"][0]; name = n.get("name", "")
        b = self.expr(st, base)
        if n.get("isArrow"):
            p = self.rv(st, b) if not isinstance(b, LObj) else b
            if isinstance(p, LV) and not isinstance(p, LObj): lv = p
            else: lv = self.deref(st, p, n)
        else: lv = b
        if isinstance(lv, LVar) and isinstance(st.env.get(lv.slot), (LObj, PtrTo)): lv = st.env[lv.slot]
        return self.member(st, lv, name)
    def e_ArraySubscriptExpr(self, st, n):
        b = self.expr(st, n["inner"][0]); i = self.ev(st, n["inner"][1])
        if isinstance(b, LV):
            v = self._read(st, b)
            if isinstance(v, Val) and v.t[0] == "vec":
                self.oblige(st, "array index in range", z3.And(i.z >= 0, i.z < v.l[0]), "safety", n)
                return LVecAt(b, i.z)
            b = v
        if isinstance(b, PtrTo): 
            v = self._read(st, b.lv)
            if isinstance(v, Val) and v.t[0] == "vec": return LVecAt(b.lv, i.z)
            raise Unsupported("subscript")
        if isinstance(b, Val) and b.t[0] == "buf":
            p = Val(BUF, [b.l[0], b.l[1] + i.z]); self.lib.check_buf(self, st, p, z3.IntVal(1), n, "access")
            return LMem(p.l[0], p.l[1])
        if isinstance(b, Val) and b.t[0] == "str":                    # characters of a text are an uninterpreted function of it
            st.assume((b.z == lit("")) == (char_at(b.z, 0) == 0)); c = char_at(b.z, i.z); st.assume(z3.And(c >= -128, c < 128)); return Val(("int", 8, True), [c])
        raise Unsupported("subscript of %r" % (b,))
    def e_ConditionalOperator(self, st, n):
        c, a, b = n["inner"]
        if self.fork(st, self.cond(st, c)): return self.ev(st, a)
        return self.ev(st, b)
    def e_UnaryOperator(self, st, n):
        op = n["opcode"]; x = n["inner"][0]
        if op == "!": return mkbool(z3.Not(self.cond(st, x)))
        if op == "&":
            lv = self.expr(st, x)
            if isinstance(lv, LObj): return lv if lv.ref is None else Val(("ptr", lv.cls), [lv.ref])
            if isinstance(lv, LV): return PtrTo(lv)
            raise Unsupported("address of temporary")
        if op == "*":
            v = self.ev(st, x)
            if isinstance(v, LObj): return v
            return self.deref(st, v, n)
        if op in ("++", "--"):
            lv = self.expr(st, x); v = self.rv(st, lv)
            if isinstance(v, It):
                return self.lib.iter_inc(self, st, lv, v, op, n.get("isPostfix"), n)
            if v.t[0] == "buf":
                w = Val(BUF, [v.l[0], v.l[1] + (1 if op == "++" else -1)])
            else: w = self.arith(st, "+" if op == "++" else "-", v, mkint(1, v.t), v.t, n)
            self.write(st, lv, w)
            return v if n.get("isPostfix") else lv
        v = self.ev(st, x)
        if op == "-": return self.arith(st, "-", mkint(0, v.t), v, v.t, n)
        if op == "+": return v
        if op == "~":
            if is_lit(v.z): return mkint(~v.z.as_long(), v.t) if v.t[2] else mkint((~v.z.as_long()) % 2**v.t[1], v.t)
            e = z3.simplify(v.z)
            if is_lit(e): return mkint(~e.as_long(), v.t) if v.t[2] else mkint((~e.as_long()) % 2**v.t[1], v.t)
            return Val(v.t, [-v.z - 1])
        if op == "__extension__": return v
        raise Unsupported("unary " + op)
    def e_BinaryOperator(self, st, n):
        op = n["opcode"]; a, b = n["inner"]
        if op == "&&":
            if not self.fork(st, self.cond(st, a)): return mkbool(False)
            return mkbool(self.cond(st, b))
        if op == "||":
            if self.fork(st, self.cond(st, a)): return mkbool(True)
            return mkbool(self.cond(st, b))
        if op == ",": self.expr(st, a); return self.expr(st, b)
        if op == "=":
            lv = self.expr(st, a); t = None
            if isinstance(lv, LV) and not isinstance(lv, LObj):
                cur = self._read(st, lv) if not (isinstance(lv, LVar) and not isinstance(st.env.get(lv.slot), Val)) else None
                t = cur.t if isinstance(cur, Val) else None
            v = self.construct_hint(st, b, t)
            if isinstance(v, Val) and t and v.t != t: v = self.convert(st, v, t)
            self.write(st, lv, v); return lv
        x, y = self.ev(st, a), self.ev(st, b)
        return self.binop(st, op, x, y, n)
    def binop(self, st, op, x, y, n):
        if op in ("==", "!="): e = self.equal(st, x, y); return mkbool(e if op == "==" else z3.Not(e))
        if isinstance(x, Val) and x.t[0] == "buf" or isinstance(y, Val) and y.t[0] == "buf":
            if op in ("+", "-") and y.t[0] == "int": return Val(BUF, [x.l[0], x.l[1] + y.z if op == "+" else x.l[1] - y.z])
            if op == "+" and x.t[0] == "int": return Val(BUF, [y.l[0], y.l[1] + x.z])
            raise Unsupported("pointer arithmetic " + op)
        if not (isinstance(x, Val) and isinstance(y, Val)): raise Unsupported("binary %s on %r" % (op, x))
        if op in ("<", "<=", ">", ">="):
            p, q = x.z, y.z
            if x.t[0] == "dbl" or y.t[0] == "dbl": p = z3.ToReal(p) if x.t[0] != "dbl" else p; q = z3.ToReal(q) if y.t[0] != "dbl" else q
            return mkbool({"<": p < q, "<=": p <= q, ">": p > q, ">=": p >= q}[op])
        t = parse_type(n["type"].get("desugaredQualType", n["type"]["qualType"]))[0]
        return self.arith(st, op, x, y, t, n)
    def e_CompoundAssignOperator(self, st, n):
        op = n["opcode"][:-1]; lv = self.expr(st, n["inner"][0]); y = self.ev(st, n["inner"][1]); x = self.rv(st, lv)
        if x.t[0] == "buf": v = Val(BUF, [x.l[0], x.l[1] + y.z if op == "+" else x.l[1] - y.z])
        elif x.t[0] == "str": v = Val(STR, [concat(x.z, y.z)])
        else:
            ct = parse_type(n.get("computeResultType", n["type"]).get("desugaredQualType", n.get("computeResultType", n["type"])["qualType"]))[0]
            v = self.arith(st, op, self.convert(st, x, ct), self.convert(st, y, ct), ct, n)
            v = self.convert(st, v, x.t)
        self.write(st, lv, v); return lv
    def arith(self, st, op, x, y, t, n):
        if t[0] == "dbl":
            a = x.z if x.t[0] == "dbl" else z3.ToReal(x.z); b = y.z if y.t[0] == "dbl" else z3.ToReal(y.z)
            return Val(DBL, [{"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[op]()])
        if t[0] == "bool": t = INT
        if x.t[0] == "bool": x = Val(INT, [z3.If(x.z, 1, 0)])
        if y.t[0] == "bool": y = Val(INT, [z3.If(y.z, 1, 0)])
        a, b = x.z, y.z
        if op in ("+", "-", "*"):
            e = z3.simplify({"+": a + b, "-": a - b, "*": a * b}[op]) if is_lit(a) and is_lit(b) else {"+": a + b, "-": a - b, "*": a * b}[op]
            return self.fit(st, e, t, n)
        if op in ("/", "%"):
            self.oblige(st, "divisor not zero", b != 0, "safety", n)
            if self.proves(st, a >= 0) and self.proves(st, b > 0): return Val(t, [a / b if op == "/" else a % b])
            q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / -b)), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
            return Val(t, [q if op == "/" else a - b * q])
        if op in ("&", "|", "^", "<<", ">>"):
            a, b = z3.simplify(a), z3.simplify(b)
            if is_lit(a) and is_lit(b):
                p, q = a.as_long(), b.as_long()
                r = {"&": lambda: p & q, "|": lambda: p | q, "^": lambda: p ^ q, "<<": lambda: p << q, ">>": lambda: p >> q}[op]()
                return mkint(r, t)
            if op == "<<" and is_lit(b) and 0 <= b.as_long() < t[1]: return self.fit(st, a * (1 << b.as_long()), t, n)
            if op == ">>" and is_lit(b) and 0 <= b.as_long() < t[1]: return Val(t, [a / (1 << b.as_long())])
            f = z3.Function("bit" + {"&": "and", "|": "or", "^": "xor", "<<": "shl", ">>": "shr"}[op], I, I, I)
            if op == "&" and is_lit(a): a, b = b, a
            if op == "&" and is_lit(b) and z3.is_app(a) and a.decl().name() == "bitand" and is_lit(a.arg(1)):
                b = z3.IntVal(b.as_long() & a.arg(1).as_long()); a = a.arg(0)
                if b.as_long() == 0: return Val(t, [b])
            if op == "&" and is_lit(b) and b.as_long() >= 0:
                r = f(a, b); st.assume(z3.And(r >= 0, r <= b.as_long())); return Val(t, [r])
            return Val(t, [f(a, b)])
        raise Unsupported("operator " + op)
    def fit(self, st, e, t, n):
        """result of an arithmetic operation in type t"""
        if is_lit(e) and lo(t) <= e.as_long() <= hi(t): return Val(t, [e])
        g = in_range(e, t)
        if t[2]:
            self.oblige(st, "no signed overflow", g, "safety", n)
            return Val(t, [e])
        if self.proves(st, g): return Val(t, [e])
        return Val(t, [e % (2 ** t[1])])
    def convert(self, st, v, t):
        """implicit conversion of a value"""
        if not isinstance(v, Val) or t is None: return v
        s = v.t
        if s == t: return v
        if t[0] == "int":
            if s[0] == "bool": return Val(t, [z3.If(v.z, 1, 0)])
            if s[0] == "int":
                e = v.z
                if lo(t) <= lo(s) and hi(s) <= hi(t): return Val(t, [e])
                if is_lit(e):
                    x = e.as_long() % 2 ** t[1]
                    if t[2] and x > hi(t): x -= 2 ** t[1]
                    return mkint(x, t)
                if self.proves(st, in_range(e, t)): return Val(t, [e])
                if not t[2]: return Val(t, [e % (2 ** t[1])])
                h = 2 ** (t[1] - 1); return Val(t, [(e + h) % (2 ** t[1]) - h])
            if s[0] == "dbl": return Val(t, [z3.ToInt(v.z)])
        if t[0] == "bool": return mkbool(self.truth(st, v))
        if t[0] == "dbl" and s[0] == "int": return Val(DBL, [z3.ToReal(v.z)])
        if t[0] == "buf" and s[0] == "ptr": return NULLBUF if s[1] == "null" else v
        if t[0] == "ptr" and s[0] == "ptr": return Val(t, v.l)
        if t[0] == "str" and s[0] == "str": return v
        if t[0] == "buf" and s[0] == "str": return v
        if t[0] == "tup" and s[0] == "tup" and len(t) == len(s):
            return Val(t, [x for i in range(len(t) - 1) for x in self.convert(st, comp(v, i), t[i + 1]).l])
        if t[0] == "opt":
            if s[0] == "opt": return Val(t, v.l)
            return Val(t, [z3.BoolVal(True)] + self.convert(st, v, t[1]).l)
        if t[0] == s[0] and t[0] in ("map", "vec", "set"): return Val(t, v.l)
        if t[0] in ("opaque", "obj", "regex"): return v
        raise Unsupported("conversion %r to %r" % (s, t))
    def equal(self, st, x, y):
        if isinstance(x, It) and isinstance(y, It): return self.lib.iter_eq(self, st, x, y)
        if isinstance(x, PtrTo) or isinstance(y, PtrTo):
            p, q = (x, y) if isinstance(x, PtrTo) else (y, x)
            if isinstance(q, Val): return p.null
            raise Unsupported("pointer comparison")
        if isinstance(x, LObj) or isinstance(y, LObj):
            p, q = (x, y) if isinstance(x, LObj) else (y, x)
            if isinstance(q, Val): return (p.ref if p.ref is not None else z3.IntVal(1)) == q.z
        if not (isinstance(x, Val) and isinstance(y, Val)): raise Unsupported("comparison of %r and %r" % (x, y))
        if x.t[0] == "buf" and y.t[0] == "ptr": return x.l[0] == 0
        if y.t[0] == "buf" and x.t[0] == "ptr": return y.l[0] == 0
        if x.t[0] == "str" and y.t[0] == "ptr" or y.t[0] == "str" and x.t[0] == "ptr": return z3.BoolVal(False)   # C strings of the specifications are never null
        if x.t[0] == "dbl" or y.t[0] == "dbl":
            p = x.z if x.t[0] == "dbl" else z3.ToReal(x.z); q = y.z if y.t[0] == "dbl" else z3.ToReal(y.z); return p == q
        if x.t[0] == "bool" and y.t[0] == "int": x = self.convert(st, x, y.t)
        if y.t[0] == "bool" and x.t[0] == "int": y = self.convert(st, y, x.t)
        if len(x.l) != len(y.l) or x.t[0] in ("map", "vec", "set"): raise Unsupported("comparison of containers")
        return z3.And([p == q for p, q in zip(x.l, y.l)])

    def e_ImplicitCastExpr(self, st, n):
        ck = n["castKind"]
        if ck in ("LValueToRValue",):
            return self.ev(st, n["inner"][0])
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "FunctionToPointerDecay", "ConstructorConversion", "UserDefinedConversion", "BitCast", "BuiltinFnToFnPtr", "BaseToDerived", "AddressSpaceConversion"):
            x = self._sub(st, n)
            if ck == "BitCast" and isinstance(x, Val) and x.t[0] == "ptr":
                try:
                    t = parse_type(n["type"].get("desugaredQualType", n["type"]["qualType"]))[0]
                    if t[0] == "ptr": return Val(t, x.l)
                except Unsupported: pass
            return x
        if ck == "ArrayToPointerDecay":
            x = self._sub(st, n)
            if isinstance(x, LV):
                v = self._read(st, x)
                if isinstance(v, Val) and v.t[0] in ("buf", "str"): return v
                return PtrTo(x)
            return x
        if ck == "NullToPointer":
            t = parse_type(n["type"].get("desugaredQualType", n["type"]["qualType"]))[0]
            return NULLBUF if t[0] == "buf" else Val(t if t[0] == "ptr" else ("ptr", "null"), [z3.IntVal(0)])
        if ck == "ToVoid": self._sub(st, n); return None
        if ck in ("IntegralCast", "IntegralToBoolean", "PointerToBoolean", "IntegralToFloating", "FloatingToIntegral", "FloatingCast", "FloatingToBoolean", "BooleanToSignedIntegral"):
            v = self.ev(st, n["inner"][0])
            if ck in ("PointerToBoolean", "IntegralToBoolean"): return mkbool(self.truth(st, v))
            t = parse_type(n["type"].get("desugaredQualType", n["type"]["qualType"]))[0]
            return self.convert(st, v, t)
        raise Unsupported("cast " + ck)
    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_CXXReinterpretCastExpr = e_ImplicitCastExpr
    def e_CXXDynamicCastExpr(self, st, n):
        v = self.ev(st, n["inner"][0]); t = parse_type(n["type"]["qualType"])[0]
        return self.lib.dynamic_cast(self, st, v, t)

    def e_CXXNewExpr(self, st, n):
        t = parse_type(n["type"]["qualType"])[0]
        init = next((x for x in n.get("inner", ()) if x.get("kind") == "CXXConstructExpr"), None)
        if t[0] != "ptr": raise Unsupported("new of %r" % (t,))
        if n.get("isPlacement"):
            if t[1] != "thread" or not init or len(init.get("inner", ())) != 2: raise Unsupported("placement new")
            f, w = [self.rv(st, self.expr(st, x)) for x in init["inner"]]     # a thread: what it does is outside; that it starts is an event
            st.trace.append(("thread", [f.z if isinstance(f, Val) else None, w])); return Val(t, [fresh_leaf(I, "thread")])
        args = [self.expr(st, x) for x in (init or {}).get("inner", ())]
        return self.new_object(st, t[1], args, n)
    def new_object(self, st, cls, args, n):
        ref = fresh_leaf(I, "new_" + cls)
        own = "Fault" if cls in self.lib.KIND else cls            # faults of all kinds live in the same lists
        al = self.ghost(st, own + ".$alive", z3.ArraySort(I, B))
        st.assume(z3.And(ref > 0, z3.Not(z3.Select(al, ref))))
        st.heap[own + ".$alive"] = [z3.Store(al, ref, z3.BoolVal(True))]
        if own == "Fault": st.heap["Fault.$kind"] = [z3.Store(self.ghost(st, "Fault.$kind", z3.ArraySort(I, I)), ref, self.lib.KIND[cls])]
        if cls in ("shared_mutex", "mutex"): return Val(("ptr", cls), [ref])
        obj = LObj(cls, ref)
        self.init_fields(st, cls, ref)
        args = [a for a in args if a != ("default",)]
        ctor = self.pick_ctor(st, cls, args)
        if ctor is not None: self.call_fn(st, ctor, obj, args, n)
        return Val(("ptr", cls), [ref])
    def init_fields(self, st, cls, ref):
        c = cls
        while c:
            for f, (qt, init) in self.prog.fields.get(c, {}).items():
                try: t = self.cell_type(cls, f)
                except Unsupported: continue
                if t[0] == "obj":
                    if t[1] in self.prog.fields: self.init_fields(st, t[1], ref)
                    continue
                if t[0] in ("mutex", "opaque", "lock"): continue
                if t[0] in ("map", "set", "vec", "str", "opt"): self.write(st, LCell(self.cell_name(cls, f), ref), empty(t))
                else: self.write(st, LCell(self.cell_name(cls, f), ref), fresh(t, f))
            c = (self.prog.bases.get(c) or [None])[0]
    def pick_ctor(self, st, cls, args):
        l = [f for f in self.prog.funcs.get(cls + "::" + cls, ()) if len(f.params) == len(args)]
        if not l: return None
        if len(l) == 1: return l[0]
        for f in l:
            ok = True
            for p, a in zip(f.params, args):
                t = parse_type(p["type"]["qualType"])[0]; v = self.rv(st, a)
                if isinstance(v, Val) and v.t[0] != t[0]: ok = False
            if ok: return f
        raise Unsupported("constructor overload of " + cls)
    def e_CXXDeleteExpr(self, st, n):
        v = self.ev(st, n["inner"][0])
        return self.lib.delete(self, st, v, n)

    def e_LambdaExpr(self, st, n): return Lam(n, None)
    def e_InitListExpr(self, st, n):
        t = None
        try: t = self.var_type(n["type"]["qualType"], n["type"].get("desugaredQualType", n["type"]["qualType"]))
        except Unsupported: pass
        if t is None or t[0] in ("opaque", "obj"): t = getattr(self, "_hint", None)
        return self.lib.init_list(self, st, t, n)
    def e_CXXStdInitializerListExpr(self, st, n):
        return self._sub(st, n)
    def e_CXXConstructExpr(self, st, n):
        return self.lib.construct(self, st, n)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    # ------------------------------------------------------------ calls
    def e_CallExpr(self, st, n):
        f = self.expr(st, n["inner"][0])
        if isinstance(f, LV): f = self.rv(st, f)
        if isinstance(f, FnRef):
            ref = self.find_ref(n["inner"][0])
            return self.lib.call(self, st, f.name, n["inner"][1:], n, ref)
        if isinstance(f, Val) and "callback" in self.opts: return self.opts["callback"](self, st, f, n["inner"][1:], n)
        raise Unsupported("call through %r" % (f,))
    def find_ref(self, n):
        while n.get("kind") != "DeclRefExpr":
            if not n.get("inner"): return None
            n = n["inner"][0]
        return n
    def e_CXXMemberCallExpr(self, st, n):
        me = n["inner"][0]
        while me["kind"] in ("ParenExpr", "ImplicitCastExpr"): me = me["inner"][0]
        return self.lib.method(self, st, me, n["inner"][1:], n)
    def e_CXXOperatorCallExpr(self, st, n):
        ref = self.find_ref(n["inner"][0]); return self.lib.operator(self, st, ref["referencedDecl"]["name"], n["inner"][1:], n)

    def call_fn(self, st, fn, this, args, n):
        """a call to a function of the repository: contract if there is one, else inlined"""
        key = (fn.cls + "::" if fn.cls else "") + fn.name
        c = self.contracts.get(key)
        self.called.add(key)
        if c is not None and c.use_at_call(self, st, fn, this, args):
            return c.apply(self, st, fn, this, args, n)
        if fn.body is None: return None
        return self.inline(st, fn, this, args, n)

class LoopCtx:
    """what a loop invariant may look at"""
    def __init__(self, ex, entry, st, mod, no): self.ex = ex; self.entry = entry; self.st = st; self.mod = mod; self.no = no; self.prev = None
    def _slot(self, name, st):
        c = [s for s in st.env if self.ex.names.get(s) == name]
        if not c: raise Unsupported("loop invariant: no variable %s" % name)
        o = list(self.ex.names); m = set(k for kind, k in self.mod if kind == "env")
        return max(c, key=lambda s: (s in m, o.index(s)))          # a variable the loop changes, else the latest declared
    def v(self, name, st=None):
        st = st or self.st
        s = self._slot(name, st)
        if "&" + s in st.env: return self.ex.read(st, st.env["&" + s])
        return st.env[s]
    def z(self, name, st=None): return self.v(name, st).z
    def old(self, name): return self.v(name, self.entry)
    def it(self, idx=0):
        """the iterator driving the loop"""
        l = [self.st.env[k] for kind, k in self.mod if kind == "env" and isinstance(self.st.env.get(k), It)]
        if len(l) <= idx: raise Unsupported("loop invariant: no iterator")
        return l[idx]
    def bytype(self, t, st=None):
        st = st or self.st
        l = [s for s, v in st.env.items() if isinstance(v, Val) and v.t == t]
        if len(l) != 1: raise Unsupported("loop invariant: %d variables of type %r" % (len(l), t))
        return st.env[l[0]]

def norm(l):
    r = []
    for x in l:
        if len(x) == 2: r.append((x[0], x[1], ()))
        else: r.append(x)
    return r
def lo(t): return -(2 ** (t[1] - 1)) if t[2] else 0
def hi(t): return 2 ** (t[1] - 1) - 1 if t[2] else 2 ** t[1] - 1
def in_range(e, t): return z3.And(e >= lo(t), e <= hi(t))
def is_small(ex, st, cond):
    return True
_cc = {}
def consts_of(e):
    i = e.get_id()
    if i in _cc: return _cc[i][0]
    seen = set(); out = []; todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): todo.append(x.body()); continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
        todo.extend(x.children())
    _cc[i] = (out, e)
    return out
