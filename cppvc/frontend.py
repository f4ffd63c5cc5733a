"""clang JSON AST of the real sources -> index of function bodies, fields, enums, static initialisers.

Nothing is rewritten: the nodes executed by exec.py are the nodes clang produces for /repo's current text."""
import json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

FLAGS = ("-std=c++17 -I{R}/libs/libpcache/include -I{R}/lazyfs/include -DSPDLOG_COMPILED_LIB -DSPDLOG_SHARED_LIB "
         "-DSPDLOG_FMT_EXTERNAL -D_FILE_OFFSET_BITS=64 -DFUSE_USE_VERSION=30 -I/usr/include/fuse3 -Wno-everything "
         "-fsyntax-only -Xclang -ast-dump=json")
# (source, filter): the filter is a substring of the qualified name; only matching top-level declarations are dumped
UNITS = {
    "lazyfs": ("lazyfs/src/lazyfs.cpp", ["lazyfs"]),
    "cache": ("libs/libpcache/src/cache.cpp", ["cache"]),
    "faults": ("libs/libpcache/src/faults.cpp", ["faults"]),
    "engine": ("libs/libpcache/src/engine/backends/custom/custom_cache.cpp", ["cache"]),
    "page": ("libs/libpcache/src/engine/page/page.cpp", ["cache"]),
    "block_offsets": ("libs/libpcache/src/engine/page/block_offsets.cpp", ["cache"]),
    "item": ("libs/libpcache/src/item/item.cpp", ["cache"]),
    "data": ("libs/libpcache/src/item/data.cpp", ["cache"]),
    "block_info": ("libs/libpcache/src/item/block_info.cpp", ["cache"]),
    "metadata": ("libs/libpcache/src/item/metadata.cpp", ["cache"]),
    "config": ("libs/libpcache/src/config/config.cpp", ["cache"]),
}

class FrontendError(Exception):
    pass

def run_clang(repo, src, flt, syntax_only=False):
    cmd = ["clang++"] + FLAGS.format(R=repo).split()
    if flt:
        cmd += ["-Xclang", "-ast-dump-filter=" + flt]
    p = subprocess.run(cmd + [os.path.join(repo, src)], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise FrontendError("clang failed on %s: %s" % (src, p.stderr.decode(errors="replace")[:2000]))
    return p.stdout.decode(errors="replace")

def parse_stream(txt):
    dec = json.JSONDecoder(); i = 0; out = []
    n = len(txt)
    while i < n:
        j = txt.find("{", i)
        if j < 0: break
        # "Dumping ...:" lines precede each document
        k = txt.rfind("\n", i, j)
        obj, i = dec.raw_decode(txt, j)
        out.append(obj)
    return out

class Func:
    __slots__ = ("qname", "cls", "name", "node", "params", "body", "ret", "unit", "static", "inits", "kind", "file")
    def __repr__(self): return "<Func %s/%d>" % (self.qname, len(self.params))

class Program:
    def __init__(self, repo):
        self.repo = repo
        self.funcs = {}          # qualified name -> [Func]
        self.fields = {}         # class -> {field: (typestr, initnode)}
        self.bases = {}          # class -> [base]
        self.vars = {}           # qualified static / global variable -> node
        self.enums = {}          # enumerator name -> value
        self.byid = {}
        self.loaded = set()
        self.text = {}

    def load(self, units):
        todo = [(u, f) for u in units if u not in self.loaded for f in UNITS[u][1]]
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda a: (a, run_clang(self.repo, UNITS[a[0]][0], a[1])), todo))
        for (u, f), txt in res:
            ids = {}
            for doc in parse_stream(txt):
                self._walk(doc, [], u, ids)
            self.loaded.add(u)
        return self

    def load_extra(self, unit, name):
        """a file-scope helper of the unit that lies outside the filtered namespaces"""
        src = UNITS[unit][0]
        ids = {}
        for doc in parse_stream(run_clang(self.repo, src, name)):
            self._walk(doc, [], unit, ids)

    def _walk(self, n, ctx, unit, ids):
        k = n.get("kind")
        if k in ("NamespaceDecl", "LinkageSpecDecl", "TranslationUnitDecl"):
            c2 = ctx + ([n["name"]] if n.get("name") else [])
            for x in n.get("inner", ()): self._walk(x, c2, unit, ids)
        elif k == "CXXRecordDecl":
            if "name" not in n: return
            cls = "::".join(ctx + [n["name"]])
            ids[n["id"]] = ctx + [n["name"]]
            short = n["name"]
            if n.get("completeDefinition"):
                fl = self.fields.setdefault(short, {})
                self.bases.setdefault(short, [re.sub(r"^.*::", "", b["type"]["qualType"]) for b in n.get("bases", ())])
                for x in n.get("inner", ()):
                    if x.get("kind") == "FieldDecl":
                        init = next((y for y in x.get("inner", ()) if y.get("kind", "").endswith(("Expr", "Literal", "Cleanups"))), None) if x.get("hasInClassInitializer") else None
                        fl[x["name"]] = (x["type"].get("qualType"), init)
            for x in n.get("inner", ()): self._walk(x, ctx + [n["name"]], unit, ids)
        elif k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl"):
            ids[n["id"]] = None
            pc = n.get("parentDeclContextId")
            c2 = ids.get(pc, ctx) if pc else ctx
            if c2 is None: c2 = ctx
            body = next((x for x in n.get("inner", ()) if x.get("kind") in ("CompoundStmt", "CXXTryStmt")), None)
            if body is None and not (k == "CXXConstructorDecl" and any(x.get("kind") == "CXXCtorInitializer" for x in n.get("inner", ()))):
                return
            if n.get("isImplicit"): return
            if k != "FunctionDecl" and not c2: return
            f = Func(); f.name = n.get("name", ""); f.cls = c2[-1] if k != "FunctionDecl" else ""
            f.qname = "::".join(c2 + [f.name]); f.node = n; f.unit = unit; f.kind = k
            f.params = [x for x in n.get("inner", ()) if x.get("kind") == "ParmVarDecl"]
            f.inits = [x for x in n.get("inner", ()) if x.get("kind") == "CXXCtorInitializer"]
            f.body = body; f.ret = n["type"]["qualType"].split("(")[0].strip(); f.static = n.get("storageClass") == "static"
            key = (f.cls + "::" if f.cls else "") + f.name
            lst = self.funcs.setdefault(key, [])
            sig = n["type"]["qualType"]
            if not any(g.node["type"]["qualType"] == sig for g in lst): lst.append(f)
        elif k == "VarDecl":
            pc = n.get("parentDeclContextId"); c2 = ids.get(pc, ctx) if pc else ctx
            key = "::".join(((c2 or [])[-1:] if (pc and c2) else []) + [n["name"]])
            if n.get("inner"):
                self.vars[key] = n; self.vars.setdefault(n["name"], n)
        elif k == "EnumDecl":
            v = 0
            for x in n.get("inner", ()):
                if x.get("kind") == "EnumConstantDecl":
                    c = find_const(x)
                    if c is not None: v = c
                    self.enums[x["name"]] = v; v += 1

    def fn(self, key, nargs=None):
        l = self.funcs.get(key)
        if not l: return None
        if nargs is None or len(l) == 1: return l[0]
        for f in l:
            if len(f.params) == nargs: return f
        return l[0]

def find_const(n):
    for x in n.get("inner", ()):
        if x.get("kind") == "ConstantExpr" and "value" in x: return int(x["value"])
        r = find_const(x)
        if r is not None: return r
    return None

def show(n, d=0, out=None, maxd=40):
    out = out if out is not None else []
    t = n.get("type", {}).get("qualType", "")
    extra = " ".join(str(n[k]) for k in ("name", "opcode", "value", "castKind", "isPostfix", "isArrow") if k in n)
    rd = n.get("referencedDecl")
    if rd: extra += " ->" + rd.get("name", "?") + ":" + rd.get("kind", "")
    out.append("  " * d + n.get("kind", "?") + " " + extra + "  «" + t[:100] + "»")
    if d < maxd:
        for x in n.get("inner", ()): show(x, d + 1, out, maxd)
    return out

if __name__ == "__main__":
    p = Program(os.environ.get("REPO", "/repo")).load(sys.argv[1].split(","))
    if len(sys.argv) > 2:
        for key in sys.argv[2:]:
            for f in p.funcs.get(key, ()):
                print("==", f.qname, [x.get("name") for x in f.params]); print("\n".join(show(f.body)))
    else:
        for k, v in p.funcs.items(): print(k, len(v), v[0].qname)
        print(p.fields.keys()); print(p.enums)
