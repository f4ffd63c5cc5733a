// scenario generators, one profile per property
typedef mt19937 G;
static long ri (G& g, long a, long b) { return uniform_int_distribution<long> (a, b) (g); }
template <class T> static T pick (G& g, initializer_list<T> l) { auto it = l.begin (); advance (it, ri (g, 0, (long)l.size () - 1)); return *it; }
static long roff (G& g, int bs, int blocks) { // offsets close to block boundaries
    long b = ri (g, 0, blocks) * bs; switch (ri (g, 0, 4)) { case 0: return b; case 1: return max (0L, b - 1); case 2: return b + 1; case 3: return b + ri (g, 0, bs - 1); default: return ri (g, 0, (long)blocks * bs); } }
static long rsize (G& g, int bs) { switch (ri (g, 0, 5)) { case 0: return ri (g, 1, bs - 1 > 0 ? bs - 1 : 1); case 1: return bs; case 2: return bs + 1; case 3: return ri (g, 1, 3) * bs; case 4: return ri (g, 1, 4 * bs); default: return ri (g, 1, 2 * bs); } }
static Op mk (const string& k, const string& a = "", long x = 0, long y = 0, long z = 0, const string& b = "", const string& s = "") { Op p; p.k = k; p.a = a; p.b = b; p.x = x; p.y = y; p.z = z; p.s = s; return p; }
struct W { const char* k; int w; };
static string pickw (G& g, const vector<W>& ws) { int t = 0; for (auto& w : ws) t += w.w; long r = ri (g, 0, t - 1); for (auto& w : ws) { if (r < w.w) return w.k; r -= w.w; } return ws[0].k; }
static Op rop (G& g, const string& k, int bs, int blocks, const vector<string>& nm) {
    string a = nm[ri (g, 0, nm.size () - 1)], b = nm[ri (g, 0, nm.size () - 1)];
    if (k == "write") return mk (k, a, roff (g, bs, blocks), rsize (g, bs), ri (g, 1, 100000));
    if (k == "append") return mk (k, a, 0, rsize (g, bs), ri (g, 1, 100000));
    if (k == "read") return mk (k, a, roff (g, bs, blocks), rsize (g, bs));
    if (k == "trunc") return mk (k, a, roff (g, bs, blocks), ri (g, 0, 1));
    if (k == "fsync") return mk (k, a, ri (g, 0, 1));
    if (k == "rename" || k == "link" || k == "symlink") return mk (k, a, 0, 0, 0, b);
    if (k == "access") return mk (k, a, pick<int> (g, {F_OK, R_OK, W_OK, R_OK | W_OK}));
    if (k == "utimens") return mk (k, a, ri (g, 1000, 2000000000), ri (g, 1000, 2000000000));
    if (k == "mkdir" || k == "rmdir") return mk (k, pick<const char*> (g, {"d", "e", "d", "e", "d/s", "e/s"}));
    if (k == "far") return mk (k, "", min (ri (g, 1, 3) * (1L << ri (g, 30, 34)), (long)bs * ((1L << 31) - 64)) + ri (g, -2 * bs, 2 * bs), ri (g, 1, 3 * bs), ri (g, 1, 100000));
    if (k == "loop") return mk (k, "", 0, 0, ri (g, 1, 100000));
    if (k == "orphan") return mk (k, "", ri (g, 0, 1), ri (g, 0, 1), ri (g, 1, 100000));
    if (k == "report") return mk (k, "", ri (g, 0, 1));
    return mk (k, a);
}
static Scn gen0 (const string& prof, G& g) {
    Scn s; vector<W> w; int nops = ri (g, 4, 25), blocks = 6; vector<string> nm{"a", "b"};
    s.bs = pick<int> (g, {2, 8, 16, 16, 64}); s.bpp = pick<int> (g, {1, 1, 1, 2, 3}); s.np = pick<int> (g, {64, 64, 32, 5, 3});
    bool final_all = true; int every = ri (g, 0, 3) == 0;
    if (prof == "C01") w = {{"write", 10}, {"append", 2}, {"read", 8}, {"trunc", 3}, {"fsync", 3}, {"clear", 1}, {"otrunc", 1}, {"all", 2}, {"far", 1}};
    else if (prof == "C02") { w = {{"far", 1}, {"write", 12}, {"append", 2}, {"trunc", 3}, {"fsync", 6}, {"clear", 2}, {"read", 1}, {"all", 1}}; blocks = pick<int> (g, {6, 12, 30}); s.np = 64; s.bpp = pick<int> (g, {1, 2, 4}); }
    else if (prof == "C03") { w = {{"write", 10}, {"read", 4}, {"trunc", 4}, {"fsync", 3}, {"stat", 2}, {"rename", 2}, {"all", 3}, {"usage", 1}, {"report", 1}, {"otrunc", 1}}; s.np = 64; if (s.bpp > 1) s.np = 128; else s.np = pick<int> (g, {64, 11, 14, 20}); w.push_back ({"far", 1}); every = 1; }
    else if (prof == "C04") { w = {{"write", 10}, {"trunc", 3}, {"fsync", 3}, {"clear", 4}, {"link", 2}, {"rename", 2}, {"unlink", 2}, {"create", 3}, {"usage", 2}, {"all", 2}, {"report", 1}, {"utimens", 1}, {"orphan", 2}}; nm = {"a", "b", "c", "l"}; s.np = 64; }
    else if (prof == "C05") { w = {{"write", 12}, {"append", 3}, {"read", 3}, {"trunc", 3}, {"fsync", 2}, {"clear", 1}, {"unlink", 1}, {"create", 1}, {"all", 3}}; s.np = ri (g, 1, 6); s.bpp = pick<int> (g, {1, 1, 1, 2}); every = 1; }
    else if (prof == "C06") { w = {{"write", 10}, {"trunc", 5}, {"fsync", 1}, {"clear", 1}, {"unlink", 3}, {"create", 3}, {"rename", 2}, {"usage", 6}, {"cached", 3}, {"all", 1}, {"otrunc", 2}, {"symover", 1}, {"link", 1}}; nm = {"a", "b", "c"}; s.np = pick<int> (g, {2, 3, 6, 12, 64}); s.bpp = pick<int> (g, {1, 1, 2, 3, 4}); }
    else if (prof == "C07") { w = {{"write", 6}, {"append", 3}, {"trunc", 10}, {"otrunc", 1}, {"read", 3}, {"fsync", 2}, {"clear", 1}, {"all", 3}}; nm = {"a"}; s.np = 64; every = 1; }
    else if (prof == "C08") { w = {{"write", 8}, {"rename", 8}, {"link", 5}, {"unlink", 5}, {"create", 6}, {"mkdir", 3}, {"rmdir", 1}, {"fsync", 1}, {"clear", 1}, {"all", 3}, {"stat", 2}, {"symover", 2}, {"loop", 1}}; nm = {"a", "b", "c", "d/x", "d/.y", "e/x", "d", "e"}; blocks = 2; s.np = 64; nops = ri (g, 8, 35); every = 1; if (ri (g, 0, 2) == 0) { nm = {"a", "d", "e", "d/x", "d/b", "d/y", "d/s", "d/s/x", "d/s/y", "e/s/x", "e/x"}; s.ops.push_back (mk ("mkdir", "d")); s.ops.push_back (mk ("mkdir", "d/s")); s.ops.push_back (mk ("create", "d/s/x")); s.ops.push_back (mk ("create", "d/x")); s.ops.push_back (mk ("create", "d/b")); nops += 10; } }
    else if (prof == "C09") { w = {{"write", 8}, {"append", 3}, {"trunc", 5}, {"stat", 8}, {"fsync", 2}, {"link", 2}, {"unlink", 2}, {"create", 2}, {"utimens", 2}, {"clear", 1}, {"read", 2}, {"rename", 1}}; s.bs = pick<int> (g, {512, 1024, 4096}); nm = {"a", "b", "c"}; s.np = 64; every = 0; }
    else if (prof == "C10") {
        w = {{"write", 12}, {"fsync", 2}, {"read", 1}, {"trunc", 1}}; s.np = 64; s.bpp = 1; nm = {"a", "b", "a+b"}; final_all = false;
        string f = nm[ri (g, 0, 2)]; int parts = ri (g, 1, 5); bool bytes = ri (g, 0, 1); string bl; long tot = 0; if (bytes) { for (int k = 0; k < parts; k++) { int b = ri (g, 1, 2 * s.bs); tot += b; bl += (k ? "," : "") + to_string (b); } }
        string pe; int np = ri (g, 1, parts); vector<int> all; for (int k = 1; k <= parts; k++) all.push_back (k); shuffle (all.begin (), all.end (), g); for (int k = 0; k < np; k++) pe += (k ? "," : "") + to_string (all[k]);
        int occ = ri (g, 1, 4);
        if (occ == 1 && ri (g, 0, 1)) s.ops.push_back (mk ("tornop", f, bytes ? -1 : parts, 0, 0, bl, pe));
        else s.faults.push_back ({"tornop", f, to_string (occ), pe, to_string (bytes ? -1 : parts), bl});
        for (int q = ri (g, 0, 2); q > 0; q--) s.faults.insert (ri (g, 0, 1) ? s.faults.begin () : s.faults.end (), ri (g, 0, 1) ? vector<string>{"clear", "before", "unlink", f, "", "1", "1"} : vector<string>{"clear", "after", "symlink", f, "b", "1", "1"});
        for (auto& n : nm) s.ops.push_back (mk ("create", n));
        for (int k = 0; k < nops; k++) { Op o = rop (g, pickw (g, w), s.bs, blocks, nm); if (bytes && o.k == "write" && o.a == f && ri (g, 0, 2)) o.y = tot; s.ops.push_back (o); }
        s.ops.push_back (mk ("all")); return s;
    } else if (prof == "C11") {
        w = {{"write", 14}, {"fsync", 5}, {"read", 1}}; s.np = 64; s.bpp = 1; nm = {"a", "b", "a+b"}; nops = ri (g, 4, 30);
        int nf = ri (g, 1, 2); vector<string> fs{"a", "b", "a+b"}; shuffle (fs.begin (), fs.end (), g);
        for (int q = 0; q < nf; q++) { set<int> ps; int np = ri (g, 1, 3); while ((int)ps.size () < np) ps.insert (ri (g, 1, 5)); string pe; for (int p : ps) pe += (pe.empty () ? "" : ",") + to_string (p); if (ri (g, 0, 8) == 0) pe += "," + pe.substr (pe.rfind (',') == string::npos ? 0 : pe.rfind (',') + 1); int occ = ri (g, 1, 3); if (occ == 1 && ri (g, 0, 1)) { string rev; vector<int> v (ps.rbegin (), ps.rend ()); for (int p : v) rev += (rev.empty () ? "" : ",") + to_string (p); s.ops.push_back (mk ("tornseq", fs[q], 0, 0, 0, "", rev)); } else s.faults.push_back ({"tornseq", fs[q], to_string (occ), pe}); }
        for (int q = ri (g, 0, 2); q > 0; q--) s.faults.insert (ri (g, 0, 1) ? s.faults.begin () : s.faults.end (), ri (g, 0, 1) ? vector<string>{"clear", "before", "unlink", fs[0], "", "1", "1"} : vector<string>{"clear", "after", "symlink", fs[0], "b", "1", "1"});
        for (auto& n : nm) s.ops.push_back (mk ("create", n));
        for (int k = 0; k < nops; k++) s.ops.push_back (rop (g, pickw (g, w), s.bs, 3, nm));
        s.ops.push_back (mk ("all")); return s;
    } else if (prof == "C12" || prof == "C18") {
        w = {{"write", 6}, {"append", 1}, {"read", 4}, {"trunc", 3}, {"fsync", 3}, {"rename", 3}, {"link", 3}, {"unlink", 3}, {"symlink", 2}, {"access", 2}, {"create", 4}, {"otrunc", 1}, {"usage", 1}, {"report", 1}, {"clear", prof == "C18" ? 2 : 0}, {"checkpoint", prof == "C18" ? 2 : 0}, {"stat", 1}, {"all", 1}}; nm = {"a", "b", "c"}; s.np = 64; s.bpp = 1; nops = ri (g, 6, 30); blocks = 3;
        static const char* ops[] = {"unlink", "truncate", "fsync", "write", "create", "access", "open", "read", "rename", "link", "symlink"};
        int nf = ri (g, 1, 3); vector<string> fs = nm; shuffle (fs.begin (), fs.end (), g);
        bool same = ri (g, 0, 2) == 0;
        for (int q = 0; q < nf; q++) { string op = ops[ri (g, 0, 10)]; string to = two (op) ? nm[ri (g, 0, 2)] : ""; if (same) fs[q] = fs[0]; s.faults.push_back ({"clear", pick<const char*> (g, {"before", "after"}), op, fs[q], to, to_string (ri (g, 1, two (op) ? 2 : 4)), to_string (ri (g, 0, 3) == 0)}); }
        for (auto& n : nm) s.ops.push_back (mk ("create", n));
        for (int k = 0; k < nops; k++) s.ops.push_back (rop (g, pickw (g, w), s.bs, blocks, nm));
        s.ops.push_back (mk ("all")); return s;
    } else if (prof == "C13") {
        w = {{"write", 5}, {"read", 3}, {"trunc", 2}, {"fsync", 2}, {"rename", 4}, {"link", 4}, {"unlink", 3}, {"symlink", 3}, {"access", 3}, {"create", 3}}; nm = {"a", "bb", "nn", "ab"}; s.np = 64; s.bpp = 1; nops = ri (g, 3, 14); blocks = 3;
        static const char* ops[] = {"unlink", "truncate", "fsync", "write", "create", "access", "open", "read", "rename", "link", "symlink"};
        for (auto& n : nm) if (ri (g, 0, 3)) s.ops.push_back (mk ("create", n));
        auto pat = [&] () -> string { return pick<const char*> (g, {"/a", "/b", "n", "/nn", "a$", "b", "zz", "/a$", "[ab]b", "/a|/b", "zz|n", "b|a$"}); };
        int nf = ri (g, 1, 2);
        for (int q = 0; q < nf; q++) { string op = ops[ri (g, 0, 10)]; if (ri (g, 0, 1)) op = pick<const char*> (g, {"rename", "link", "symlink"}); string f = pat (), t = "none"; if (two (op)) { int m = ri (g, 0, 2); if (m == 0) f = "none"; if (m != 1) t = pat (); } s.ops.push_back (mk ("crashf", pick<const char*> (g, {"before", "after"}), 0, 0, 0, op, f + "," + t)); }
        for (int k = 0; k < nops; k++) s.ops.push_back (rop (g, pickw (g, w), s.bs, blocks, nm));
        return s;
    } else if (prof == "C15") { w = {{"write", 10}, {"report", 8}, {"link", 2}, {"fsync", 4}, {"trunc", 3}, {"clear", 1}, {"link", 1}, {"rename", 1}, {"unlink", 1}, {"create", 1}, {"checkpoint", 1}, {"read", 1}}; nm = {"a", "b", "c"}; blocks = 10; s.np = 128; every = 0; }
    else if (prof == "C16") { w = {{"write", 10}, {"checkpoint", 4}, {"trunc", 3}, {"fsync", 1}, {"clear", 1}, {"link", 2}, {"rename", 2}, {"create", 2}, {"unlink", 1}, {"all", 2}, {"report", 1}, {"usage", 1}}; nm = {"a", "b", "c", "l"}; s.np = 64; }
    else if (prof == "C17") { // every write is synced at once: evicting unsynced data is a known finding
        s.evict = 1; s.bpp = 1; s.np = ri (g, 2, 6); nm = {"a", "b", "c"}; nops = ri (g, 6, 30);
        for (auto& n : nm) { s.ops.push_back (mk ("create", n)); }
        long sz[3] = {0, 0, 0};
        for (int k = 0; k < nops; k++) { int f = ri (g, 0, 2); int r = ri (g, 0, 9);
            if (r < 5) { long off = min (sz[f], roff (g, s.bs, 5)), n = min ((long)ri (g, 1, s.bs), (long)s.bs); if (s.np == 2) n = min (n, s.bs - off % s.bs); s.ops.push_back (mk ("wsync", nm[f], off, n, ri (g, 1, 9999) * 5 + 1)); sz[f] = max (sz[f], off + n); }
            else if (r < 9) s.ops.push_back (mk ("read", nm[f], roff (g, s.bs, 5), rsize (g, s.bs)));
            else s.ops.push_back (mk ("unlink", nm[f])), s.ops.push_back (mk ("create", nm[f])), sz[f] = 0;
            s.ops.push_back (mk ("cached")); if (ri (g, 0, 5) == 0) s.ops.push_back (mk ("usage")); }
        s.ops.push_back (mk ("all")); return s;
    } else if (prof == "C20") {
        nm = {"p", "q", "dd", "dd/p", "dd/q", "sl", "zz/q", "dd/.h", ".#k", "dd/.#k"}; nops = ri (g, 5, 30); s.np = 16;
        static const char* ks[] = {"mkdir", "rmdir", "chmod", "chown", "symlink", "link", "unlink", "rename", "renamef", "access", "utimens", "getattr", "readlink", "readdir", "creat", "open", "lseek"};
        s.ops.push_back (mk ("pass", "p", 0644, 0, 0, "", "creat")); s.ops.push_back (mk ("pass", "dd", 0755, 0, 0, "", "mkdir")); s.ops.push_back (mk ("pass", "sl", 0, 0, 0, "target/x", "symlink"));
        for (int k = 0; k < nops; k++) { string q = ks[ri (g, 0, 16)]; long x = 0, y = 0; if (q == "mkdir") x = pick<int> (g, {0755, 0700, 0777}); if (q == "chmod" || q == "creat") x = pick<int> (g, {0600, 0644, 0755, 0444, 04755}); if (q == "chown") x = ri (g, 0, 5000), y = ri (g, 0, 5000); if (q == "access") x = ri (g, 0, 7); if (q == "utimens") x = ri (g, 1, 2000000000), y = ri (g, 1, 2000000000); if (q == "readlink") x = pick<int> (g, {2, 5, 9, 10, 200}); if (q == "open") x = pick<int> (g, {O_RDONLY, O_WRONLY, O_RDWR, O_RDWR | O_TRUNC}); if (q == "lseek") x = ri (g, -3, 20), y = ri (g, 0, 3); if (q == "readdir") y = ri (g, 0, 5); s.ops.push_back (mk ("pass", q == "readdir" && ri (g, 0, 2) ? "dd" : nm[ri (g, 0, 9)], x, y, 0, nm[ri (g, 0, 9)], q)); }
        return s;
    } else if (prof == "C21") { w = {{"write", 10}, {"append", 2}, {"read", 8}, {"trunc", 5}, {"fsync", 3}, {"clear", 1}, {"otrunc", 1}, {"report", 2}, {"rename", 1}, {"checkpoint", 1}, {"unlink", 1}, {"create", 1}, {"all", 1}}; s.bpp = pick<int> (g, {1, 2, 3}); s.bs = pick<int> (g, {2, 8, 16, 512, 4096}); nm = {"a", "b"};
        if (ri (g, 0, 2) == 0) { // torn faults
            int parts = ri (g, 1, 4); s.faults.push_back ({"tornop", "a", "5", to_string (ri (g, 1, parts)), to_string (parts), ""}); } }
    else w = {{"write", 1}};
    if (ri (g, 0, 2) == 0) s.faults.push_back ({"disk", "a", to_string (ri (g, 0, 5 * s.bs))});
    if (ri (g, 0, 5) == 0) s.faults.push_back ({"disk", "b", to_string (ri (g, 0, 3 * s.bs))});
    if (prof == "C02" && ri (g, 0, 40) == 0) { s.bs = 2; s.np = 4096; s.bpp = 1; s.ops.push_back (mk ("create", "a")); s.ops.push_back (mk ("write", "a", 0, 2 * ri (g, 1020, 2060), 3)); s.ops.push_back (mk ("fsync", "a", 0)); s.ops.push_back (mk ("write", "a", 5, 2060, 4)); s.ops.push_back (mk ("fsync", "a", 1)); }
    for (auto& n : nm) if (n.find ('/') == string::npos && n != "d" && n != "e" && ri (g, 0, 4)) s.ops.push_back (mk ("create", n));
    for (int k = 0; k < nops; k++) { s.ops.push_back (rop (g, pickw (g, w), s.bs, blocks, nm)); if (every && ri (g, 0, 1)) s.ops.push_back (mk ("all")); }
    if (final_all) s.ops.push_back (mk ("all"));
    return s;
}

// half of the scenarios use names of which one is the beginning of another
static Scn gen (const string& prof, G& g) {
    Scn s = gen0 (prof, g); int v = ri (g, 0, 3); if ((prof == "C09" || prof == "C20") && ri (g, 0, 15) == 0) s.ops.insert (s.ops.begin (), mk ("init", ""));
    if (prof == "C08" && s.ops[0].k == "mkdir") for (auto& o : s.ops) if (o.k == "rename" && ri (g, 0, 1)) { static const char* ds[] = {"d", "e", "d/s", "e/s"}; o.a = ds[ri (g, 0, 3)]; o.b = ds[ri (g, 0, 3)]; }
    if (prof == "C13" || prof == "C20" || v < 2) return s;
    map<string, string> m = v == 2 ? map<string, string>{{"a", "f"}, {"b", "f1"}, {"c", "f1.x"}, {"l", "1"}} : map<string, string>{{"a", "pf"}, {"b", "f"}, {"c", "p"}, {"l", "f.pf"}};
    auto re = [&] (string& x) { auto i = m.find (x); if (i != m.end ()) x = i->second; };
    for (auto& o : s.ops) { re (o.a); re (o.b); } for (auto& f : s.faults) for (size_t i = 1; i < f.size (); i++) re (f[i]);
    return s;
}
