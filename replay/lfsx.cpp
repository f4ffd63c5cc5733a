// lfsx: runs the real LazyFS operations (no FUSE mount) on a scratch directory and compares every observable result
// with a reference model of the file system semantics.  Used to replay / search failing inputs for failed obligations
// and as bounded stand-in.   lfsx search PROFILE SEED SECONDS MAXRUNS SCRATCH OUT | lfsx replay FILE SCRATCH
#include <algorithm>
#include <atomic>
#include <thread>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <regex>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>
#include <signal.h>
#include <sys/time.h>
#include <spdlog/spdlog.h>
#include <spdlog/sinks/ostream_sink.h>
#include <lazyfs/lazyfs.hpp>
using namespace std;
using lazyfs::LazyFS;

// ---------------------------------------------------------------- stubs
static fuse_context g_ctx;
extern "C" struct fuse_context* fuse_get_context (void) { return &g_ctx; }
static void on_kill ();
extern "C" int kill (pid_t pid, int sig) noexcept { on_kill (); _exit (3); }
#ifdef HAVE_CMDLOCK
extern std::shared_mutex cache_command_lock;
#endif

// ---------------------------------------------------------------- scenario
struct Op { string k, a, b; long x = 0, y = 0, z = 0; string s; };
struct Scn { int bs = 16, bpp = 1, np = 8, evict = 0; vector<vector<string>> faults; vector<Op> ops; };
static string dash (const string& s) { return s.empty () ? "-" : s; }
static string undash (const string& s) { return s == "-" ? "" : s; }
static string scn_str (const Scn& s) {
    ostringstream o;
    o << "config " << s.bs << " " << s.bpp << " " << s.np << " " << s.evict << "\n";
    for (auto& f : s.faults) { o << "fault"; for (auto& w : f) o << " " << dash (w); o << "\n"; }
    for (auto& p : s.ops) o << "op " << p.k << " " << dash (p.a) << " " << dash (p.b) << " " << p.x << " " << p.y << " " << p.z << " " << dash (p.s) << "\n";
    return o.str ();
}
static Scn scn_parse (istream& in) {
    Scn s; string line;
    while (getline (in, line)) {
        istringstream l (line); string w; l >> w;
        if (w == "config") l >> s.bs >> s.bpp >> s.np >> s.evict;
        else if (w == "fault") { vector<string> f; while (l >> w) f.push_back (undash (w)); s.faults.push_back (f); }
        else if (w == "op") { Op p; l >> p.k >> p.a >> p.b >> p.x >> p.y >> p.z >> p.s; p.a = undash (p.a); p.b = undash (p.b); p.s = undash (p.s); s.ops.push_back (p); }
    }
    return s;
}

// ---------------------------------------------------------------- model
struct Ino {
    string log, disk; bool disk_known = true; bool kept = false;
    set<int> cached, unsynced; int nlink = 1; bool shrunk = false; bool mtime_known = false; timespec mtime{};
    bool had_dir = false;
};
struct TornSeq { string file; int occ; vector<int> persist; int counter = 0, group = 0; bool pend = false; long poff = 0; string pdata; };
struct TornOp { string file; int occ; vector<int> persist; int parts; vector<int> bytes; int counter = 0; };
struct ClearF { string timing, op, from, to; int occ; bool crash; int counter = 0; };
struct CrashF { string timing, op, from, to; };
struct Step { string op, from, to; };
struct Model {
    int bs, bpp, np, evict;
    map<string, int> names; map<int, Ino> inos; int next = 1;
    set<string> dirs;
    vector<TornSeq> tseq; vector<TornOp> top; vector<ClearF> clf; vector<CrashF> crf;
    bool exact = true; // the set of cached blocks is known
    vector<pair<int, int>> lru; // (ino, blk), most recent first (bpp==1, evict)
    int used () { int n = 0; for (auto& i : inos) n += i.second.cached.size (); return n; }
    void lru_touch (int i, int b) { lru.erase (remove (lru.begin (), lru.end (), make_pair (i, b)), lru.end ()); lru.insert (lru.begin (), {i, b}); }
    void lru_drop (int i, int b) { lru.erase (remove (lru.begin (), lru.end (), make_pair (i, b)), lru.end ()); }
    void drop_blk (int i, int b) { inos[i].cached.erase (b); inos[i].unsynced.erase (b); lru_drop (i, b); }
    static void setrange (string& s, long off, const string& d) { if ((long)s.size () < off + (long)d.size ()) s.resize (off + d.size (), '\0'); s.replace (off, d.size (), d); }
    void put_range (int i, long off, const string& d) {
        Ino& n = inos[i]; long lo = off / bs, hi = (off + (long)d.size () - 1) / bs;
        bool full = used () >= np && !evict;
        for (long b = lo; b <= hi; b++) {
            long f = max (off, b * bs), t = min (off + (long)d.size (), (b + 1) * bs);
            if (n.cached.count (b)) { n.unsynced.insert (b); continue; }
            if (bpp > 1) { n.cached.insert (b); n.unsynced.insert (b); if (used () > np) exact = false; continue; }
            if (!full && used () < np) { n.cached.insert (b); n.unsynced.insert (b); lru_touch (i, b); }
            else if (evict) { auto v = lru.back (); drop_blk (v.first, v.second); n.cached.insert (b); n.unsynced.insert (b); lru_touch (i, b); }
            else setrange (n.disk, f, d.substr (f - off, t - f));
        }
        if (!exact) n.disk_known = false;
    }
    void write (int i, long off, const string& d) {
        Ino& n = inos[i];
        long sz = n.log.size ();
        if (sz < off) { string z (off - sz, '\0'); put_range (i, sz, z); setrange (n.log, sz, z); }
        put_range (i, off, d);
        setrange (n.log, off, d);
    }
    void trunc (int i, long sz) {
        Ino& n = inos[i]; long old = n.log.size ();
        if (sz > old) { string z (sz - old, '\0'); put_range (i, old, z); n.log.resize (sz, '\0'); }
        else if (sz < old) { n.shrunk = true; n.log.resize (sz); vector<int> dr; for (int b : n.cached) if ((long)b * bs >= sz) dr.push_back (b); for (int b : dr) drop_blk (i, b); }
    }
    void sync (int i) { Ino& n = inos[i]; n.disk = n.log; n.disk_known = true; n.unsynced.clear (); }
    function<string (int)> read_disk; // used when the model does not know the disk contents
    void clear () {
        for (auto& p : inos) { Ino& n = p.second; if (!n.disk_known) n.disk = read_disk (p.first); n.disk_known = true; n.log = n.disk; n.cached.clear (); n.unsynced.clear (); n.mtime_known = false; n.shrunk = false; n.kept = false; }
        lru.clear (); exact = true;
    }
    void drop_name (const string& nm) { int i = names[nm]; names.erase (nm); if (--inos[i].nlink == 0) { vector<int> c (inos[i].cached.begin (), inos[i].cached.end ()); for (int b : c) drop_blk (i, b); inos.erase (i); } }
};
static bool two (const string& op) { return op == "rename" || op == "link" || op == "symlink"; }

// ---------------------------------------------------------------- running
static Model M; static string ROOT; static FILE* REP = nullptr; static int CUR = -1; static const Scn* CS;
static bool expect_crash = false; static bool in_op = false;
static LazyFS* FS; static cache::Cache* CACHE; static ostringstream LOGS;
static string P (const string& n) { return ROOT + "/" + n; }
static void fail (const string& m) {
    if (REP) { fprintf (REP, "FAIL step %d (%s %s %s %ld %ld): %s\n", CUR, CUR >= 0 ? CS->ops[CUR].k.c_str () : "", CUR >= 0 ? CS->ops[CUR].a.c_str () : "", CUR >= 0 ? CS->ops[CUR].b.c_str () : "", CUR >= 0 ? CS->ops[CUR].x : 0, CUR >= 0 ? CS->ops[CUR].y : 0, m.c_str ()); fflush (REP); }
    _exit (1);
}
static string slurp (const string& p) { ifstream f (p, ios::binary); stringstream s; s << f.rdbuf (); return s.str (); }
static string hexs (const string& s, size_t n = 48) { string r; char b[4]; for (size_t i = 0; i < min (n, s.size ()); i++) { snprintf (b, 4, "%02x", (unsigned char)s[i]); r += b; } return r; }
static string diff (const string& exp, const string& got) {
    ostringstream o; o << "expected " << exp.size () << " bytes, got " << got.size ();
    for (size_t i = 0; i < min (exp.size (), got.size ()); i++) if (exp[i] != got[i]) { o << ", first difference at " << i << ": expected " << hexs (exp.substr (i, 8)) << " got " << hexs (got.substr (i, 8)); break; }
    return o.str ();
}
static void check_disk (const string& when) {
    for (auto& n : M.names) { Ino& i = M.inos[n.second]; if (!i.disk_known) continue; string d = slurp (P (n.first)); if (d != i.disk) fail ("backing file '" + n.first + "' " + when + ": " + diff (i.disk, d)); }
}
static void on_kill () {
    if (!in_op || !expect_crash) fail ("process killed although no fault should fire here");
    check_disk ("at the crash");
    _exit (0);
}
static bool rx (const string& path, const string& pat) { return std::regex_search (path, std::regex (pat)); }
// 0 nothing, 1 crash, 2 clear
static int trig (const Step& s, bool before) {
    for (auto& c : M.crf) {
        if (c.op != s.op || (c.timing == "before") != before) continue;
        bool m;
        if (two (s.op)) m = (c.from == "none" || rx (P (s.from), c.from)) && (c.to == "none" || rx (P (s.to), c.to));
        else m = rx (P (s.from), c.from);
        if (m) return 1;
    }
    int res = 0;
    for (auto& f : M.clf) {
        if (f.op != s.op || f.from != s.from) continue;
        if (two (s.op) && f.to != s.to) continue;
        if (before) f.counter++;
        if ((f.timing == "before") == before && f.counter == f.occ) { if (f.crash) return 1; M.clear (); res = 2; }
    }
    return res;
}
static bool before (const Step& s) { return trig (s, true) == 1; }
static bool after (const Step& s) { return trig (s, false) == 1; }
static void locks_free (const char* w) {
#ifdef HAVE_CMDLOCK
    if (!cache_command_lock.try_lock ()) fail (string ("command lock still held after ") + w);
    cache_command_lock.unlock ();
#endif
}
// run one real operation; `crash` is what the model expects
template <class F> static long real (bool crash, const char* what, F f) {
    expect_crash = crash; in_op = true; long r = f (); in_op = false;
    if (crash) fail (string ("no crash although a fault should fire in ") + what);
    locks_free (what);
    return r;
}
static string payload (long n, long seed) { string d (n, 0); unsigned s = seed * 2654435761u + 12345; for (long i = 0; i < n; i++) { s = s * 1103515245u + 12345; d[i] = 1 + ((s >> 16) % 255); } return d; }
static bool before_tspec (const timespec& a, const timespec& b) { return a.tv_sec < b.tv_sec || (a.tv_sec == b.tv_sec && a.tv_nsec < b.tv_nsec); }
static timespec now () { timespec t; clock_gettime (CLOCK_REALTIME, &t); return t; }
static bool EXTRA_ATTR = true;
static void check_attr (const string& n) {
    struct stat st; memset (&st, 0, sizeof st);
    struct stat ls; int e = lstat (P (n).c_str (), &ls) ? errno : 0;
    long r = real (false, "getattr", [&] { return (long)LazyFS::lfs_getattr (P (n).c_str (), &st, NULL); });
    if (!M.names.count (n)) {
        if (M.dirs.count (n)) { if (r != 0) fail ("getattr on directory returned " + to_string (r)); if (st.st_mode != ls.st_mode || st.st_ino != ls.st_ino) fail ("directory attributes differ from backing"); return; }
        if (r != -e) fail ("getattr returned " + to_string (r) + ", expected " + to_string (-e));
        return;
    }
    if (r != 0) fail ("getattr returned " + to_string (r));
    Ino& i = M.inos[M.names[n]];
    if (st.st_ino != ls.st_ino || st.st_mode != ls.st_mode || st.st_uid != ls.st_uid) fail ("getattr identity fields differ from the backing file");
    if (st.st_size != (off_t)i.log.size ()) fail ("size of '" + n + "': expected " + to_string (i.log.size ()) + " got " + to_string (st.st_size));
    if ((int)st.st_nlink != i.nlink) fail ("nlink of '" + n + "': expected " + to_string (i.nlink) + " got " + to_string (st.st_nlink));
    if (i.kept && M.bs % 512 == 0) {
        long blocks = ((long)i.log.size () + M.bs - 1) / M.bs * (M.bs / 512);
        if (st.st_blocks != blocks) fail ("blocks of '" + n + "': expected " + to_string (blocks) + " got " + to_string (st.st_blocks));
    }
    i.kept = true;
    if (i.mtime_known) { if (st.st_mtim.tv_sec != i.mtime.tv_sec || st.st_mtim.tv_nsec != i.mtime.tv_nsec) fail ("mtime of '" + n + "' changed without a modification"); }
    else { i.mtime = st.st_mtim; i.mtime_known = true; }
}
static void after_mod (const string& n, const timespec& t0) {
    struct stat st; memset (&st, 0, sizeof st);
    real (false, "getattr", [&] { return (long)LazyFS::lfs_getattr (P (n).c_str (), &st, NULL); });
    timespec t1 = now (); Ino& i = M.inos[M.names[n]];
    if (before_tspec (st.st_mtim, t0) || before_tspec (t1, st.st_mtim)) fail ("mtime of '" + n + "' not updated by the modification");
    i.mtime = st.st_mtim; i.mtime_known = true; i.kept = true;
}
static int xopen (const string& n, int flags, fuse_file_info& fi) {
    struct stat st;
    real (false, "lookup", [&] { return (long)LazyFS::lfs_getattr (P (n).c_str (), &st, NULL); });
    memset (&fi, 0, sizeof fi); fi.flags = flags;
    vector<Step> ss{{"open", n, ""}}; bool tr = flags & O_TRUNC; bool c = false;
    if (before ({"open", n, ""})) c = true;
    if (!c && tr) { if (before ({"truncate", n, ""})) c = true; if (!c) { M.trunc (M.names[n], 0); M.inos[M.names[n]].mtime_known = false; c = after ({"truncate", n, ""}); } }
    if (!c) c = after ({"open", n, ""});
    long r = real (c, "open", [&] { return (long)LazyFS::lfs_open (P (n).c_str (), &fi); });
    if (r != 0) fail ("open returned " + to_string (r));
    return 0;
}
static void xclose (const string& n, fuse_file_info& fi) {
    int fd = fi.fh;
    real (false, "release", [&] { return (long)LazyFS::lfs_release (P (n).c_str (), &fi); });
    if (fcntl (fd, F_GETFD) != -1) fail ("release did not close the backing descriptor");
}
static int count_fds () { int d = dup (2); if (d >= 0) close (d); return d; } // the lowest free descriptor: it grows when one is left open
static void do_read (const string& n, long off, long size) {
    fuse_file_info fi; xopen (n, O_RDWR, fi);
    bool c = before ({"read", n, ""});
    string exp; int id = M.names[n]; Ino& i = M.inos[id];
    if (!c) { if (off < (long)i.log.size ()) exp = i.log.substr (off, size);
        if (exp.size () && M.bpp == 1 && M.evict) for (long b = off / M.bs; b <= (off + (long)exp.size () - 1) / M.bs; b++) if (i.cached.count (b)) M.lru_touch (id, b);
        c = after ({"read", n, ""}); }
    vector<char> buf (size + 64, (char)0xEE);
    // exact-size heap buffer so that an overflow is seen by the sanitizer
    char* hb = (char*)malloc (size); memset (hb, 0xEE, size);
    long r = real (c, "read", [&] { return (long)LazyFS::lfs_read (P (n).c_str (), hb, size, off, &fi); });
    if (r != (long)exp.size ()) fail ("read returned " + to_string (r) + ", expected " + to_string (exp.size ()));
    string got (hb, r);
    if (got != exp) fail ("read data: " + diff (exp, got));
    free (hb);
    xclose (n, fi);
}
static void apply_seed_write (int id, const string& path, long off, const string& d, bool& crash) {
    // torn-seq
    bool added = false;
    for (auto& t : M.tseq) {
        if (t.file != path) continue;
        t.counter++;
        if (t.counter == 2) t.group++;
        if (t.pend) {
            t.pend = false;
            if (t.group == t.occ) { Model::setrange (M.inos[id].disk, t.poff, t.pdata); if (t.persist.back () == 1) { crash = true; return; } }
        }
        if (find (t.persist.begin (), t.persist.end (), t.counter) != t.persist.end ()) {
            if (t.counter == 1) { t.pend = true; t.poff = off; t.pdata = d; }
            else if (t.group == t.occ) { Model::setrange (M.inos[id].disk, off, d); if (t.persist.back () == t.counter) { crash = true; added = true; } }
        }
    }
    if (added) return;
    for (auto& t : M.top) {
        if (t.file != path) continue;
        t.counter++;
        if (t.counter != t.occ) continue;
        vector<pair<long, long>> pieces; long sum = 0;
        if (t.parts == -1) {
            for (int b : t.bytes) sum += b;
            if (sum != (long)d.size ()) continue;
            for (int p : t.persist) { long o = 0; for (int k = 0; k < p - 1; k++) o += t.bytes[k]; pieces.push_back ({o, t.bytes[p - 1]}); }
        } else {
            long each = d.size () / t.parts;
            for (int p : t.persist) pieces.push_back ({(p - 1) * each, p == t.parts ? (long)d.size () - (p - 1) * each : each});
        }
        for (auto& pc : pieces) if (pc.second > 0) Model::setrange (M.inos[id].disk, off + pc.first, d.substr (pc.first, pc.second));
        crash = true;
    }
}
static void do_write (const string& n, long off, long size, long seed) {
    string d = payload (size, seed);
    fuse_file_info fi; xopen (n, O_RDWR | (seed % 5 == 0 ? O_APPEND : 0), fi);
    int id = M.names[n]; bool c = before ({"write", n, ""});
    if (!c) { M.write (id, off, d); bool cr = false; apply_seed_write (id, n, off, d, cr); c = cr; if (!c) c = after ({"write", n, ""}); }
    timespec t0 = now ();
    char* hb = (char*)malloc (size); memcpy (hb, d.data (), size);
    long r = real (c, "write", [&] { return (long)LazyFS::lfs_write (P (n).c_str (), hb, size, off, &fi); });
    if (memcmp (hb, d.data (), size)) fail ("write changed the caller's buffer");
    free (hb);
    if (r != size) fail ("write returned " + to_string (r) + ", expected " + to_string (size));
    xclose (n, fi);
    bool cleared = false; for (auto& f : M.clf) if (f.op == "write" && f.counter == f.occ && f.from == n && !f.crash) cleared = true;
    if (!cleared) after_mod (n, t0); else M.inos[id].mtime_known = false;
}
static void do_fsync (const string& n, bool data) {
    fuse_file_info fi; xopen (n, O_RDWR, fi);
    int id = M.names[n]; bool c = before ({"fsync", n, ""});
    if (!c) { for (auto& t : M.tseq) if (t.file == n) { t.counter = 0; t.pend = false; } M.sync (id); c = after ({"fsync", n, ""}); }
    long r = real (c, "fsync", [&] { return (long)LazyFS::lfs_fsync (P (n).c_str (), data, &fi); });
    if (r != 0) fail ("fsync returned " + to_string (r));
    if (M.inos[id].disk_known) { string g = slurp (P (n)); if (g != M.inos[id].disk) fail ("backing file after fsync: " + diff (M.inos[id].disk, g)); }
    xclose (n, fi);
}
static void do_trunc (const string& n, long size, bool withfi) {
    fuse_file_info fi; if (withfi) xopen (n, O_RDWR, fi); else { struct stat st; real (false, "lookup", [&] { return (long)LazyFS::lfs_getattr (P (n).c_str (), &st, NULL); }); }
    int id = M.names[n]; bool c = before ({"truncate", n, ""});
    if (!c) { M.trunc (id, size); c = after ({"truncate", n, ""}); }
    timespec t0 = now ();
    long r = real (c, "truncate", [&] { return (long)LazyFS::lfs_truncate (P (n).c_str (), size, withfi ? &fi : NULL); });
    if (r != 0) fail ("truncate returned " + to_string (r));
    if (withfi) xclose (n, fi);
    bool cleared = false; for (auto& f : M.clf) if (f.op == "truncate" && f.counter == f.occ && f.from == n && !f.crash) cleared = true;
    if (!cleared) after_mod (n, t0); else M.inos[id].mtime_known = false;
}
static void do_create (const string& n) {
    if (M.names.count (n)) return;
    fuse_file_info fi; memset (&fi, 0, sizeof fi); fi.flags = O_CREAT | O_EXCL | O_RDWR;
    bool c = before ({"create", n, ""});
    if (!c) { int id = M.next++; M.inos[id] = Ino (); M.names[n] = id; c = after ({"create", n, ""}); }
    long r = real (c, "create", [&] { return (long)LazyFS::lfs_create (P (n).c_str (), 0644, &fi); });
    if (r != 0) fail ("create returned " + to_string (r));
    xclose (n, fi);
    check_attr (n);
}
static bool is_under (const string& n, const string& d) { return n.compare (0, d.size () + 1, d + "/") == 0; }
static int parent_err (const string& n) { for (size_t k = n.find ('/'); k != string::npos; k = n.find ('/', k + 1)) { string p = n.substr (0, k); if (!M.dirs.count (p)) return M.names.count (p) ? ENOTDIR : ENOENT; } return 0; }
static void do_rename (const string& a, const string& b) {
    struct stat st;
    for (auto& n : {a, b}) real (false, "lookup", [&] { return (long)LazyFS::lfs_getattr (P (n).c_str (), &st, NULL); });
    bool adir = M.dirs.count (a), bdir = M.dirs.count (b); bool af = M.names.count (a), bf = M.names.count (b);
    int exp = 0;
    if (parent_err (a)) exp = parent_err (a);
    else if (parent_err (b)) exp = parent_err (b);
    else if (!adir && !af) exp = ENOENT;
    else if (adir && is_under (b, a)) exp = EINVAL;
    else if (adir && bf) exp = ENOTDIR;
    else if (af && bdir) exp = EISDIR;
    else if (adir && bdir && a != b) { for (auto& n : M.names) if (is_under (n.first, b)) exp = ENOTEMPTY; for (auto& d : M.dirs) if (is_under (d, b)) exp = ENOTEMPTY; }
    if (adir && is_under (a, b)) return;
    if (af && is_under (a, b)) { exp = 0; return; }
    if (a == b) return;
    bool c = before ({"rename", a, b});
    if (!c && exp == 0) {
        if (adir) { set<string> nd; for (auto& d : M.dirs) nd.insert (d == a ? b : is_under (d, a) ? b + d.substr (a.size ()) : d); M.dirs = nd; map<string, int> nn; for (auto& n : M.names) nn[is_under (n.first, a) ? b + n.first.substr (a.size ()) : n.first] = n.second; M.names = nn; }
        else if (!(bf && M.names[a] == M.names[b])) { if (bf) M.drop_name (b); M.names[b] = M.names[a]; M.names.erase (a); }
        c = after ({"rename", a, b});
    }
    long r = real (c, "rename", [&] { return (long)LazyFS::lfs_rename (P (a).c_str (), P (b).c_str (), 0); });
    if (r != -exp) fail ("rename returned " + to_string (r) + ", expected " + to_string (-exp));
}
static void do_link (const string& a, const string& b) {
    if (M.dirs.count (a)) return;
    struct stat st; real (false, "lookup", [&] { return (long)LazyFS::lfs_getattr (P (a).c_str (), &st, NULL); });
    int exp = 0;
    if (!M.names.count (a)) exp = parent_err (a) ? parent_err (a) : ENOENT;
    else if (parent_err (b)) exp = parent_err (b);
    else if (M.names.count (b) || M.dirs.count (b)) exp = EEXIST;
    bool c = before ({"link", a, b});
    if (!c && !exp) { M.names[b] = M.names[a]; M.inos[M.names[a]].nlink++; c = after ({"link", a, b}); }
    long r = real (c, "link", [&] { return (long)LazyFS::lfs_link (P (a).c_str (), P (b).c_str ()); });
    if (r != -exp) fail ("link returned " + to_string (r) + ", expected " + to_string (-exp));
}
static void do_unlink (const string& a) {
    struct stat st; real (false, "lookup", [&] { return (long)LazyFS::lfs_getattr (P (a).c_str (), &st, NULL); });
    int exp = M.names.count (a) ? 0 : M.dirs.count (a) ? EISDIR : parent_err (a) ? parent_err (a) : ENOENT;
    bool c = before ({"unlink", a, ""});
    if (!c && !exp) { M.drop_name (a); c = after ({"unlink", a, ""}); }
    long r = real (c, "unlink", [&] { return (long)LazyFS::lfs_unlink (P (a).c_str ()); });
    if (r != -exp) fail ("unlink returned " + to_string (r) + ", expected " + to_string (-exp));
}
static void do_symlink (const string& a, const string& b) {
    if (M.names.count (b) || M.dirs.count (b)) return;
    bool c = before ({"symlink", a, b}); if (!c) c = after ({"symlink", a, b});
    ::unlink (P (b).c_str ());
    long r = real (c, "symlink", [&] { return (long)LazyFS::lfs_symlink (P (a).c_str (), P (b).c_str ()); });
    if (r != 0) fail ("symlink returned " + to_string (r));
    char t[4096]; memset (t, 0x55, sizeof t); long rr = real (false, "readlink", [&] { return (long)LazyFS::lfs_readlink (P (b).c_str (), t, sizeof t); });
    if (rr != 0 || P (a) != t) fail ("readlink gives a different target");
    struct stat st, ls; lstat (P (b).c_str (), &ls); real (false, "getattr", [&] { return (long)LazyFS::lfs_getattr (P (b).c_str (), &st, NULL); });
    if (st.st_size != ls.st_size || st.st_mode != ls.st_mode) fail ("attributes of a symbolic link differ from the backing file");
    ::unlink (P (b).c_str ());
}
static void do_access (const string& a, int mask) {
    int e = access (P (a).c_str (), mask) ? errno : 0;
    bool c = before ({"access", a, ""}); if (!c && !e) c = after ({"access", a, ""});
    long r = real (c, "access", [&] { return (long)LazyFS::lfs_access (P (a).c_str (), mask); });
    if (r != -e) fail ("access returned " + to_string (r) + ", expected " + to_string (-e));
}
static string inostr (const string& n) { struct stat st; if (lstat (P (n).c_str (), &st)) return ""; return to_string (st.st_ino); }
static void check_attr (const string& n);
static void do_report (bool lookup) {
    if (lookup) for (auto& n : M.names) check_attr (n.first); // every name is known from here on
    map<string, set<int>> exp; map<string, set<string>> nm; map<string, int> id;
    for (auto& n : M.names) { string s = inostr (n.first); nm[s].insert (n.first); id[s] = n.second; for (int b : M.inos[n.second].unsynced) exp[s].insert (b); }
    if (!M.exact) return;
    auto res = CACHE->report_unsynced_data ();
    map<string, set<int>> got; long total = 0;
    for (auto& t : res) for (auto& b : get<2> (t)) {
        if (!got[get<0> (t)].insert (get<0> (b)).second) fail ("report lists a block twice");
        total += get<1> (b).second - get<1> (b).first + 1;
        if (!id.count (get<0> (t))) fail ("report lists unknown inode");
        Ino& i = M.inos[id[get<0> (t)]];
        long need = min ((long)M.bs, (long)i.log.size () - (long)get<0> (b) * M.bs) - 1;
        if (get<1> (b).first != 0 || get<1> (b).second < need || get<1> (b).second >= M.bs) fail ("report byte range wrong");
        if (!i.shrunk && i.disk_known && i.disk.size () <= i.log.size () && get<1> (b).second != need) fail ("report byte range too long: block " + to_string (get<0> (b)) + " to " + to_string (get<1> (b).second) + " expected " + to_string (need));
        if (!i.cached.count (get<0> (b))) fail ("report lists a block that is not cached");
    }
    if (got != exp) { ostringstream o; o << "report: expected blocks"; for (auto& e : exp) { o << " [" << e.first << ":"; for (int b : e.second) o << " " << b; o << "]"; } o << " got"; for (auto& e : got) { o << " [" << e.first << ":"; for (int b : e.second) o << " " << b; o << "]"; } fail (o.str ()); }
    LOGS.str ("");
    real (false, "report", [&] { FS->command_unsynced_data_report ({}); return 0L; });
    string l = LOGS.str (); LOGS.str ("");
    map<string, set<int>> lg; map<string, set<string>> lf; long ltot = -1; istringstream in (l); string line; std::smatch m;
    static const regex r1 (R"(report: \[inode (\d+)\] info: \(block (\d+)\) to \(block (\d+)\) \[byte index (-?\d+) to index (-?\d+)\])"), r2 (R"(report: \[inode (\d+)\] => file: '(.*)')"), r3 (R"(total number of bytes un-fsynced: (\d+) bytes)");
    while (getline (in, line)) {
        if (regex_search (line, m, r1)) { int a = stoi (m[2]), b = stoi (m[3]); if (b < a) fail ("report range reversed"); for (int k = a; k <= b; k++) lg[m[1]].insert (k); long lo = stol (m[4]), hi = stol (m[5]); if (lo != 0 || hi < (long)(b - a) * M.bs || hi >= (long)(b - a + 1) * M.bs) fail ("report log: byte range " + line); }
        else if (regex_search (line, m, r2)) { string f = m[2]; if (f.compare (0, ROOT.size () + 1, ROOT + "/") == 0) f = f.substr (ROOT.size () + 1); lf[m[1]].insert (f); }
        else if (regex_search (line, m, r3)) ltot = stol (m[1]);
    }
    if (lg != exp) fail ("logged report lists other blocks than the unsynced ones");
    for (auto& e : exp) if (lf[e.first] != nm[e.first]) { for (auto& f : lf[e.first]) if (!nm[e.first].count (f)) fail ("report names a file that is not a name of the inode: " + f); }
    if (lookup) for (auto& e : exp) for (auto& f : nm[e.first]) if (!lf[e.first].count (f)) fail ("report does not name the known path " + f);
    if (!exp.empty () && ltot != total) fail ("report total " + to_string (ltot) + " expected " + to_string (total));
    if (exp.empty () && ltot > 0) fail ("report total should be 0");
}
static void do_usage () {
    double u = real (false, "usage", [&] { FS->command_display_cache_usage (); return 0L; }), v = CACHE->get_cache_usage (); (void)u;
    int n = M.used ();
    if (M.bpp == 1 && M.exact) { double e = (double)n / M.np * 100; if (v != e) fail ("cache usage " + to_string (v) + "%, expected " + to_string (e) + "% (" + to_string (n) + " of " + to_string (M.np) + " pages)"); }
    else if (M.exact) { double lo = (double)((n + M.bpp - 1) / M.bpp) / M.np * 100, hi = (double)n / M.np * 100; if (v < lo - 1e-9 || v > hi + 1e-9) fail ("cache usage " + to_string (v) + "% outside " + to_string (lo) + ".." + to_string (hi)); }
}
static void check_cached () {
    if (!(M.bpp == 1 && M.exact)) return;
    for (auto& n : M.names) { string s = inostr (n.first); Ino& i = M.inos[n.second]; int top = (i.log.size () + M.bs - 1) / M.bs + 2; for (int b = 0; b < top; b++) { bool g = CACHE->is_block_cached (s, b); if (g != (bool)i.cached.count (b)) fail ("block " + to_string (b) + " of '" + n.first + "' " + (g ? "is cached but should not be" : "should be cached but is not")); } }
}
static void check_all (bool disk) {
    vector<string> ns; for (auto& n : M.names) ns.push_back (n.first);
    if (disk) check_disk ("while unsynced");
    check_cached ();
    for (auto& n : ns) { check_attr (n); long sz = M.inos[M.names[n]].log.size (); do_read (n, 0, sz + 2 * M.bs + 3); }
}
#include "lfsx_pass.hpp"
// ---- self-contained operations on files of their own
static long lookup (const string& n, struct stat& st) { return real (false, "lookup", [&] { return (long)LazyFS::lfs_getattr (P (n).c_str (), &st, NULL); }); }
static string xread (const string& n, long off, long size) {
    fuse_file_info fi; memset (&fi, 0, sizeof fi); fi.flags = O_RDWR; struct stat st; lookup (n, st); if (LazyFS::lfs_open (P (n).c_str (), &fi)) fail ("open " + n);
    string b (size, (char)0xEE); long r = real (false, "read", [&] { return (long)LazyFS::lfs_read (P (n).c_str (), &b[0], size, off, &fi); });
    LazyFS::lfs_release (P (n).c_str (), &fi); if (r < 0) fail ("read returned " + to_string (r)); b.resize (r); return b;
}
static void xwrite (const string& n, long off, const string& d, int sync) {
    fuse_file_info fi; memset (&fi, 0, sizeof fi); fi.flags = O_RDWR; struct stat st; lookup (n, st); if (LazyFS::lfs_open (P (n).c_str (), &fi)) fail ("open " + n);
    long r = real (false, "write", [&] { return (long)LazyFS::lfs_write (P (n).c_str (), d.data (), d.size (), off, &fi); }); if (r != (long)d.size ()) fail ("write returned " + to_string (r));
    if (sync) { r = real (false, "fsync", [&] { return (long)LazyFS::lfs_fsync (P (n).c_str (), sync - 1, &fi); }); if (r) fail ("fsync returned " + to_string (r)); }
    LazyFS::lfs_release (P (n).c_str (), &fi);
}
static string pread_at (const string& n, long off, long size) { int fd = open (P (n).c_str (), O_RDONLY); string b (size, 0); long r = pread (fd, &b[0], size, off); close (fd); b.resize (max (0L, r)); return b; }
static void need (const string& w, const string& exp, const string& got) { if (exp != got) fail (w + ": " + diff (exp, got)); }
// x: offset, y: size, z: seed: a sparse file with data far from its start
static void do_far (long off, long size, long seed) {
    string n = "zfar", old = payload (3 * M.bs, seed + 1), d = payload (size, seed); long base = off / M.bs * M.bs;
    { int fd = open (P (n).c_str (), O_RDWR | O_CREAT | O_TRUNC, 0644); int r = pwrite (fd, old.data (), old.size (), base); (void)r; close (fd); }
    long end = base + old.size (); string log = old; if (off - base + size > (long)log.size ()) log.resize (off - base + size); log.replace (off - base, size, d); long nend = max (end, off + size);
    need ("far read", old, xread (n, base, old.size ()));
    xwrite (n, off, d, 0);
    struct stat st; lookup (n, st); if (st.st_size != nend) fail ("size of a large file: expected " + to_string (nend) + " got " + to_string (st.st_size));
    need ("far read after write", log, xread (n, base, log.size () + 5));
    need ("backing file far away, unsynced", old, pread_at (n, base, old.size ()));
    xwrite (n, off, d.substr (0, 1), 1 + seed % 2);
    { struct stat b; lstat (P (n).c_str (), &b); if (b.st_size != nend) fail ("backing size of a large file after fsync: " + to_string (b.st_size)); }
    need ("backing file far away after fsync", log, pread_at (n, base, log.size () + 5));
    need ("start of the sparse file", string (M.bs, 0), pread_at (n, 0, M.bs));
    long cut = base + M.bs + 1; fuse_file_info fi; long r = real (false, "truncate", [&] { return (long)LazyFS::lfs_truncate (P (n).c_str (), cut, NULL); }); (void)fi; if (r) fail ("truncate");
    lookup (n, st); if (st.st_size != cut) fail ("size after far truncate");
    need ("far read after truncate", log.substr (0, cut - base), xread (n, base, log.size ()));
    struct stat s2; lookup (n, s2); real (false, "unlink", [&] { return (long)LazyFS::lfs_unlink (P (n).c_str ()); });
}
// x: synced or not, y: clear or not, z: seed: a file whose only known name goes away while another one, never seen, remains
static void do_orphan (int sync, int clear, long seed) {
    string a = "zo" + to_string (seed), b = "zp" + to_string (seed), old = payload (2 * M.bs, seed + 1), d = payload (M.bs, seed);
    ofstream (P (a), ios::binary) << old; if (::link (P (a).c_str (), P (b).c_str ())) return;
    xwrite (a, 0, d, sync ? 1 : 0); string log = d + old.substr (M.bs);
    real (false, "unlink", [&] { return (long)LazyFS::lfs_unlink (P (a).c_str ()); });
    if (!clear) need ("other name after the known one is gone", log, xread (b, 0, 3 * M.bs));
    M.clear (); real (false, "clear", [&] { FS->command_fault_clear_cache (); return 0L; });
    if (CACHE->get_cache_usage () != 0) fail ("cache not empty after clear");
    need ("backing file after clear", sync ? log : old, slurp (P (b)));
    string other = payload (2 * M.bs + 1, seed + 2); ofstream (P (b), ios::binary) << other;
    need ("read after clear", other, xread (b, 0, 3 * M.bs));
    M.clear (); real (false, "clear", [&] { FS->command_fault_clear_cache (); return 0L; }); ::unlink (P (b).c_str ());
}
// a directory with links that lead back to it is renamed: its files follow, and it ends
static void do_loop (long seed) {
    string d = "zd" + to_string (seed), e = "ze" + to_string (seed); struct stat st; string data = payload (M.bs + 1, seed);
    if (mkdir (P (d).c_str (), 0755) || mkdir (P (d + "/s").c_str (), 0755)) return;
    for (auto l : {"/l1", "/l2", "/s/up"}) if (symlink (string (l) == "/s/up" ? ".." : ".", P (d + l).c_str ())) return;
    for (auto f : {"/f", "/s/f"}) { ofstream (P (d + f), ios::binary) << ""; xwrite (d + f, 0, data, 0); }
    lookup (d, st); lookup (e, st);
    long r = real (false, "rename", [&] { return (long)LazyFS::lfs_rename (P (d).c_str (), P (e).c_str (), 0); }); if (r) fail ("rename of a directory with links returned " + to_string (r));
    for (auto f : {"/f", "/s/f"}) { need ("renamed with its directory", data, xread (e + f, 0, 2 * M.bs + 1)); r = real (false, "unlink", [&] { return (long)LazyFS::lfs_unlink (P (e + f).c_str ()); }); if (r) fail ("unlink in a renamed directory"); }
    for (auto l : {"/l1", "/l2", "/s/up"}) ::unlink (P (e + l).c_str ()); ::rmdir (P (e + "/s").c_str ()); ::rmdir (P (e).c_str ());
    if (CACHE->get_cache_usage () > 100.0 * M.used () / M.np + 0.001) fail ("files of a renamed directory leave pages in use");
}
// at mount: the kernel may keep nothing of what it was told about names and attributes, and sees the real inode numbers
static std::atomic<int> STARTED{0}; static LazyFS* THR; static void worker (LazyFS* f) { THR = f; STARTED++; }
static void do_init () {
    fuse_config c; memset (&c, 0, sizeof c); c.entry_timeout = 1; c.attr_timeout = 1; c.negative_timeout = 1; int n0 = STARTED; void* r = nullptr;
    real (false, "init", [&] { r = LazyFS::lfs_init (nullptr, &c); return 0L; });
    if (r != FS) fail ("init: the private data is not the file system");
    if (c.entry_timeout != 0 || c.attr_timeout != 0 || c.negative_timeout != 0) fail ("init: names or attributes may be kept by the kernel");
    if (!c.use_ino) fail ("init: inode numbers are not those of the files");
    if (c.kernel_cache || c.auto_cache || c.ac_attr_timeout_set) fail ("init: contents or attributes may be kept by the kernel");
    for (int k = 0; k < 5000 && STARTED == n0; k++) usleep (1000);
    if (STARTED != n0 + 1 || THR != FS) fail ("init: the worker of commands is not started");
}
static void run_op (const Op& p) {
    auto has = [&] (const string& n) { return M.names.count (n) > 0; };
    int fds = count_fds ();
    if (p.k == "create") { if (!M.dirs.count (p.a) && !parent_err (p.a)) do_create (p.a); }
    else if (p.k == "write") { if (has (p.a)) do_write (p.a, p.x, max (1L, p.y), p.z); }
    else if (p.k == "wsync") { if (has (p.a)) { long o = min (p.x, (long)M.inos[M.names[p.a]].log.size ()); do_write (p.a, o, min (max (1L, p.y), M.bs - o % M.bs), p.z); do_fsync (p.a, false); } }
    else if (p.k == "append") { if (has (p.a)) do_write (p.a, M.inos[M.names[p.a]].log.size (), max (1L, p.y), p.z); }
    else if (p.k == "read") { if (has (p.a)) do_read (p.a, p.x, max (1L, p.y)); }
    else if (p.k == "fsync") { if (has (p.a)) do_fsync (p.a, p.x); }
    else if (p.k == "trunc") { if (has (p.a)) do_trunc (p.a, p.x, p.y); }
    else if (p.k == "otrunc") { if (has (p.a)) { fuse_file_info fi; xopen (p.a, O_RDWR | O_TRUNC, fi); xclose (p.a, fi); } }
    else if (p.k == "rename") do_rename (p.a, p.b);
    else if (p.k == "link") do_link (p.a, p.b);
    else if (p.k == "unlink") do_unlink (p.a);
    else if (p.k == "symlink") do_symlink (p.a, p.b);
    else if (p.k == "access") do_access (p.a, p.x);
    else if (p.k == "stat") check_attr (p.a);
    else if (p.k == "init") do_init ();
    else if (p.k == "loop") { if (M.np * M.bpp >= 32 && !M.evict && M.used () + 8 < M.np && M.clf.empty () && M.crf.empty ()) do_loop (p.z); }
    else if (p.k == "usage") do_usage ();
    else if (p.k == "report") do_report (p.x);
    else if (p.k == "cached") check_cached ();
    else if (p.k == "all") check_all (true);
    else if (p.k == "clear") { M.clear (); real (false, "clear", [&] { FS->command_fault_clear_cache (); return 0L; }); if (CACHE->get_cache_usage () != 0) fail ("cache not empty after clear"); check_disk ("after clear"); }
    else if (p.k == "checkpoint") { for (auto& i : M.inos) M.sync (i.first); real (false, "checkpoint", [&] { FS->command_checkpoint (); return 0L; }); check_disk ("after checkpoint"); }
    else if (p.k == "mkdir") { if (!has (p.a) && !M.dirs.count (p.a) && !parent_err (p.a)) { long r = real (false, "mkdir", [&] { return (long)LazyFS::lfs_mkdir (P (p.a).c_str (), 0755); }); if (r) fail ("mkdir returned " + to_string (r)); M.dirs.insert (p.a); } }
    else if (p.k == "rmdir") { int e = 0; if (!M.dirs.count (p.a)) return; for (auto& n : M.names) if (is_under (n.first, p.a)) e = ENOTEMPTY; for (auto& d : M.dirs) if (is_under (d, p.a)) e = ENOTEMPTY; long r = real (false, "rmdir", [&] { return (long)LazyFS::lfs_rmdir (P (p.a).c_str ()); }); if (r != -e) fail ("rmdir returned " + to_string (r)); if (!e) M.dirs.erase (p.a); }
    else if (p.k == "utimens") { if (has (p.a)) { timespec ts[2] = {{p.x, 5000}, {p.y, 7000}}; check_attr (p.a); long r = real (false, "utimens", [&] { return (long)LazyFS::lfs_utimens (P (p.a).c_str (), ts, NULL); }); if (r) fail ("utimens returned " + to_string (r)); Ino& i = M.inos[M.names[p.a]]; i.mtime = ts[1]; i.mtime_known = true; } }
    else if (p.k == "crashf") { M.crf.push_back ({p.a, p.b, "none", "none"}); string f = p.s.substr (0, p.s.find (',')), t = p.s.substr (p.s.find (',') + 1); M.crf.back ().from = f; M.crf.back ().to = t; FS->add_crash_fault (p.a, p.b, f, t); }
    else if (p.k == "tornop") { // runtime command: a=file, x=parts or -1, b=parts_bytes, s=persist
        FS->add_torn_op_fault (P (p.a), p.x > 0 ? to_string (p.x) : "none", p.b.empty () ? "none" : p.b, p.s);
        TornOp t; t.file = p.a; t.occ = 1; t.parts = p.x > 0 ? p.x : -1; stringstream ps (p.s), bs (p.b); string w; while (getline (ps, w, ',')) t.persist.push_back (stoi (w)); while (getline (bs, w, ',')) t.bytes.push_back (stoi (w)); M.top.push_back (t); }
    else if (p.k == "tornseq") { FS->add_torn_seq_fault (P (p.a), "write", p.s); TornSeq t; t.file = p.a; t.occ = 1; stringstream ps (p.s); string w; while (getline (ps, w, ',')) t.persist.push_back (stoi (w)); sort (t.persist.begin (), t.persist.end ()); M.tseq.push_back (t); }
    else if (p.k == "pass") do_pass (p);
    else if (p.k == "far") { if (M.bpp == 1 && M.np >= 32 && !M.evict && M.used () + 8 < M.np) do_far (p.x, max (1L, p.y), p.z); }
    else if (p.k == "symover") { // a symbolic link renamed over a file takes its place
        if (has (p.a) && M.clf.empty () && M.crf.empty ()) {
            struct stat st; lookup (p.a, st); real (false, "symlink", [&] { return (long)LazyFS::lfs_symlink ("tgt", P ("zs").c_str ()); }); lookup ("zs", st);
            long r = real (false, "rename", [&] { return (long)LazyFS::lfs_rename (P ("zs").c_str (), P (p.a).c_str (), 0); }); if (r) fail ("rename of a symbolic link over a file returned " + to_string (r));
            M.drop_name (p.a);
            do_usage ();
            r = lookup (p.a, st); if (r || !S_ISLNK (st.st_mode) || st.st_size != 3) fail ("a symbolic link renamed over a file does not take its place");
            r = real (false, "unlink", [&] { return (long)LazyFS::lfs_unlink (P (p.a).c_str ()); }); if (r) fail ("unlink of a symbolic link"); } }
    else if (p.k == "orphan") { if (M.np * M.bpp >= 32 && !M.evict && M.used () + 8 < M.np && M.clf.empty ()) do_orphan (p.x, p.y, p.z); }
    if (count_fds () > fds + ((p.k == "write" || p.k == "append") && !M.top.empty () ? 1 : 0)) // a torn-op fault that does not apply leaves its descriptor open
        fail ("a file descriptor was leaked");
}
static vector<int> ints (const string& s) { vector<int> r; stringstream b (s); string w; while (getline (b, w, ',')) r.push_back (stoi (w)); return r; }
static int run (const Scn& s, const string& root, FILE* rep) {
    REP = rep; ROOT = root; CS = &s; CUR = -1; expect_crash = in_op = false; LOGS.str ("");
    alarm (12);
    auto sink = std::make_shared<spdlog::sinks::ostream_sink_mt> (LOGS); spdlog::set_default_logger (std::make_shared<spdlog::logger> ("x", sink));
    // the code prints progress on stdout
    int nul = open ("/dev/null", O_WRONLY); dup2 (nul, 1); close (nul);
    auto* cfg = new cache::config::Config ((size_t)s.bs, (size_t)(s.bs * s.bpp), (size_t)s.np); cfg->set_eviction_flag (s.evict);
    auto* eng = new cache::engine::backends::custom::CustomCacheEngine (cfg);
    CACHE = new cache::Cache (cfg, eng);
    auto* faults = new unordered_map<string, vector<faults::Fault*>> ();
    M = Model (); M.bs = s.bs; M.bpp = s.bpp; M.np = s.np; M.evict = s.evict;
    M.read_disk = [] (int id) { for (auto& n : M.names) if (n.second == id) return slurp (P (n.first)); return string (); };
    for (auto& f : s.faults) {
        if (f[0] == "clear") { ClearF c{f[1], f[2], f[3], f[4], stoi (f[5]), f[6] == "1", 0}; M.clf.push_back (c); (*faults)[P (c.from)].push_back (new faults::ClearF (c.timing, c.op, P (c.from), c.to.empty () ? "none" : P (c.to), c.occ, c.crash)); }
        else if (f[0] == "tornop") { TornOp t; t.file = f[1]; t.occ = stoi (f[2]); t.persist = ints (f[3]); t.parts = stoi (f[4]); t.bytes = ints (f[5]); M.top.push_back (t); (*faults)[P (t.file)].push_back (t.parts == -1 ? new faults::SplitWriteF (t.occ, t.persist, t.bytes) : new faults::SplitWriteF (t.occ, t.persist, t.parts)); }
        else if (f[0] == "tornseq") { TornSeq t; t.file = f[1]; t.occ = stoi (f[2]); t.persist = ints (f[3]); M.tseq.push_back (t); (*faults)[P (t.file)].push_back (new faults::ReorderF ("write", t.persist, t.occ)); }
        else if (f[0] == "disk") { string d = payload (stoi (f[2]), 777); ofstream (P (f[1]), ios::binary) << d; int id = M.next++; Ino i; i.log = i.disk = d; M.inos[id] = i; M.names[f[1]] = id; }
    }
    FS = new LazyFS (CACHE, cfg, (std::thread*)calloc (1, sizeof (std::thread)), worker, faults); THR = nullptr;
    memset (&g_ctx, 0, sizeof g_ctx); g_ctx.private_data = FS;
    for (size_t k = 0; k < s.ops.size (); k++) { CUR = k; try { run_op (s.ops[k]); } catch (std::exception& e) { fail (string ("exception: ") + e.what ()); } }
    CUR = s.ops.size () ? (int)s.ops.size () - 1 : -1;
    return 0;
}
// ---------------------------------------------------------------- child execution
static string SCRATCH;
static void rmtree (const string& d) { string c = "rm -rf -- '" + d + "'"; if (d.find (SCRATCH) == 0 && d.size () > SCRATCH.size ()) { int r = system (c.c_str ()); (void)r; } }
static void clean_root (const string& root) {
    // without a shell when it is flat
    DIR* d = opendir (root.c_str ()); bool flat = true; if (d) { while (auto* e = readdir (d)) { string nm = e->d_name; if (nm == "." || nm == "..") continue; if (::unlink ((root + "/" + nm).c_str ())) flat = false; } closedir (d); }
    if (!flat) rmtree (root); else ::rmdir (root.c_str ());
}
// runs the scenarios from 'from' on in one child, one after another; the index of the first that fails there, or -1.  What fails here is run again alone before it is believed.
static int run_batch (const vector<Scn>& v, size_t from) {
    static int n = 0; static volatile int* at = (volatile int*)mmap (NULL, sizeof (int), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    while (from < v.size ()) {
        string base = SCRATCH + "/b" + to_string (getpid ()) + "_" + to_string (n++) + "_"; *at = from;
        pid_t p = fork ();
        if (p == 0) {
            int e = open ("/dev/null", O_WRONLY); dup2 (e, 2); close (e); FILE* rep = fopen ("/dev/null", "w");
            for (size_t k = from; k < v.size (); k++) { *at = k; string root = base + to_string (k); mkdir (root.c_str (), 0755); run (v[k], root, rep); clean_root (root); }
            _exit (0);
        }
        int st; waitpid (p, &st, 0); size_t k = *at; clean_root (base + to_string (k));
        if (!(WIFEXITED (st) && WEXITSTATUS (st) == 0)) return k;
        from = k + 1; // it ended there: the last one, or a crash that was expected
    }
    return -1;
}
static bool run_child (const Scn& s, string& why) {
    static int n = 0; string root = SCRATCH + "/r" + to_string (getpid ()) + "_" + to_string (n++);
    mkdir (root.c_str (), 0755);
    FILE* rep = tmpfile ();
    pid_t p = fork ();
    if (p == 0) { int e = open ((root + ".err").c_str (), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2 (e, 2); close (e); run (s, root, rep); _exit (0); }
    int st; waitpid (p, &st, 0);
    bool ok = WIFEXITED (st) && WEXITSTATUS (st) == 0;
    if (!ok) {
        rewind (rep); char b[4000]; size_t r = fread (b, 1, sizeof b - 1, rep); b[r] = 0; why = b;
        if (why.empty ()) { string e = slurp (root + ".err"); size_t k = e.find ("ERROR: AddressSanitizer"); if (k == string::npos) k = e.find ("runtime error"); if (k != string::npos) e = e.substr (k > 200 ? k - 200 : 0); e = e.substr (0, 1500); if (WIFSIGNALED (st)) why = WTERMSIG (st) == SIGALRM ? "FAIL the operation hangs (deadlock)\n" : string ("FAIL killed by signal ") + to_string (WTERMSIG (st)) + "\n" + e; else why = "FAIL abnormal end, exit " + to_string (WEXITSTATUS (st)) + "\n" + e; }
    }
    fclose (rep);
    ::unlink ((root + ".err").c_str ());
    clean_root (root);
    return ok;
}
#include "lfsx_gen.hpp"
int main (int argc, char** argv) {
    if (argc >= 4 && string (argv[1]) == "replay") {
        SCRATCH = argv[3]; ifstream f (argv[2]); Scn s = scn_parse (f); string why;
        bool ok = run_child (s, why); printf ("%s%s", scn_str (s).c_str (), ok ? "PASS\n" : why.c_str ()); return ok ? 0 : 1;
    }
    if (argc >= 8 && string (argv[1]) == "search") {
        string prof = argv[2]; unsigned seed = atoi (argv[3]); double secs = atof (argv[4]); long maxr = atol (argv[5]); SCRATCH = argv[6]; string out = argv[7];
        mt19937 g (seed); struct timeval t0, t; gettimeofday (&t0, 0); long n = 0, nops = 0; set<size_t> distinct; string why, sample;
        while (n < maxr) {
            gettimeofday (&t, 0); if ((t.tv_sec - t0.tv_sec) + (t.tv_usec - t0.tv_usec) / 1e6 > secs) break;
            vector<Scn> batch; while (batch.size () < 64) { Scn s = gen (prof, g); n++; nops += s.ops.size (); string txt = scn_str (s); distinct.insert (hash<string> () (txt)); if (sample.empty ()) sample = txt; batch.push_back (s); }
            for (int b = 0; (b = run_batch (batch, b)) >= 0; b++) if (Scn s = batch[b]; !run_child (s, why)) {
                // shrink
                bool ch = true; int budget = 400; time_t stop = time (NULL) + 30; auto left = [&] { return budget > 0 && time (NULL) < stop; };
                while (ch && left ()) { ch = false; for (int k = (int)s.ops.size () - 1; k >= 0 && left (); k--) { Scn t2 = s; t2.ops.erase (t2.ops.begin () + k); string w; budget--; if (!run_child (t2, w)) { s = t2; why = w; ch = true; } } for (int k = (int)s.faults.size () - 1; k >= 0 && left (); k--) { Scn t2 = s; t2.faults.erase (t2.faults.begin () + k); string w; budget--; if (!run_child (t2, w)) { s = t2; why = w; ch = true; } } }
                ofstream o (out); o << scn_str (s); o.close ();
                printf ("FOUND\n%s%s\n", scn_str (s).c_str (), why.c_str ());
                printf ("STATS runs=%ld ops=%ld distinct=%zu\n", n, nops, distinct.size ()); return 1;
            }
        }
        printf ("NONE\nSTATS runs=%ld ops=%ld distinct=%zu\nSAMPLE\n%s", n, nops, distinct.size (), sample.c_str ());
        return 0;
    }
    fprintf (stderr, "usage\n"); return 2;
}
