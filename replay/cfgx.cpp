// cfgx: drives the real configuration loader (Config::load_config) and the real command worker (fht_worker, through a
// FIFO in a scratch directory) with generated inputs and compares the installed faults and settings with a reference.
//   cfgx search PROFILE SEED SECONDS MAXRUNS SCRATCH OUT | cfgx replay FILE SCRATCH
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <regex>
#include <set>
#include <sstream>
#include <string>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <vector>
#include <spdlog/spdlog.h>
#include <spdlog/sinks/ostream_sink.h>
#include <lazyfs/lazyfs.hpp>
#include <cache/config/config.hpp>
#include <cache/engine/backends/custom/custom_cache.hpp>
using namespace std;
using lazyfs::LazyFS;
extern cache::config::Config std_config;
extern LazyFS fs;
void fht_worker (LazyFS*);
static fuse_context g_ctx;
extern "C" struct fuse_context* fuse_get_context (void) { return &g_ctx; }
extern "C" int fuse_main_real (int, char**, const struct fuse_operations*, size_t, void*) { return 0; }

struct Kv { string type; vector<pair<string, string>> f; bool has (const string& k) const { for (auto& p : f) if (p.first == k) return true; return false; }
    string get (const string& k) const { for (auto& p : f) if (p.first == k) return p.second; return ""; } };
struct Scn { vector<string> cache{"none"}; string evict = "-", log = "-", logfile = "-", fifo = "-", fifoc = "-", args = "-"; vector<Kv> inj; vector<Kv> cmd; bool hasfs = true; };
static string str (const Scn& s) {
    ostringstream o; o << "cache"; for (auto& x : s.cache) o << " " << x; o << "\nopts " << s.evict << " " << s.log << " " << s.logfile << " " << s.fifo << " " << s.fifoc << " " << s.hasfs << " " << s.args << "\n";
    for (int k = 0; k < 2; k++) for (auto& i : k ? s.cmd : s.inj) { o << (k ? "cmd " : "inj ") << i.type; for (auto& p : i.f) o << " " << p.first << "=" << p.second; o << "\n"; }
    return o.str ();
}
static Scn parse (istream& in) {
    Scn s; string line;
    while (getline (in, line)) { istringstream l (line); string w; l >> w;
        if (w == "cache") { s.cache.clear (); while (l >> w) s.cache.push_back (w); }
        else if (w == "opts") l >> s.evict >> s.log >> s.logfile >> s.fifo >> s.fifoc >> s.hasfs >> s.args;
        else if (w == "inj" || w == "cmd") { Kv k; l >> k.type; string t; while (l >> t) { auto e = t.find ('='); k.f.push_back ({t.substr (0, e), t.substr (e + 1)}); } (w == "inj" ? s.inj : s.cmd).push_back (k); } }
    return s;
}
// ------------------------------------------------------------------ reference
static const set<string> OPS = {"unlink", "truncate", "fsync", "write", "create", "access", "open", "read", "rename", "link", "symlink"}, TWO = {"rename", "link", "symlink"};
static vector<long> nums (const string& s) { vector<long> v; string c; for (char ch : s + ",") if (ch == ',') { if (!c.empty ()) v.push_back (atol (c.c_str ())); c = ""; } else c += ch; return v; }
static string show (vector<long> v) { string r; for (long x : v) r += to_string (x) + ","; return r; }
typedef map<string, vector<string>> FM; // path -> descriptions of installed faults in order
static bool torn_op_ok (long occ, const vector<long>& per, bool hp, long parts, bool hb, const vector<long>& pb) {
    if (occ <= 0 || hp == hb) return false; long n = hp ? parts : (long)pb.size ();
    if (hp && parts <= 0) return false; if (hb) for (long x : pb) if (x <= 0) return false;
    for (long x : per) if (x <= 0 || x > n) return false; return true;
}
static void add (FM& m, const string& path, const string& kind, const string& d) { for (auto& x : m[path]) if (x.rfind (kind, 0) == 0) return; m[path].push_back (kind + " " + d); }
static void ref_inj (FM& m, const Kv& k) {
    if (k.type == "torn-seq") {
        for (auto x : {"file", "op", "occurrence", "persist"}) if (!k.has (x)) return;
        auto v = nums (k.get ("persist")); sort (v.begin (), v.end ()); long occ = atol (k.get ("occurrence").c_str ());
        if (k.get ("op") != "write" || occ <= 0) return; for (long x : v) if (x <= 0) return;
        add (m, k.get ("file"), "torn-seq", "write " + to_string (occ) + " " + show (v));
    } else if (k.type == "torn-op") {
        for (auto x : {"file", "occurrence", "persist"}) if (!k.has (x)) return;
        auto v = nums (k.get ("persist")); auto pb = nums (k.get ("parts_bytes")); long occ = atol (k.get ("occurrence").c_str ()), pa = atol (k.get ("parts").c_str ());
        if (!torn_op_ok (occ, v, k.has ("parts"), pa, k.has ("parts_bytes"), pb)) return;
        add (m, k.get ("file"), "torn-op", to_string (occ) + " " + show (v) + " " + (k.has ("parts") ? "parts " + to_string (pa) : "bytes " + show (pb)));
    } else if (k.type == "clear-cache") {
        for (auto x : {"occurrence", "timing", "op", "crash"}) if (!k.has (x)) return;
        string op = k.get ("op"), t = k.get ("timing"); long occ = atol (k.get ("occurrence").c_str ());
        if (occ <= 0 || !OPS.count (op) || (t != "before" && t != "after") || !k.has ("from")) return;
        if (TWO.count (op) != k.has ("to")) return;
        add (m, k.get ("from"), "clear-cache", t + " " + op + " " + k.get ("from") + " " + (k.has ("to") ? k.get ("to") : "none") + " " + to_string (occ) + " " + k.get ("crash"));
    }
}
struct Crash { string timing, op, from, to; };
static bool allnum (const string& s, bool list) { return regex_match (s, regex (list ? "([0-9]+,)*[0-9]+" : "[0-9]+")); }
static void ref_cmd (FM& m, vector<Crash>& cr, const Kv& k) {
    if (k.type == "torn-op") {
        for (auto& p : k.f) { if (p.first == "file") { if (p.second.empty ()) return; } else if (p.first == "parts") { if (!allnum (p.second, false)) return; }
            else if (p.first == "parts_bytes" || p.first == "persist") { if (!allnum (p.second, true)) return; } else return; }
        if (!k.has ("file") || !k.has ("persist")) return;
        auto v = nums (k.get ("persist")), pb = nums (k.get ("parts_bytes")); long pa = atol (k.get ("parts").c_str ());
        if (!torn_op_ok (1, v, k.has ("parts"), pa, k.has ("parts_bytes"), pb)) return;
        add (m, k.get ("file"), "torn-op", "1 " + show (v) + " " + (k.has ("parts") ? "parts " + to_string (pa) : "bytes " + show (pb)));
    } else if (k.type == "torn-seq") {
        for (auto& p : k.f) { if (p.first == "file" || p.first == "op") { if (p.second.empty ()) return; } else if (p.first == "persist") { if (!allnum (p.second, true)) return; } else return; }
        if (!k.has ("file") || !k.has ("persist") || k.get ("op") != "write") return;
        auto v = nums (k.get ("persist")); sort (v.begin (), v.end ()); for (long x : v) if (x <= 0) return;
        add (m, k.get ("file"), "torn-seq", "write 1 " + show (v));
    } else if (k.type == "crash") {
        string op = k.get ("op"), t = k.get ("timing"), f = k.get ("from_rgx"), to = k.get ("to_rgx");
        if (!OPS.count (op) || (t != "before" && t != "after")) return;
        if (TWO.count (op) ? (f.empty () && to.empty ()) : (f.empty () || !to.empty ())) return;
        cr.push_back ({t, op, f, to});
    }
}
// ------------------------------------------------------------------ real
static FM observe (unordered_map<string, vector<faults::Fault*>>& f) {
    FM m;
    for (auto& p : f) for (auto* x : p.second) {
        string d;
        if (auto* s = dynamic_cast<faults::SplitWriteF*> (x)) { vector<long> a (s->persist.begin (), s->persist.end ()), b (s->parts_bytes.begin (), s->parts_bytes.end ());
            d = "torn-op " + to_string (s->occurrence) + " " + show (a) + " " + (s->parts != -1 ? "parts " + to_string (s->parts) : "bytes " + show (b)); if (s->counter.load () != 0) d += " counter not 0"; }
        else if (auto* r = dynamic_cast<faults::ReorderF*> (x)) { vector<long> a (r->persist.begin (), r->persist.end ()); d = "torn-seq " + r->op + " " + to_string (r->occurrence) + " " + show (a); if (r->counter.load () != 0 || r->group_counter.load () != 0) d += " counter not 0"; }
        else if (auto* c = dynamic_cast<faults::ClearF*> (x)) { d = "clear-cache " + c->timing + " " + c->op + " " + c->from + " " + c->to + " " + to_string (c->occurrence) + " " + (c->crash ? "true" : "false"); if (c->counter.load () != 0) d += " counter not 0"; }
        else d = "unknown";
        m[p.first].push_back (d);
    }
    return m;
}
static FILE* REP; static void fail (const string& m) { fprintf (REP, "FAIL: %s\n", m.c_str ()); fflush (REP); _exit (1); }
static string dump (const FM& m) { string r; for (auto& p : m) for (auto& x : p.second) r += "[" + p.first + ": " + x + "] "; return r; }
static void eq (const string& what, FM a, FM b) { for (auto it = a.begin (); it != a.end ();) it = it->second.empty () ? a.erase (it) : next (it); for (auto it = b.begin (); it != b.end ();) it = it->second.empty () ? b.erase (it) : next (it);
    if (a != b) fail (what + ": expected " + dump (a) + " installed " + dump (b)); }
static string q (const string& s) { return "\"" + s + "\""; }
static string slurp (const string& p) { ifstream f (p, ios::binary); stringstream s; s << f.rdbuf (); return s.str (); }
static void run (const Scn& s, const string& dir) {
    static ostringstream logs; auto sink = make_shared<spdlog::sinks::ostream_sink_mt> (logs); auto lg = make_shared<spdlog::logger> ("h", sink); spdlog::set_default_logger (lg);
    string t = dir + "/c.toml"; { ofstream o (t); o << "[faults]\n"; if (s.fifo != "-") o << "fifo_path=" << q (s.fifo == "e" ? "" : s.fifo) << "\n"; if (s.fifoc != "-") o << "fifo_path_completed=" << q (s.fifoc == "e" ? "" : s.fifoc) << "\n";
        o << "[cache]\n"; if (s.evict != "-") o << "apply_eviction=" << s.evict << "\n";
        if (s.cache[0] == "simple") { o << "[cache.simple]\ncustom_size=" << q (s.cache[1]) << "\n"; if (s.cache.size () > 2) o << "blocks_per_page=" << s.cache[2] << "\n"; }
        if (s.cache[0] == "manual") o << "[cache.manual]\nio_block_size=" << s.cache[1] << "\npage_size=" << s.cache[2] << "\nno_pages=" << s.cache[3] << "\n";
        if (s.hasfs) { o << "[filesystem]\n"; if (s.log != "-") o << "log_all_operations=" << s.log << "\n"; if (s.logfile != "-") o << "logfile=" << q (s.logfile == "e" ? "" : s.logfile) << "\n"; }
        for (auto& i : s.inj) { o << "[[injection]]\n"; if (i.type != "-") o << "type=" << q (i.type) << "\n"; for (auto& p : i.f) { o << p.first << "="; if (p.first == "occurrence" || p.first == "parts" || p.first == "crash") o << p.second; else if (p.first == "persist" || p.first == "parts_bytes") o << "[" << p.second << "]"; else o << q (p.second); o << "\n"; } } }
    cache::config::Config c; 
    auto fl = c.load_config (t);
    size_t bs = 4096, ps = 4096, np = 5; bool isdef = true;
    if (s.cache[0] == "simple") {
        string num, u; for (char ch : s.cache[1]) (isdigit (ch) || ch == '.' ? num : u) += tolower (ch);
        double mul = (u == "g" || u == "gb") ? 1024. * 1024 * 1024 : (u == "m" || u == "mb") ? 1024. * 1024 : (u == "k" || u == "kb") ? 1024. : 1.;
        size_t total = (size_t)(mul * atof (num.c_str ())); size_t bpp = s.cache.size () > 2 ? atol (s.cache[2].c_str ()) : 1;
        ps = bpp * bs; np = total / ps; isdef = false;
    } else if (s.cache[0] == "manual") { bs = atol (s.cache[1].c_str ()); ps = atol (s.cache[2].c_str ()); np = atol (s.cache[3].c_str ()); }
    auto num = [&] (const string& w, size_t e, size_t g) { if (e != g) fail (w + ": expected " + to_string (e) + ", configured " + to_string (g)); };
    auto st = [&] (const string& w, const string& e, const string& g) { if (e != g) fail (w + ": expected '" + e + "', configured '" + g + "'"); };
    num ("block size", bs, c.IO_BLOCK_SIZE); num ("page size", ps, c.CACHE_PAGE_SIZE); num ("number of pages", np, c.CACHE_NR_PAGES); num ("sector size", 512, c.DISK_SECTOR_SIZE);
    num ("eviction", s.evict == "true", c.APPLY_LRU_EVICTION); num ("log all operations", s.hasfs && s.log == "true", c.log_all_operations);
    st ("logfile", !s.hasfs || s.logfile == "-" || s.logfile == "e" ? "" : s.logfile, c.LOG_FILE);
    st ("fifo", s.fifo == "-" || s.fifo == "e" ? "faults.fifo" : s.fifo, c.FIFO_PATH); st ("completed fifo", s.fifoc == "-" || s.fifoc == "e" ? "" : s.fifoc, c.FIFO_PATH_COMPLETED);
    FM m; for (auto& k : s.inj) ref_inj (m, k); eq ("faults of the configuration file", m, observe (fl));
    if (np * ps <= (1 << 22)) { // the cache gets this geometry: exactly np pages can be filled
        cache::config::Config g = c; g.APPLY_LRU_EVICTION = 0; auto* e = new cache::engine::backends::custom::CustomCacheEngine (&g); auto* ca = new cache::Cache (&g, e); size_t put = 0;
        ca->insert_inode_mapping ("/f", "9", false); ca->lockItemCheckExists ("9"); vector<char> blk (bs, 'x');
        size_t bpp = ps / bs; size_t cap = np * bpp;
        auto r = ca->put_data_blocks ("9", {}, cache::engine::OP_WRITE); 
        for (size_t b = 0; b < cap + 2; b++) { auto rr = ca->put_data_blocks ("9", {{(int)b, {blk.data (), bs, 0, (int)bs - 1}}}, cache::engine::OP_WRITE); if (rr[(int)b]) put++; }
        num ("cached blocks", cap, put); 
    }
    if (s.cmd.empty ()) return;
    // commands through the real worker
    std_config = c; std_config.FIFO_PATH = dir + "/f.fifo"; std_config.FIFO_PATH_COMPLETED = dir + "/d.fifo";
    unlink (std_config.FIFO_PATH.c_str ()); unlink (std_config.FIFO_PATH_COMPLETED.c_str ());
    mkfifo (std_config.FIFO_PATH.c_str (), 0700); mkfifo (std_config.FIFO_PATH_COMPLETED.c_str (), 0700);
    std_config.CACHE_NR_PAGES = 5; std_config.CACHE_PAGE_SIZE = std_config.IO_BLOCK_SIZE = 4096; std_config.APPLY_LRU_EVICTION = 0;
    auto* eng = new cache::engine::backends::custom::CustomCacheEngine (&std_config); auto* ca = new cache::Cache (&std_config, eng);
    static std::thread none; new (&fs) LazyFS (ca, &std_config, &none, fht_worker, &fl); memset (&g_ctx, 0, sizeof g_ctx); g_ctx.private_data = &fs;
    int dr = open (std_config.FIFO_PATH_COMPLETED.c_str (), O_RDWR); std::thread w (fht_worker, &fs); w.detach ();
    int fd = open (std_config.FIFO_PATH.c_str (), O_RDWR);
    auto send = [&] (const string& x) { string l = x + "\n"; if (write (fd, l.data (), l.size ()) < 0) fail ("fifo"); int n = 1; for (int i = 0; i < 20000 && n > 0; i++) { ioctl (fd, FIONREAD, &n); if (n) usleep (100); } };
    auto sync = [&] { send ("lazyfs::clear-cache"); string e = "finished::clear-cache\n", g; char b[64]; while (g.size () < e.size ()) { fd_set r; FD_ZERO (&r); FD_SET (dr, &r); timeval tv{10, 0}; if (select (dr + 1, &r, 0, 0, &tv) <= 0) fail ("the worker does not acknowledge clear-cache"); int n = read (dr, b, sizeof b); g.append (b, n); } if (g != e) fail ("acknowledgement: " + g); };
    sync (); vector<Crash> cr; string f = dir + "/root"; unlink (f.c_str ());
    for (auto& k : s.cmd) {
        if (k.type == "data") { // a file with unsynced data: which command touches it, and how
            string what = k.get ("do"); fuse_file_info fi; memset (&fi, 0, sizeof fi); fi.flags = O_RDWR | O_CREAT; unlink (f.c_str ());
            if (LazyFS::lfs_create (f.c_str (), 0644, &fi) != 0) fail ("create"); LazyFS::lfs_write (f.c_str (), "hello", 5, 0, &fi); logs.str ("");
            send ("lazyfs::" + what); send ("lazyfs::help"); for (int i = 0; i < 500 && logs.str ().find ("displays this message") == string::npos; i++) usleep (1000);
            string d = slurp (f), l = logs.str ();
            if (what == "cache-checkpoint" ? d != "hello" : d != "") fail ("after " + what + " the backing file holds '" + d + "'");
            char b[8]; int n = LazyFS::lfs_read (f.c_str (), b, 8, 0, &fi); if (what == "clear-cache" ? n != 0 : (n != 5 || memcmp (b, "hello", 5))) fail ("after " + what + " the file reads " + to_string (n) + " bytes");
            if (what == "display-cache-usage" && l.find ("20%") == string::npos) fail ("usage report: " + l);
            if (what == "unsynced-data-report" && l.find (f) == string::npos) fail ("unsynced report: " + l);
            if (what == "clear-cache") { char g[64]; int got = 0; while (got < 22) got += read (dr, g, 22 - got); }
            LazyFS::lfs_release (f.c_str (), &fi); sync (); continue;
        }
        string line = "lazyfs::" + k.type; for (auto& p : k.f) line += "::" + p.first + "=" + p.second;
        send (line); sync (); ref_cmd (m, cr, k); eq ("after command " + line, m, observe (fl));
        static const vector<string> paths = {"/a", "/b", "/dir/a", "/aab", "/x", "/none", "", "/ab/none/c", "/a=b", "/d/x=y=z"};
        map<pair<string, string>, vector<Crash>> by; for (auto& x : cr) by[{x.timing, x.op}].push_back (x);
        for (auto tm : {"before", "after"}) for (auto& op : OPS) {
            auto& real = (string (tm) == "before" ? fs.crash_faults_before_map : fs.crash_faults_after_map)[op]; auto& exp = by[{tm, op}];
            if (real.size () != exp.size ()) fail ("after command " + line + ": " + to_string (real.size ()) + " crash faults " + tm + " " + op + ", expected " + to_string (exp.size ()));
            for (size_t i = 0; i < exp.size (); i++) { for (auto& p : paths) if (regex_match (p, real[i].first) != regex_search (p, regex (exp[i].from))) fail ("after command " + line + ": crash fault on " + p);
                if (real[i].second != (exp[i].to.empty () ? "none" : exp[i].to)) fail ("after command " + line + ": destination pattern " + real[i].second); }
        }
    }
}
static int once (const Scn& s, const string& dir, string& why) {
    string rep = dir + "/rep"; unlink (rep.c_str ()); fflush (stdout); pid_t p = fork ();
    if (!p) { REP = fopen (rep.c_str (), "w"); int e = open ((dir + "/err").c_str (), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2 (e, 2); dup2 (e, 1); alarm (60); try { run (s, dir); } catch (const std::exception& x) { fail (string ("exception ") + x.what ()); } _exit (0); }
    int st; waitpid (p, &st, 0); if (WIFEXITED (st) && WEXITSTATUS (st) == 0) return 0;
    why = slurp (rep); if (why.empty ()) why = "FAIL: process ended with status " + to_string (st) + "\n" + slurp (dir + "/err").substr (0, 1500); return 1;
}
// ------------------------------------------------------------------ generation
static mt19937_64 G; static long rnd (long n) { return G () % n; } static string pick (vector<string> v) { return v[rnd (v.size ())]; }
static string lst (int lo, int hi) { string r; int n = 1 + rnd (4); for (int i = 0; i < n; i++) r += (i ? "," : "") + to_string (lo + rnd (hi - lo + 1)); return r; }
static Scn gen (const string& prof) {
    Scn s; int k = rnd (4);
    if (k == 0) s.cache = {"simple", pick ({"8192", "20000b", "64kb", "1.5Mb", "2M", "0.01gb", "100K", "0.25GB", "1Gb", "33.3k", "12289"})}; if (k == 0 && !rnd (3)) { string u = pick ({"gb", "Mb", "m", "G", "KB", "k"}); s.cache[1] = to_string ((u[0] == 'k' || u[0] == 'K' ? 1000 : 0) + 1 + rnd (300)) + "." + to_string (rnd (10)) + to_string (rnd (10000)) + u; }
    if (k == 0 && rnd (2)) { s.cache.push_back (to_string (1 + rnd (4))); if (s.cache[1] == "8192" || s.cache[1] == "12289" || s.cache[1] == "20000b") s.cache.pop_back (); }
    if (k == 1 || k == 2) { long b = 1 + rnd (3000); s.cache = {"manual", to_string (b), to_string (b * (1 + rnd (6))), to_string (1 + rnd (40))}; }
    s.evict = pick ({"-", "true", "false"}); s.log = pick ({"-", "true", "false"}); s.logfile = pick ({"-", "e", "/tmp/no-such-dir/l.log", "x.log"}); s.fifo = pick ({"-", "e", "my.fifo"}); s.fifoc = pick ({"-", "e", "done.fifo"}); s.hasfs = rnd (4);
    auto fault = [&] (bool cmd) { Kv v; v.type = cmd ? pick ({"torn-op", "torn-op", "torn-seq", "crash", "crash"}) : pick ({"torn-op", "torn-op", "torn-seq", "torn-seq", "clear-cache", "clear-cache", "other"});
        auto put = [&] (const string& a, const string& b, int miss = 12) { if (rnd (miss)) v.f.push_back ({a, b}); };
        string file = pick ({"/a", "/b", "/dir/a", "/k=v"});
        if (v.type == "torn-op") { put ("file", file); if (!cmd) put ("occurrence", to_string (rnd (8) - 1)); bool p = rnd (2); int n = rnd (6) + (rnd (6) ? 1 : -1); if (cmd && n < 0) n = 0;
            if (p || !rnd (12)) put ("parts", to_string (n)); if (!p || !rnd (12)) put ("parts_bytes", cmd ? lst (rnd (6) ? 1 : 0, 9) : lst (rnd (6) ? 1 : -1, 9)); put ("persist", lst (rnd (6) ? 1 : 0, 1 + rnd (4))); if (cmd && !rnd (15)) put ("bogus", "1"); }
        else if (v.type == "torn-seq") { put ("file", file); put ("op", pick ({"write", "write", "write", "write", "read"})); if (!cmd) put ("occurrence", to_string (rnd (8) - 1)); put ("persist", lst (rnd (6) ? 1 : (cmd ? 0 : -1), 9)); if (cmd && !rnd (15)) put ("bogus", "1"); }
        else if (v.type == "clear-cache") { string op = pick ({"unlink", "truncate", "fsync", "write", "create", "access", "open", "read", "rename", "link", "symlink", "rename", "chmod"}); put ("op", op); put ("timing", pick ({"before", "after", "before", "after", "during"})); put ("occurrence", to_string (rnd (8) - 1)); put ("crash", pick ({"true", "false"})); put ("from", file); if (TWO.count (op) ? rnd (8) : !rnd (8)) put ("to", "/z"); }
        else if (v.type == "crash") { string op = pick ({"unlink", "truncate", "fsync", "write", "create", "access", "open", "read", "rename", "link", "symlink", "rename", "link", "chmod"}); put ("op", op); put ("timing", pick ({"before", "after", "before", "after", "during"})); put ("from_rgx", pick ({"a", "b", "a+b", "/a", "di.", "x|b", "aa|/c", "a=b", "=z"}), 4); if (TWO.count (op) ? rnd (2) : !rnd (8)) put ("to_rgx", pick ({"b", "x.*", "x=y"})); }
        else put ("file", file);
        if (cmd && !v.f.empty () && !rnd (10)) v.f[rnd (v.f.size ())].second = "";
        shuffle (v.f.begin (), v.f.end (), G); return v; };
    int n = rnd (6); for (int i = 0; i < n; i++) s.inj.push_back (fault (false));
    if (prof != "C19") { n = rnd (7); for (int i = 0; i < n; i++) s.cmd.push_back (fault (true)); if (!rnd (3)) s.cmd.insert (s.cmd.begin (), Kv{"data", {{"do", pick ({"clear-cache", "cache-checkpoint", "display-cache-usage", "unsynced-data-report"})}}}); }
    return s;
}
int main (int argc, char** argv) {
    if (argc >= 4 && string (argv[1]) == "replay") { ifstream f (argv[2]); Scn s = parse (f); string why; int r = once (s, argv[3], why); printf ("%s%s\n", r ? "FAILS\n" : "HOLDS\n", why.c_str ()); return r; }
    if (argc < 8) return 2;
    string prof = argv[2]; G.seed (atol (argv[3])); double secs = atof (argv[4]); long maxr = atol (argv[5]); string dir = argv[6]; mkdir (dir.c_str (), 0700);
    time_t t0 = time (0); long n = 0, nops = 0; set<string> distinct; string sample;
    while (n < maxr && time (0) - t0 < secs) {
        Scn s = gen (prof); string why; n++; nops += s.inj.size () + s.cmd.size (); if (s.inj.size () + s.cmd.size () > 0 || s.cache[0] != "none") distinct.insert (str (s)); if (sample.size () < 600 && s.inj.size () > 1) sample = str (s);
        if (once (s, dir, why)) {
            for (bool go = true; go;) { go = false; for (int w = 0; w < 2 && !go; w++) for (size_t i = 0; i < (w ? s.cmd : s.inj).size (); i++) { Scn x = s; auto& l = w ? x.cmd : x.inj; l.erase (l.begin () + i); string y; if (once (x, dir, y)) { s = x; why = y; go = true; break; } } }
            ofstream o (argv[7]); o << str (s) << "# " << why; printf ("FOUND\n%s%s\nSTATS runs=%ld ops=%ld distinct=%zu\n", str (s).c_str (), why.c_str (), n, nops, distinct.size ()); return 1; }
    }
    printf ("NONE\nSTATS runs=%ld ops=%ld distinct=%zu\nSAMPLE\n%s", n, nops, distinct.size (), sample.c_str ()); return 0;
}
