// C11: backups, restores and the command line tools.
// online: every history of updates, saves, reopenings, backups and restores of a database that is open; at the end every
//         backup that was taken is opened and compared with the graph at its time.
// tools:  every history of gbuild/gadd/gsub/gquery/gexport/gbackup/grestore/gdrop/gshow/ginit (the built programs) over two
//         databases, against a map from names to graphs.
// zip:    unpacking archives: what is written, and where.
#include "model.h"
#include "Util/CompressFileUtil.h"
#include <zlib.h>
using namespace gs;

static const string a = "<a>", b = "<b>", c = "<c>", d = "<d>", p = "<p>", q = "<q>", r = "<r>", x = "\"x\"", y = "\"y\"@en", n5 = "\"5\"^^<http://www.w3.org/2001/XMLSchema#integer>";
static const vector<string> S = {a, b, c, d, p}, PR = {p, q, r}, O = {a, b, c, d, x, y, n5};
static Graph G(vector<T3> t) { return Graph(t.begin(), t.end()); }

// opens a copy of a database directory; "" or what is wrong with its content
static string verifyDir(Worker& W, const string& dir, const string& name, const Graph& g, bool further) {
    rmTree(W.dir + "/" + dbDir(name)); copyTree(dir, dbDir(name));
    string e; long n = 0;
    Database* db = openDB(name);
    if (!db) return "the database does not load";
    e = checkAccess(db, g, S, PR, O, Graph(), n);
    if (e.empty() && db->getTripleNum() != g.size()) e = "the triple count is " + num(db->getTripleNum()) + ", expected " + num(g.size());
    if (e.empty() && further) {
        Graph h = g;
        for (const Op& op : {mkIns({{a, "<new1>", "\"new\""}, {"<new2>", p, b}}), mkDelWhere({{a, p, "?y"}})}) { op.apply(h); Res R = ask(db, op.text(), true); if (R.threw || R.code < 0) e = op.text() + " fails afterwards"; }
        if (e.empty()) e = checkAll3(db, h);
        delete db; db = openDB(name); if (!db) return "the database does not load after further updates";
        if (e.empty()) e = checkAll3(db, h);
        if (!e.empty()) e = "after further updates: " + e;
    }
    delete db; rmTree(W.dir + "/" + dbDir(name));
    return e;
}

// ---------------------------------------------------------------- online
struct OOp { enum K { U, Save, Backup, Reopen, Restore } k; Op u; string text() const { return k == U ? u.text() : k == Save ? "save" : k == Backup ? "backup" : k == Reopen ? "close and reopen" : "restore the last backup"; } };
static vector<OOp> OOPS; static int ODEPTH;
static Graph OBASE = G({{a, p, b}, {a, q, x}, {b, p, c}});

static void onlineInit(Worker& W) { libInit(); buildDB("base", ntg(OBASE)); (void)W; }
static void online(Worker& W, long t) {
    vector<const OOp*> ops; long k = t; for (int i = 0; i < ODEPTH; i++) { ops.push_back(&OOPS[k % OOPS.size()]); k /= OOPS.size(); }
    bool any = false; for (auto o : ops) any |= o->k == OOp::Backup; if (!any) return;
    string sig = "online: "; for (auto o : ops) sig += o->text() + "; "; W.at(sig);
    rmTree(W.dir + "/" + dbDir("tst")); copyTree(dbDir("base"), dbDir("tst")); rmTree(W.dir + "/backups"); mkdir("backups", 0755);
    Database* db = openDB("tst"); Graph g = OBASE; vector<std::pair<string, Graph>> bk;
    if (!db) { W.fail(sig, "the fresh database does not load"); return; }
    W.sh->states++;
    for (auto o : ops) {
        W.sh->transitions++;
        if (o->k == OOp::U) {
            o->u.apply(g);
            if (o->u.k == Op::FileIns || o->u.k == Op::FileDel) {
                string f = "upd.nt"; spit(f, nt(o->u.k == Op::FileIns ? o->u.ins : o->u.del));
                if (o->u.k == Op::FileIns) db->batch_insert(f, false, nullptr); else db->batch_remove(f, false, nullptr);
            } else { Res R = ask(db, o->u.text(), true); if (R.threw || R.code < 0) { W.fail(sig, o->text() + " fails: " + num(R.code) + " " + R.err); delete db; return; } }
        } else if (o->k == OOp::Save) db->save();
        else if (o->k == OOp::Backup) {
            if (!db->backup()) { W.fail(sig, "backup() returns false"); delete db; return; }
            string to = "backups/tst.db_" + num(bk.size());
            if (rename("backups/tst.db", to.c_str())) { W.fail(sig, "backup() left nothing at the backup path"); delete db; return; }
            bk.push_back({to, g});
        } else {
            delete db; db = nullptr;
            if (o->k == OOp::Restore && !bk.empty()) { rmTree(W.dir + "/" + dbDir("tst")); copyTree(bk.back().first, dbDir("tst")); g = bk.back().second; }
            db = openDB("tst"); if (!db) { W.fail(sig, "does not load after: " + o->text()); return; }
        }
    }
    long n = 0; string e = checkAccess(db, g, S, PR, O, Graph(), n); W.sh->execs += n;
    if (e.empty() && db->getTripleNum() != g.size()) e = "the triple count is " + num(db->getTripleNum()) + ", expected " + num(g.size());
    if (!e.empty()) { W.fail(sig, "the open database differs: " + e); delete db; return; }
    delete db;
    e = verifyDir(W, dbDir("tst"), "chk", g, false); if (!e.empty()) { W.fail(sig, "the closed database differs: " + e); return; }
    for (size_t i = 0; i < bk.size(); i++) {
        W.sh->execs++; e = verifyDir(W, bk[i].first, "tst", bk[i].second, true);
        if (!e.empty()) { W.fail(sig, "backup " + num(i + 1) + " is not the database as it was when the backup was taken: " + e); return; }
    }
    W.outcome(sig + ntg(g));
}

// ---------------------------------------------------------------- tools
static string BIN;
static long CLOCK;
static int runTool(const string& tool, vector<string> args, string* outText = nullptr) {
    CLOCK += 2;
    pid_t pid = fork();
    if (!pid) {
        int fd = open("tool.out", O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 1); dup2(fd, 2); int nul = open("/dev/null", O_RDONLY); dup2(nul, 0);
        vector<char*> av; string path = BIN + "/" + tool; av.push_back(&path[0]); for (auto& s : args) av.push_back(&s[0]); av.push_back(nullptr);
        setenv("LD_PRELOAD", (BIN + "/toolshim.so").c_str(), 1); setenv("VERIF_CLOCK_PLUS", num(CLOCK).c_str(), 1); 
        alarm(10); execv(path.c_str(), av.data()); _exit(126);
    }
    int st = 0; waitpid(pid, &st, 0);
    if (outText) *outText = slurp("tool.out");
    return WIFSIGNALED(st) ? -WTERMSIG(st) : WEXITSTATUS(st);
}
static uint32_t crcOf(const string& s) { return crc32(0, (const Bytef*)s.data(), s.size()); }
static string le(uint32_t v, int n) { string s; for (int i = 0; i < n; i++) s += (char)(v >> (8 * i)); return s; }
static string rawDeflate(const string& s) {
    z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, 6, Z_DEFLATED, -15, 8, Z_DEFAULT_STRATEGY); string o(s.size() + 200, 0);
    z.next_in = (Bytef*)s.data(); z.avail_in = s.size(); z.next_out = (Bytef*)&o[0]; z.avail_out = o.size(); deflate(&z, Z_FINISH); o.resize(z.total_out); deflateEnd(&z); return o;
}
static string makeZip(const vector<std::pair<string, string>>& fs, bool defl = false) {
    string z, cd;
    for (auto& f : fs) {
        bool df = defl && !f.second.empty(); string body = df ? rawDeflate(f.second) : f.second;
        size_t off = z.size(); string h = le(20, 2) + le(0, 2) + le(df ? 8 : 0, 2) + le(0, 4) + le(crcOf(f.second), 4) + le(body.size(), 4) + le(f.second.size(), 4) + le(f.first.size(), 2) + le(0, 2);
        z += le(0x04034b50, 4) + h + f.first + body;
        cd += le(0x02014b50, 4) + le(20, 2) + h + le(0, 2) + le(0, 2) + le(0, 2) + le(f.first.back() == '/' ? 16 : 0, 4) + le(off, 4) + f.first;
    }
    size_t o = z.size(); return z + cd + le(0x06054b50, 4) + le(0, 4) + le(fs.size(), 2) + le(fs.size(), 2) + le(cd.size(), 4) + le(o, 4) + le(0, 2);
}
static string unzipText(const string& f) {   // python does it: an implementation of its own
    string cmd = "python3 -c 'import zipfile,sys; z=zipfile.ZipFile(sys.argv[1]); sys.stdout.write(\"\".join(z.read(n).decode() for n in z.namelist()))' " + f + " > unz.txt 2>/dev/null";
    if (system(cmd.c_str())) return "?"; return slurp("unz.txt");
}
static const Graph F1 = G({{a, p, b}, {a, q, x}}), F2 = G({{b, p, c}, {c, r, y}}), F3 = G({{a, p, c}, {b, p, c}, {d, q, n5}, {p, p, a}}), F4 = G({{a, p, b}, {b, p, c}, {"<zz>", p, b}});
static Graph uni(Graph g, const Graph& h) { g.insert(h.begin(), h.end()); return g; }
static Graph sub(Graph g, const Graph& h) { for (auto& t : h) g.erase(t); return g; }

struct World { std::map<string, Graph> db; vector<std::pair<string, std::pair<string, Graph>>> bk; int nb = 0, ne = 0; };
struct TOp { string text; std::function<string(World&)> f; bool core; };   // returns "" or a failure
static vector<TOp> TOPS;
static string lastBackup(World& w, const string& n, bool first = false) { string r; for (auto& k : w.bk) if (k.second.first == n) { r = k.first; if (first) break; } return r; }
static string find1(const string& dir, const string& prefix) { string r; DIR* h = opendir(dir.c_str()); if (!h) return ""; while (auto e = readdir(h)) if (string(e->d_name).compare(0, prefix.size(), prefix) == 0) r = r.empty() ? e->d_name : "?"; closedir(h); return r; }
static string call(const string& tool, vector<string> args) { int st = runTool(tool, args); if (st < 0 || st == 126) { string s = tool; for (auto& t : args) s += " " + t; return s + (st < 0 ? string(" crashes: ") + strsignal(-st) : " cannot be run"); } return ""; }
static string backupOp(World& w, const string& n, const string& path) {
    vector<string> av = {"-db", n}; if (!path.empty()) { av.push_back("-p"); av.push_back(path); }
    string e = call("gbackup", av); if (!e.empty()) return e;
    string dir = path.empty() ? "backups" : path, got = find1(dir, n + ".db_");
    if (!w.db.count(n)) return got.empty() ? "" : "a backup of a database that does not exist appears: " + got;
    if (got.empty() || got == "?") return "no (single) backup folder " + dir + "/" + n + ".db_* appears";
    w.bk.push_back({dir + "/" + got, {n, w.db[n]}}); return "";
}
static string restoreOp(World& w, const string& n, const string& from) {
    if (from.empty()) return call("grestore", {"-db", n, "-p", "backups/none/" + n + ".db_230101000000"});
    string e = call("grestore", {"-db", n, "-p", from}); if (!e.empty()) return e;
    for (auto& k : w.bk) if (k.first == from && k.second.first == n) w.db[n] = k.second.second;   // a backup of another database: refused
    return "";
}
static string exportOp(World& w, const string& n, bool zip) {
    string dir = "exp" + num(w.ne++); string e = call("gexport", {"-db", n, "-f", dir, "-z", zip ? "1" : "0"}); if (!e.empty()) return e;
    string f = find1(dir, n + "_");
    if (!w.db.count(n)) return f.empty() ? "" : "an export of a database that does not exist appears";
    if (f.empty() || f == "?") return "no (single) export file in " + dir;
    string text = zip ? unzipText(dir + "/" + f) : slurp(dir + "/" + f); std::multiset<string> got, want; std::stringstream ss(text); string l;
    auto norm = [](string s) { string o; bool q = false; for (char ch : s) { if (ch == '"') q = !q; if (!q && isspace((unsigned char)ch)) continue; o += ch; } return o; };
    while (std::getline(ss, l)) if (!norm(l).empty()) got.insert(norm(l));
    for (auto& t : w.db[n]) want.insert(norm(t.s + t.p + t.o + "."));
    if (got != want) { string m = "the export is not the graph; exported:\n" + text + "\nexpected:\n" + ntg(w.db[n]); return m; }
    return "";
}
static string queryOp(World& w, const string& n) {
    spit("q.sparql", "DELETE { <a> <q> ?o } INSERT { <d> <r> ?o . <d> <r> \"new\" } WHERE { <a> <q> ?o }"); string e = call("gquery", {"-db", n, "-q", "q.sparql"}); if (!e.empty()) return e;
    auto it = w.db.find(n); if (it == w.db.end()) return ""; mkMod({{a, q, "?o"}}, {{d, r, "?o"}, {d, r, "\"new\""}}, {{a, q, "?o"}}).apply(it->second); return "";
}
static string selectOp(World& w, const string& n) {
    spit("q.sparql", "SELECT ?s ?p ?o WHERE { ?s ?p ?o }"); unlink("sel.out"); string e = call("gquery", {"-db", n, "-q", "q.sparql", "-f", "sel.out"}); if (!e.empty()) return e;
    (void)w; return "";
}
static void toolOps() {
    auto add = [&](const string& t, bool core, std::function<string(World&)> f) { TOPS.push_back({t, f, core}); };
    add("gbuild xtst F1", true, [](World& w) { string e = call("gbuild", {"-db", "xtst", "-f", "F1.nt"}); if (e.empty() && !w.db.count("xtst")) w.db["xtst"] = F1; return e; });
    add("gbuild tst zip(F2,sub/F3)", false, [](World& w) { string e = call("gbuild", {"-db", "tst", "-f", "Z.zip"}); if (e.empty() && !w.db.count("tst")) w.db["tst"] = uni(F2, F3); return e; });
    add("gbuild tst (empty)", true, [](World& w) { string e = call("gbuild", {"-db", "tst"}); if (e.empty() && !w.db.count("tst")) w.db["tst"] = Graph(); return e; });
    add("gadd xtst F3", true, [](World& w) { string e = call("gadd", {"-db", "xtst", "-f", "F3.nt"}); if (e.empty() && w.db.count("xtst")) w.db["xtst"] = uni(w.db["xtst"], F3); return e; });
    add("gadd tst -dir {F2,F3}", true, [](World& w) { string e = call("gadd", {"-db", "tst", "-dir", "D"}); if (e.empty() && w.db.count("tst")) w.db["tst"] = uni(uni(w.db["tst"], F2), F3); return e; });
    add("gadd xtst zip(F2,sub/F3)", false, [](World& w) { string e = call("gadd", {"-db", "xtst", "-f", "Z.zip"}); if (e.empty() && w.db.count("xtst")) w.db["xtst"] = uni(uni(w.db["xtst"], F2), F3); return e; });
    add("gsub xtst F4", true, [](World& w) { string e = call("gsub", {"-db", "xtst", "-f", "F4.nt"}); if (e.empty() && w.db.count("xtst")) w.db["xtst"] = sub(w.db["xtst"], F4); return e; });
    add("gdrop xtst", true, [](World& w) { string e = call("gdrop", {"-db", "xtst"}); if (e.empty()) w.db.erase("xtst"); return e; });
    add("gdrop tst", true, [](World& w) { string e = call("gdrop", {"-db", "tst"}); if (e.empty()) w.db.erase("tst"); return e; });
    add("gbackup xtst -p bk", true, [](World& w) { return backupOp(w, "xtst", "bk" + num(w.nb++)); });
    add("gbackup tst", true, [](World& w) { if (!find1("backups", "tst.db_").empty()) return string(); return backupOp(w, "tst", ""); });
    add("gbackup tst -p tst.db.kept/k", false, [](World& w) { return backupOp(w, "tst", "tst.db.kept/k" + num(w.nb++)); });
    add("grestore xtst (last backup of xtst)", true, [](World& w) { return restoreOp(w, "xtst", lastBackup(w, "xtst")); });
    add("grestore xtst (first backup of xtst)", false, [](World& w) { return restoreOp(w, "xtst", lastBackup(w, "xtst", true)); });
    add("grestore tst (last backup of tst)", true, [](World& w) { return restoreOp(w, "tst", lastBackup(w, "tst")); });
    add("grestore tst (last backup of xtst)", true, [](World& w) { return restoreOp(w, "tst", lastBackup(w, "xtst")); });
    add("grestore xtst (last backup of tst)", true, [](World& w) { return restoreOp(w, "xtst", lastBackup(w, "tst")); });
    add("grestore xtst (folders that are no backups of it)", false, [](World& w) {
        for (string f : {"bkx/monday", "bkx/xtst.db", "bkx/xtst.db_1/data", "D", "bkx/xxtst.db_230101000000"}) { string s = f; for (size_t i = s.find('/'); i != string::npos; i = s.find('/', i + 1)) mkdir(s.substr(0, i).c_str(), 0755); mkdir(f.c_str(), 0755); string e = restoreOp(w, "xtst", f); if (!e.empty()) return e; }
        return string(); });
    add("gquery xtst update", true, [](World& w) { return queryOp(w, "xtst"); });
    add("gquery tst select", false, [](World& w) { return selectOp(w, "tst"); });
    add("gexport xtst", true, [](World& w) { return exportOp(w, "xtst", false); });
    add("gexport tst -z", false, [](World& w) { return exportOp(w, "tst", true); });
    add("ginit -m", false, [](World&) { return call("ginit", {"-m"}); });
    add("gsub tst (no such file)", false, [](World&) { return call("gsub", {"-db", "tst", "-f", "none.nt"}); });
    add("gadd tst (no such file)", false, [](World&) { return call("gadd", {"-db", "tst", "-f", "none.nt"}); });
    add("gdrop/gbuild/gadd/gsub/gbackup system and xtst.db", false, [](World&) {
        for (string n : {"system", "xtst.db"}) for (auto& av : vector<vector<string>>{{"gdrop", "-db", n}, {"gbuild", "-db", n, "-f", "F1.nt"}, {"gadd", "-db", n, "-f", "F3.nt"}, {"gsub", "-db", n, "-f", "F4.nt"}, {"gbackup", "-db", n, "-p", "bad"}}) {
            string e = call(av[0], vector<string>(av.begin() + 1, av.end())); if (!e.empty()) return e; }
        return string(); });
}
static void toolsInit(Worker& W) {
    libInit();
    mkdir("data", 0755); mkdir("data/system", 0755); spit("data/system/system.nt", slurp("/repo/data/system/system.nt"));
    spit("F1.nt", ntg(F1)); spit("F2.nt", ntg(F2)); spit("F3.nt", ntg(F3)); spit("F4.nt", ntg(F4));
    mkdir("D", 0755); spit("D/one.nt", ntg(F2)); spit("D/two.nt", ntg(F3));
    spit("Z.zip", makeZip({{"F2.nt", ntg(F2)}, {"sub/", ""}, {"sub/F3.nt", ntg(F3)}}));
    runTool("ginit", {}); mkdir("tmpl", 0755); copyTree(dbDir("system"), "tmpl/system.db"); spit("tmpl/backup.json", slurp("backup.json"));
    // the second start state
    runTool("gbuild", {"-db", "xtst", "-f", "F1.nt"}); runTool("gbuild", {"-db", "tst", "-f", "F2.nt"});
    mkdir("tmpl2", 0755); for (string n : {"system", "xtst", "tst"}) copyTree(dbDir(n), "tmpl2/" + n + ".db"); spit("tmpl2/backup.json", slurp("backup.json"));
    (void)W;
}
static vector<vector<int>> TSEQ;   // first: the start state
static void tools(Worker& W, long t) {
    const vector<int>& s = TSEQ[t]; string sig = "tools from " + string(s[0] ? "{xtst=F1,tst=F2}: " : "{}: "); for (size_t i = 1; i < s.size(); i++) sig += TOPS[s[i]].text + "; "; W.at(sig);
    { DIR* h = opendir("."); vector<string> del; while (auto e = readdir(h)) { string n = e->d_name; if ((n.size() > 3 && n.substr(n.size() - 3) == ".db") || n == "backups" || n.compare(0, 2, "bk") == 0 || n.compare(0, 3, "exp") == 0 || n.find(".db_") != string::npos || n == "tst.db.kept" || n == "bad") del.push_back(n); } closedir(h); for (auto& n : del) rmTree(W.dir + "/" + n); }
    mkdir("backups", 0755);
    World w; string T = s[0] ? "tmpl2" : "tmpl";
    for (string n : {"system", "xtst", "tst"}) if (exists(T + "/" + n + ".db")) copyTree(T + "/" + n + ".db", dbDir(n));
    spit("backup.json", slurp(T + "/backup.json")); if (s[0]) { w.db["xtst"] = F1; w.db["tst"] = F2; }
    string e; W.sh->states++;
    for (size_t i = 1; i < s.size() && e.empty(); i++) { e = TOPS[s[i]].f(w); W.sh->transitions++; W.beat(); if (!e.empty()) e = "step " + num(i) + " " + TOPS[s[i]].text + ": " + e + "\n" + slurp("tool.out").substr(0, 1500); }
    if (e.empty()) for (string n : {"xtst", "tst"}) {   // what exists, and what is in it
        bool ex = exists(dbDir(n)); W.sh->execs++;
        if (ex != (w.db.count(n) > 0)) { e = "database " + n + (ex ? " exists and should not" : " does not exist and should"); break; }
        if (ex) { e = verifyDir(W, dbDir(n), "chk", w.db[n], true); if (!e.empty()) { e = "database " + n + ": " + e; break; } }
        W.beat();
    }
    if (e.empty()) for (auto& k : w.bk) { if (!exists(k.first)) { e = "the backup " + k.first + " is gone"; break; } string m = verifyDir(W, k.first, "chk", k.second.second, false); if (!m.empty()) { e = "backup " + k.first + ": " + m; break; } }
    if (e.empty()) {   // the system database
        rmTree(W.dir + "/" + dbDir("chk")); copyTree(dbDir("system"), dbDir("chk")); Database* db = openDB("chk");
        if (!db) e = "the system database does not load";
        else {
            Rows want; for (auto& k : w.db) want.push_back({"<" + k.first + ">", "<root>"});
            string qs = "SELECT ?d ?u WHERE { ?d <database_status> \"already_built\" . ?d <built_by> ?u . ?d <built_time> ?t . }"; Res R = ask(db, qs);
            e = diffRows(qs, sorted(R.rows), want);
            if (e.empty()) for (string pr : {"database_status", "built_by", "built_time"}) { string q2 = "SELECT ?d WHERE { ?d <" + pr + "> ?t }"; Rows w2; for (auto& k : w.db) w2.push_back({"<" + k.first + ">"}); if (pr == "built_by") w2.push_back({"<system>"}); R = ask(db, q2); e = diffRows(q2, sorted(R.rows), sorted(w2)); if (!e.empty()) break; }
            delete db; rmTree(W.dir + "/" + dbDir("chk")); if (!e.empty()) e = "the system database: " + e;
        }
    }
    if (e.empty()) {
        string out; int st = runTool("gshow", {}, &out); std::set<string> got, want = {"system"}; for (auto& k : w.db) want.insert(k.first);
        std::stringstream ss(out); string l; while (std::getline(ss, l)) { if (l.compare(0, 2, "| ")) continue; size_t i = 0; std::stringstream c1(l.substr(i + 1)); string n; c1 >> n; if (n != "database" && n != "|") got.insert(n); }
        if (st || got != want) e = "gshow shows other databases than exist:\n" + out;
    }
    if (!e.empty()) W.fail(sig, e);
    W.outcome(sig);
}

// ---------------------------------------------------------------- zip
struct Ent { string name; int size; };
static const vector<Ent> ENTS = {{"F.nt", 100}, {"G.nt", 20000}, {"E.nt", 0}, {"H.nt", 8192}, {"d/", 0}, {"d/F.nt", 8193}, {"d/e/", 0}, {"d/e/G.nt", 50}, {"F.nt", 300}, {"a b.nt", 7}, {"..x/f..y", 9}, {"../esc.nt", 60}, {"d/../../esc2.nt", 61}, {"../../esc3.nt", 62}, {"../d/", 0}, {"..", 0}, {"d/..", 5}};
static string body(const Ent& e) { string s; for (int i = 0; (int)s.size() < e.size; i++) s += "<s" + num(i * 7919 % 1013) + "> <" + e.name + "> \"v" + num(i) + "\" .\n"; s.resize(e.size); return s; }
static void walk(const string& d, std::map<string, string>& m) {
    DIR* h = opendir(d.c_str()); if (!h) return;
    while (auto e = readdir(h)) { string n = e->d_name; if (n == "." || n == "..") continue; string f = d + "/" + n; struct stat st; if (lstat(f.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) { m[f + "/"] = ""; walk(f, m); } else m[f] = slurp(f); }
    closedir(h);
}
static void zipTask(Worker& W, long t) {
    long N = ENTS.size(), total = N + N * N + N * N * N; bool defl = t >= total; t %= total;
    vector<int> idx; if (t < N) idx = {(int)t}; else if (t < N + N * N) { t -= N; idx = {(int)(t / N), (int)(t % N)}; } else { t -= N + N * N; idx = {(int)(t / N / N), (int)(t / N % N), (int)(t % N)}; }
    string sig = "zip:"; vector<std::pair<string, string>> fs; bool bad = false; std::map<string, string> want;
    for (int i : idx) {
        const Ent& e = ENTS[i]; sig += " " + e.name + "(" + num(e.size) + ")"; fs.push_back({e.name, body(e)});
        string c1 = "/" + e.name + "/"; if (c1.find("/../") != string::npos) { bad = true; continue; }
        string r = "zz/in/unz/" + e.name; for (size_t k = r.find('/', 10); k != string::npos; k = r.find('/', k + 1)) want[r.substr(0, k + 1)] = ""; if (r.back() != '/') want[r] = body(e);
    }
    if (defl) sig += " deflated"; W.at(sig); W.sh->states++; W.sh->transitions += idx.size();
    rmTree(W.dir + "/zz"); mkdir("zz", 0755); mkdir("zz/in", 0755); mkdir("zz/d", 0755); mkdir("zz/in/unz", 0755); spit("zz/keep", "keep"); spit("zz/in/A.zip", makeZip(fs, defl));
    std::map<string, string> before, after, inside; walk("zz", before);
    CompressUtil::UnCompressZip z("zz/in/A.zip", "zz/in/unz"); int rc = z.unCompress(); W.sh->execs++;
    walk("zz", after); for (auto it = after.begin(); it != after.end();) if (it->first.compare(0, 10, "zz/in/unz/") == 0 && it->first != "zz/in/unz/") { inside[it->first] = it->second; it = after.erase(it); } else ++it;
    inside.erase("zz/in/unz/");
    if (before != after) { string m; for (auto& k : after) if (!before.count(k.first) || before[k.first] != k.second) m += " " + k.first; W.fail(sig, "unpacking into zz/in/unz wrote outside of it:" + m); return; }
    for (auto& k : inside) if (!want.count(k.first) || (want[k.first] != k.second)) if (!bad) { W.fail(sig, "unpacked file " + k.first + " is not in the archive or has another content"); return; }
    if (!bad) {
        if (rc != CompressUtil::UnZipOK) { W.fail(sig, "the archive is refused, code " + num(rc)); return; }
        if (inside != want) { string m = "expected:"; for (auto& k : want) m += " " + k.first; m += " got:"; for (auto& k : inside) m += " " + k.first; W.fail(sig, m); return; }
        vector<string> l; z.getFileList(l, ""); std::set<string> got(l.begin(), l.end()), files; size_t mx = 0; for (auto& k : want) if (k.first.back() != '/') { files.insert(k.first); mx = std::max(mx, k.second.size()); }
        if (got != files || l.size() != files.size()) { W.fail(sig, "getFileList gives other files"); return; }
        bool dup = std::set<int>(idx.begin(), idx.end()).size() != idx.size() || (std::count(idx.begin(), idx.end(), 0) && std::count(idx.begin(), idx.end(), 8));
        string big = z.getMaxFilePath(); if (mx && !dup && (!want.count(big) || want[big].size() != mx)) { W.fail(sig, "getMaxFilePath gives " + big); return; }
    }
    W.outcome(sig + num(rc));
    // the packing side: one file, packed and unpacked again
    if (idx.size() == 1 && !bad && ENTS[idx[0]].name.back() != '/') {
        const Ent& e = ENTS[idx[0]]; string dir = "zz/exp/sub"; mkdir("zz/exp", 0755); mkdir(dir.c_str(), 0755); string f = dir + "/x.nt"; spit(f, body(e));
        if (!CompressUtil::FileHelper::compressExportZip(f, "zz/o.zip")) { W.fail(sig, "compressExportZip fails"); return; }
        mkdir("zz/back", 0755); CompressUtil::UnCompressZip u("zz/o.zip", "zz/back"); int rc2 = u.unCompress(); vector<string> l; u.getFileList(l, "");
        if (rc2 != CompressUtil::UnZipOK || l.size() != 1 || slurp(l[0]) != body(e) || l[0].compare(0, 8, "zz/back/")) W.fail(sig, "a file packed by compressExportZip does not unpack to itself (code " + num(rc2) + ")");
    }
}

int main(int argc, char** argv) {
    Explorer X("C11", argc, argv);
    char exe[4096]; ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[k > 0 ? k : 0] = 0; BIN = string(exe).substr(0, string(exe).rfind('/'));
    auto U = [&](Op o) { OOp u; u.k = OOp::U; u.u = o; OOPS.push_back(u); };
    U(mkIns({{d, p, "<e>"}, {d, r, y}})); U(mkIns({{a, p, c}, {p, q, n5}})); U(mkDel({{a, p, b}, {b, p, c}})); U(mkFI({{c, p, d}, {a, r, n5}}));
    for (auto kk : {OOp::Save, OOp::Backup, OOp::Reopen, OOp::Restore}) { OOp o; o.k = kk; OOPS.push_back(o); }
    ODEPTH = X.argThorough() ? 5 : 4; long n = 1; for (int i = 0; i < ODEPTH; i++) n *= OOPS.size();
    X.run("online", n, onlineInit, online);
    toolOps();
    int N = TOPS.size();
    for (int st : {0, 1}) for (int i = 0; i < N; i++) {
        TSEQ.push_back({st, i});
        for (int j = 0; j < N; j++) {
            TSEQ.push_back({st, i, j});
            for (int l = 0; l < N; l++) { bool br = TOPS[i].text.find("gbackup") == 0 && TOPS[l].text.find("grestore") == 0; if (X.argThorough() || (st == 1 && br)) TSEQ.push_back({st, i, j, l}); }
        }
    }
    X.run("tools", TSEQ.size(), toolsInit, tools);
    { long N = ENTS.size(); X.run("zip", 2 * (N + N * N + N * N * N), [](Worker&) { libInit(); }, zipTask); }
    X.rule = "every backup taken in any history opens as exactly the graph at its time and can be updated; the open database is not changed by it; each tool changes exactly the database it names";
    X.boundsText = "online: all histories of " + num(ODEPTH) + " steps over 8 operations; tools: all histories of length 2 (quick) / 3 (thorough) over " + num(N) + " tool calls from two start states, plus backup-any-restore";
    return X.finish();
}
