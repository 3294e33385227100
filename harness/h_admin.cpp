// C14: the server permits exactly what was granted.  C15: the server's logs show exactly what happened.
// Operation sequences on the real APIUtil (the object all handlers of ghttp and grpc ask), against a small model.
#include "gs.h"
#include "GRPC/APIUtil.h"
using namespace gs;

static const char* TYPES[] = {"query", "update", "load", "unload", "restore", "backup", "export"};
static const int NT = 7;
// every operation a handler asks for, and the privilege it needs ("" : everybody may)
static const char* NEEDS[][2] = {{"query", "query"}, {"monitor", "query"}, {"update", "update"}, {"batchInsert", "update"}, {"batchRemove", "update"}, {"begin", "update"}, {"tquery", "update"},
    {"commit", "update"}, {"rollback", "update"}, {"checkpoint", "update"}, {"load", "load"}, {"unload", "unload"}, {"restore", "restore"}, {"backup", "backup"}, {"export", "export"},
    {"login", ""}, {"show", ""}, {"check", ""}, {"userpassword", ""}, {"testConnect", ""}};
static const char* NOBODY[] = {"build", "drop", "usermanage", "userprivilegemanage", "shutdown", "rename"};

static vector<string> USERS = {"ua", "ub"}, DBS = {"d1", "d2"};

struct Model {
    std::map<string, string> pass; std::map<string, std::set<string>> priv;   // user|db -> types
    std::map<string, string> dbs;                                             // name -> creator
    Model() { pass["root"] = "123456"; }
    string str() const { string s; for (auto& p : pass) s += p.first + ":" + p.second + " "; for (auto& p : priv) if (p.second.size()) { s += p.first + "={"; for (auto& t : p.second) s += t + ","; s += "} "; } for (auto& d : dbs) s += "[" + d.first + " by " + d.second + "]"; return s; }
    void forget(const string& u) { for (auto& p : priv) if (p.first.compare(0, u.size() + 1, u + "|") == 0) p.second.clear(); }
};
struct AOp { int k; string u, x; vector<string> t; };   // k: see apply
static string opStr(const AOp& o) {
    static const char* N[] = {"add-user", "delete-user", "set-password", "grant", "revoke", "revoke-all", "grant-all", "copy-privileges", "register-db", "drop-db", "restart", "kill-and-start"};
    string s = N[o.k]; if (o.u.size()) s += " " + o.u; if (o.x.size()) s += " " + o.x; for (auto& t : o.t) s += "," + t; return s;
}
static APIUtil* S = nullptr; static string BASE;
static bool start() { S = new APIUtil(); return S->initialize("ghttp", "9000", "", false) == 1; }
static string ROOTDIR;
// the server ends without saving anything: what its destructor writes is undone
static void killServer() {
    if (!S) return;
    string d = ROOTDIR + "/" + dbDir("system"), keep = ROOTDIR + "/sys_killed"; rmTree(keep); copyTree(d, keep);
    delete S; S = nullptr; rmTree(d); copyTree(keep, d);
}
static void reset(const string& from) {
    killServer(); rmTree(ROOTDIR + "/" + dbDir("system")); copyTree(from, dbDir("system")); unlink("logs/transaction.json"); }

// what the running server answers, against the model
static string verify(const Model& m) {
    std::set<string> pw; for (auto& p : m.pass) pw.insert(p.second); pw.insert("1"); pw.insert("2"); pw.insert("123456");
    vector<string> us = USERS; us.push_back("root"); us.push_back("ghost");
    for (auto& u : us) {
        auto it = m.pass.find(u);
        if (S->check_user_exist(u) != (it != m.pass.end())) return "user " + u + (it != m.pass.end() ? " does not exist" : " exists");
        for (auto& p : pw) for (int enc = 0; enc < 2; enc++) {
            bool ok = S->check_indentity(u, enc ? Util::md5(p) : p, enc ? "1" : "0").empty(), want = it != m.pass.end() && it->second == p;
            if (ok != want) return "user " + u + " with the password " + p + (ok ? " is let in" : " is not let in") + (enc ? " (md5)" : "");
        }
        vector<string> ds = DBS; ds.push_back("system"); ds.push_back("other");
        for (auto& d : ds) {
            auto pi = m.priv.find(u + "|" + d);
            for (auto& n : NEEDS) {
                bool want = d != "system" && (u == "root" || !n[1][0] || (pi != m.priv.end() && pi->second.count(n[1])));
                if (S->check_privilege(u, n[0], d) != want) return string("user ") + u + (want ? " may not " : " may ") + n[0] + " on " + d;
            }
            for (auto& n : NOBODY) if (S->check_privilege(u, n, d) != (u == "root" && d != "system")) return string("user ") + u + (u == "root" ? " may not " : " may ") + n + " on " + d;
        }
    }
    for (auto& d : DBS) if (S->check_db_exist(d) != (m.dbs.count(d) > 0) || S->check_already_build(d) != (m.dbs.count(d) > 0)) return "database " + d + (m.dbs.count(d) ? " is not registered" : " is registered");
    vector<struct DBUserInfo*> li; S->get_user_info(&li); std::set<string> names; for (auto p : li) { names.insert(p->getUsernname());
        for (auto& d : DBS) for (int t = 0; t < NT && p->getUsernname() != "root"; t++) {
            string l = t == 0 ? p->getQuery() : t == 1 ? p->getUpdate() : t == 2 ? p->getLoad() : t == 3 ? p->getUnload() : t == 4 ? p->getRestore() : t == 5 ? p->getBackup() : p->getExport();
            auto pi = m.priv.find(p->getUsernname() + "|" + d); bool want = pi != m.priv.end() && pi->second.count(TYPES[t]);
            if ((("," + l + ",").find("," + d + ",") != string::npos) != want) return "the list of users shows " + string(TYPES[t]) + "=" + l + " for " + p->getUsernname();
        } }
    std::set<string> want; for (auto& p : m.pass) want.insert(p.first);
    if (names != want || li.size() != want.size()) return "the list of users has " + num(li.size()) + " entries";
    for (auto& u : us) if (m.pass.count(u)) {
        vector<struct DatabaseInfo*> a; S->get_already_builds(u, a); std::set<string> got, w; for (auto p : a) { got.insert(p->getName() + " by " + p->getCreator()); }
        for (auto& d : m.dbs) { auto pi = m.priv.find(u + "|" + d.first); if (u == "root" || (pi != m.priv.end() && pi->second.count("query"))) w.insert(d.first + " by " + d.second); }
        if (got != w) { string s = "user " + u + " is shown the databases"; for (auto& g : got) s += " [" + g + "]"; return s; }
    }
    return "";
}
static string apply(const AOp& o, Model& m) {
    auto ret = [&](bool got, bool want) { return got == want ? string() : string(got ? "reported success" : "reported failure"); };
    string r; bool known = m.pass.count(o.u);
    switch (o.k) {
    case 0: r = ret(S->user_add(o.u, o.x), !known); if (!known) { m.pass[o.u] = o.x; } break;
    case 1: r = ret(S->user_delete(o.u), known); m.pass.erase(o.u); m.forget(o.u); break;
    case 2: r = ret(S->user_pwd_alert(o.u, o.x), known); if (known) m.pass[o.u] = o.x; break;
    case 3: { bool w = o.u == "root" || (known && o.x != "system"); r = ret(S->add_privilege(o.u, o.t, o.x), w); if (w && o.u != "root") for (auto& t : o.t) m.priv[o.u + "|" + o.x].insert(t); break; }
    case 4: { auto& p = m.priv[o.u + "|" + o.x]; bool all = known && o.x != "system", any = false; for (auto& t : o.t) { if (!p.count(t)) all = false; else any = true; }
        bool g = S->del_privilege(o.u, o.t, o.x); if (all && !g) r = "reported failure"; if (!any && g) r = "reported success"; for (auto& t : o.t) p.erase(t); break; }
    case 5: r = ret(S->clear_user_privilege(o.u), known && o.u != "root"); if (o.u != "root") m.forget(o.u); break;
    case 6: r = ret(S->init_privilege(o.u, o.x), known || o.u == "root"); if (known && o.u != "root") for (auto t : TYPES) m.priv[o.u + "|" + o.x].insert(t); break;
    case 7: { r = ret(S->copy_privilege(o.u, o.x), true); for (auto& u : USERS) for (auto& t : std::set<string>(m.priv[u + "|" + o.u])) m.priv[u + "|" + o.x].insert(t); break; }
    case 8: if (m.dbs.count(o.x)) break; r = ret(S->build_db_user_privilege(o.x, o.u), true); m.dbs[o.x] = o.u; break;
    case 9: r = ret(S->delete_from_already_build(o.x), true); m.dbs.erase(o.x); for (auto& p : m.priv) if (p.first.size() > o.x.size() && p.first.substr(p.first.size() - o.x.size() - 1) == "|" + o.x) p.second.clear(); break;
    case 10: delete S; S = nullptr; if (!start()) r = "the server does not start"; break;
    case 11: killServer(); if (!start()) r = "the server does not start"; break;
    }
    return r.empty() ? "" : opStr(o) + " " + r;
}
static vector<AOp> alphabet(bool big) {
    vector<string> all(TYPES, TYPES + NT);
    vector<AOp> a = {{0, "ua", "1"}, {0, "ub", "2"}, {1, "ua"}, {2, "ua", "2"}, {3, "ua", "d1", {"query"}}, {3, "ua", "d1", {"update", "load", "unload"}}, {3, "ub", "d2", all},
        {4, "ua", "d1", {"query"}}, {4, "ub", "d2", {"update", "export"}}, {5, "ua"}, {6, "ub", "d1"}, {7, "d1", "d2"}, {8, "ua", "d1"}, {9, "", "d1"}, {10}, {11},
        {2, "root", "1"}, {3, "ua", "system", {"query"}}};
    if (big) for (auto& o : vector<AOp>{{1, "ub"}, {2, "ghost", "1"}, {3, "ghost", "d1", {"query"}}, {3, "root", "d1", {"query"}}, {4, "ua", "d1", all}, {4, "root", "d1", {"query"}}, {4, "ghost", "d1", {"query"}}, {5, "ub"}, {5, "root"}, {5, "ghost"},
        {6, "ua", "d2"}, {6, "ghost", "d1"}, {7, "d2", "d1"}, {8, "ub", "d2"}, {9, "", "d2"}, {1, "ghost"}, {3, "ub", "d1", {"restore", "backup"}}, {4, "ub", "d1", {"restore"}}, {4, "ub", "d1", {"backup", "query"}}}) a.push_back(o);
    return a;
}
static vector<AOp> full() {
    vector<string> all(TYPES, TYPES + NT);
    return {{0, "ua", "1"}, {0, "ub", "2"}, {8, "ua", "d1"}, {8, "root", "d2"}, {6, "ua", "d1"}, {3, "ua", "d2", {"query", "backup"}}, {3, "ub", "d1", {"query", "load", "restore"}}, {6, "ub", "d2"}};
}
static string FULL; static Model MFULL;
static void initAdmin(Worker& W) {
    ROOTDIR = W.dir; libInit(); Util::configure_new();
    string t = slurp("/repo/data/system/system.nt"); if (t.empty()) t = "<system> <built_by> <root> .\n";
    if (!buildDB("system", t)) abort();
    Database* d = openDB("system"); ResultSet rs; d->query("insert data {<CoreVersion> <value> \"1.2\". <root> <has_password> \"123456\" .}", rs, stdout); d->save(); delete d;
    BASE = W.dir + "/sys_base"; FULL = W.dir + "/sys_full";
    copyTree(dbDir("system"), BASE);
    MFULL = Model();
    if (!start()) abort();
    for (auto& o : full()) apply(o, MFULL);
    S->refresh_sys_db();
    copyTree(dbDir("system"), FULL);
    killServer();
}
static void runSeq(Worker& W, int base, const vector<AOp>& seq) {
    reset(base ? FULL : BASE); Model m = base ? MFULL : Model();
    string h = base ? "users ua and ub with some privileges" : "fresh system database";
    W.at("start: " + h);
    if (!start()) { W.fail("start", "the server does not start"); return; }
    for (size_t i = 0; i <= seq.size(); i++) {
        if (i < seq.size()) { h += "; " + opStr(seq[i]); W.at(h); W.sh->transitions++; string e;
            try { e = apply(seq[i], m); } catch (std::exception& x) { e = "an exception leaves " + opStr(seq[i]) + ": " + x.what(); }
            if (e.size()) { W.fail(h + ": " + e, "after: " + h + "\nexpected state: " + m.str() + "\n" + e); break; } }
        else { if (seq.size() && seq.back().k >= 10) break; h += "; (kill and start)"; W.at(h); killServer(); if (!start()) { W.fail(h + ": start", h + "\nthe server does not start"); return; } }
        W.sh->states++; W.beat();
        string e = verify(m); W.outcome(m.str());
        if (e.size()) { W.fail(h + ": " + e, "after: " + h + "\nexpected state: " + m.str() + "\n" + e); break; }
    }
    W.sh->execs++;
}

// ------------------------------------------------------------ unusual characters
static vector<string> odd() {
    return {"a b", "a\"b", "\"", "a\\b", "\\", "\\\"", "a'b", "a\tb", "a\nb", "a\r\nb", "<x>", ">", "a.b", "x\". <ub> <has_query_priv> <d2>. <ub> <p> \"y", "\xe4\xb8\xad\xe6\x96\x87", "\\n", "\\u0041", "a\"@en", "a\"^^<t>", "{}", "%20", "?x", "#", "1e5", " ", "\\\\\""};
}
static void oddCase(Worker& W, long t) {
    auto ps = odd(); string p = ps[t / 3]; int how = t % 3;
    reset(BASE); Model m; USERS = {"ua", "ub"};
    if (!start()) { W.fail("start", "the server does not start"); return; }
    string h = how == 0 ? "user ua is added with the password " : how == 1 ? "user ua changes the password from 1 to " : "root changes the password to "; h += Explorer::esc(p); W.at(h);
    vector<AOp> seq = {{0, "ub", "2"}, {3, "ub", "d1", {"query"}}};
    if (how == 0) seq.push_back({0, "ua", p}); else if (how == 1) { seq.push_back({0, "ua", "1"}); seq.push_back({2, "ua", p}); } else seq.push_back({2, "root", p});
    seq.push_back({3, "ub", "d1", {"load"}}); seq.push_back({11});
    if (how == 0) { seq.push_back({2, "ua", "2"}); seq.push_back({11}); }
    for (auto& o : seq) {
        W.sh->transitions++; string e; W.beat();
        try { e = apply(o, m); } catch (std::exception& x) { e = string("an exception leaves the operation: ") + x.what(); }
        if (e.empty()) e = verify(m);
        if (e.size()) { W.fail(h + ": " + e, h + "\nat: " + opStr(o) + "\n" + e); return; }
        W.sh->states++;
    }
    W.outcome(h); W.sh->execs++;
}
// names of users and databases that cannot be written as IRIs are refused, and nothing else changes
static void oddName(Worker& W, long t) {
    vector<string> ns = {"a b", "a>b", "<a", "a\"b", "a{b", "a\\b", "a\nb", "a> <has_password> \"9\". <root"}; string n = ns[t % ns.size()];
    reset(BASE); Model m;
    if (!start()) { W.fail("start", "the server does not start"); return; }
    string h = "a user named " + Explorer::esc(n) + " is added"; W.at(h); W.sh->transitions++;
    string e; bool ok = false;
    try { ok = S->user_add(n, "7"); } catch (std::exception& x) { e = string("an exception leaves the operation: ") + x.what(); }
    bool in = false;
    for (int r = 0; r < 2 && e.empty(); r++) {
        W.at(h + (r ? " and the server is started again" : "")); 
        bool lets = S->check_indentity(n, "7", "0").empty(), ex = S->check_user_exist(n);
        if (lets != ok || ex != ok) e = string(ok ? "it was reported as added but " : "it was reported as refused but ") + (lets ? "it is let in" : "it is not let in") + (r ? " after a restart" : "");
        if (e.empty() && !ok) { try { e = verify(m); } catch (...) { e = "exception"; } }
        in = lets;
        if (!r) { killServer(); if (!start()) { e = "the server does not start"; } }
    }
    if (e.size()) W.fail(h + ": " + e, h + "\n" + e);
    W.outcome(h + num(ok) + num(in)); W.sh->states++; W.sh->execs++;
}
// ------------------------------------------------------------ lists of addresses
struct Ent { const char* text; const char* lo; const char* hi; };
static const Ent ENT[] = {{"1.1.1.1", "1.1.1.1", "1.1.1.1"}, {"1.1.1.3-1.1.1.5", "1.1.1.3", "1.1.1.5"}, {"10.0.0.0-10.255.255.255", "10.0.0.0", "10.255.255.255"}, {"127.0.0.1", "127.0.0.1", "127.0.0.1"},
    {"1.1.1.250-1.1.2.5", "1.1.1.250", "1.1.2.5"}, {"9.9.9.9-9.9.9.9", "9.9.9.9", "9.9.9.9"}, {"#1.1.1.2", "", ""}};
static const int NENT = 7;
static unsigned long ipNum(const string& s) { unsigned a, b, c, d; if (sscanf(s.c_str(), "%u.%u.%u.%u", &a, &b, &c, &d) != 4) return 0; return ((unsigned long)a << 24) | (b << 16) | (c << 8) | d; }
static const char* PROBE[] = {"1.1.1.1", "1.1.1.2", "1.1.1.3", "1.1.1.4", "1.1.1.5", "1.1.1.6", "1.1.1.11", "11.1.1.1", "10.0.0.0", "10.3.4.5", "10.255.255.255", "9.255.255.255", "11.0.0.0", "127.0.0.1", "1.1.1.249", "1.1.1.250", "1.1.1.255", "1.1.2.0", "1.1.2.5", "1.1.2.6", "9.9.9.9", "9.9.9.8", "0.0.0.0", "255.255.255.255", "::1"};
static void ipCase(Worker& W, long t) {
    int kind = t & 1, viaSave = (t >> 1) & 1, set = t >> 2;    // kind 0: list of denied, 1: list of allowed
    string cfg = slurp("/repo/conf.ini"), file = kind ? "allow.lst" : "deny.lst";
    string a = "ip_allow_path=\n", d = "ip_deny_path=\"ipDeny.config\"";
    auto rep = [&](const string& from, const string& to) { size_t p = cfg.find(from); if (p == string::npos) abort(); cfg.replace(p, from.size(), to); };
    if (kind) rep(a, "ip_allow_path=\"allow.lst\"\n"); else rep(d, "ip_deny_path=\"deny.lst\"");
    spit("conf.ini", cfg); Util::global_config["ip_allow_path"] = ""; Util::global_config["ip_deny_path"] = "";   // as in a new process
    vector<string> lines; string h = kind ? "allowed:" : "denied:"; for (int i = 0; i < NENT; i++) if (set >> i & 1) { lines.push_back(ENT[i].text); h += string(" ") + ENT[i].text; }
    string text = "# list\n"; if (!viaSave) for (auto& l : lines) text += l + "\n"; else text += "8.8.8.8\n";
    spit(file, text); W.at(h);
    reset(BASE); if (!start()) { W.fail("start", "the server does not start"); return; }
    if (viaSave) { h += " (saved by the running server)"; if (!S->ip_save(kind ? "2" : "1", lines)) { W.fail(h + ": refused", h); return; } }
    for (int r = 0; r < (viaSave ? 2 : 1); r++) {
        if (r) { killServer(); start(); h += " (after a restart)"; }
        for (auto p : PROBE) {
            bool in = false; unsigned long x = ipNum(p); for (int i = 0; i < NENT; i++) if ((set >> i & 1) && ENT[i].lo[0] && ipNum(ENT[i].lo) <= x && x <= ipNum(ENT[i].hi)) in = true;
            if (strchr(p, ':')) in = false;
            bool want = kind ? in : !in; W.sh->states++;
            string e; bool got = false; try { got = S->check_access_ip(p, 1).empty(); } catch (std::exception& x) { e = x.what(); }
            if (e.size() || got != want) { W.fail(h + ": " + p, h + "\nthe address " + p + (e.size() ? " makes an exception: " + e : got ? " is let in" : " is refused")); return; }
        }
        vector<string> shown = S->ip_list(kind ? "2" : "1"); std::set<string> sh(shown.begin(), shown.end()), w; for (auto& l : lines) if (l[0] != '#') w.insert(l);
        if (sh != w) W.fail(h + ": list", h + "\nthe list shown has " + num(sh.size()) + " entries");
        if (S->ip_enabled_type() != (kind ? "2" : "1")) W.fail(h + ": type", h);
    }
    W.sh->transitions++; W.sh->execs++; W.outcome(h);
}
// five failed logins lock an address until it is reset or the server restarts; other addresses are not affected
static void lockCase(Worker& W, long t, int depth) {
    delete S; S = new APIUtil();
    int cnt[2] = {0, 0}; string h; W.at("failed logins, sequence " + num(t));
    const char* IP[] = {"1.2.3.4", "1.2.3.5"};
    for (int i = 0; i < depth; i++, t /= 4) {
        int o = t % 4;   // 0,1 failed login; 2 reset of the first; 3 only checks
        if (o < 2) { S->update_access_ip_error_num(IP[o]); cnt[o]++; h += string(" fail ") + IP[o]; }
        else if (o == 2) { S->reset_access_ip_error_num(IP[0]); cnt[0] = 0; h += " reset"; } else h += " -";
        W.sh->transitions++;
        for (int k = 0; k < 2; k++) { bool got = S->check_access_ip(IP[k], 2).empty(), want = cnt[k] <= 4;
            if (got != want) { W.fail(h + ": " + IP[k], "failed logins:" + h + "\nthe address " + IP[k] + (got ? " is let in" : " is locked")); return; }
            if (!S->check_access_ip(IP[k], 3).empty()) { W.fail(h + ": level 3", h); return; } }
    }
    W.sh->states++; W.sh->execs++; W.outcome(num(cnt[0]) + "," + num(cnt[1]));
}
#include "h_admin_logs.h"

int main(int argc, char** argv) {
    string prop = argc > 1 ? argv[1] : "C14";
    Explorer X(prop, argc, argv); bool th = X.argThorough(); X.hang = 40;
    if (prop == "C15") return mainLogs(X, th);
    X.rule = "distinct states of users, passwords, privileges and databases (each compared with the server's answers to every question of access)";
    vector<AOp> A = alphabet(false), B = alphabet(true);
    int nb = B.size(), na = th ? (int)A.size() : 14;
    X.run("one", 2L * nb, initAdmin, [&](Worker& W, long t) { runSeq(W, t / nb, {B[t % nb]}); });
    X.run("two", 2L * nb * nb, initAdmin, [&](Worker& W, long t) { runSeq(W, t % 2, {B[t / 2 / nb], B[t / 2 % nb]}); });
    X.run(th ? "three" : "three-small", 2L * na * na * na, initAdmin, [&](Worker& W, long t) { long x = t / 2; runSeq(W, t % 2, {A[x / na / na], A[x / na % na], A[x % na]}); });
    X.run("characters", 3L * odd().size(), initAdmin, oddCase);
    X.run("names", 8, initAdmin, oddName);
    X.run("addresses", 4L << NENT, initAdmin, ipCase);
    int depth = th ? 10 : 8; long n = 1; for (int i = 0; i < depth; i++) n *= 4;
    X.run("locks", n, initAdmin, [&](Worker& W, long t) { lockCase(W, t, depth); });
    X.boundsText = "all sequences of two of " + num(nb) + " operations" + " and of three of " + num(na) + " on users, passwords, seven privileges and databases (2 users and root, 2 databases), from a fresh and from a populated system database, restarts in between and at the end; " + num((long)odd().size()) + " unusual passwords in three ways; 8 unusual names; all subsets of 7 list entries as allowed or denied addresses x 25 addresses; all sequences of " + num(depth) + " failed logins and resets";
    return X.finish();
}
