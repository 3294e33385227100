// C13: operations of several threads on one open database: every schedule within the bounds ends, and gives what the operations
// give one after the other in some order.  The threads run under a scheduler of our own (schedrt.cpp), one at a time; it
// can switch at every lock operation, and in the "fine" modes also at every basic block of the storage and update code.
#include "model.h"
#include "schedrt.h"
#include "Database/Txn_manager.h"
#include <sys/time.h>
using namespace gs;

struct OpT {
    string name; std::function<string()> f; bool write; int txn; char kind;   // txn: number of the transaction it belongs to or -1; kind B begin, C end, K checkpoint, else ' '
};
struct Scen { bool freeMarks = false; std::set<int> open;   // transactions that are open when the threads start
   
    string name, graph; vector<vector<OpT>> th; std::function<string()> fin; vector<string> warm; bool tm; int bound; bool fine, countAll = false; std::function<void()> start;
    string text() const { string s = name + "\n  graph: " + graph; for (auto& c : s) if (c == '\n') c = ' '; for (size_t i = 0; i < th.size(); i++) { s += "\n  thread " + num(i) + ":"; for (auto& o : th[i]) s += " [" + o.name + "]"; } return s; }
};
static Database* DB = 0; static Txn_manager* TM = 0; static unsigned long long TID[8];

static string resStr(const Res& r) { if (r.threw) return "threw " + r.err; if (r.code == -100) return rowsStr(sorted(r.rows)); return "code " + num(r.code); }
static OpT Q(const string& q) { return {q, [q] { return resStr(ask(DB, q)); }, false, -1, ' '}; }
static OpT U(const string& q) { return {q, [q] { return resStr(ask(DB, q, true)); }, true, -1, ' '}; }
static string jrows(const string& s) {   // the bindings of a JSON answer, order removed
    size_t a = s.find("\"bindings\""); if (a == string::npos) return s; vector<string> v; string cur; int d = 0;
    for (size_t i = s.find('[', a) + 1; i < s.size(); i++) { char c = s[i]; if (c == ']' && !d) break; if (c == '{') d++; if (d) cur += c; if (c == '}' && !--d) { v.push_back(cur); cur.clear(); } }
    std::sort(v.begin(), v.end()); string r; for (auto& x : v) { for (char c : x) if (!isspace(c)) r += c; r += ' '; } return r;
}
static OpT B(int t, IsolationLevelType l) { return {"begin " + num(t), [t, l] { TID[t] = TM->Begin(l); return string("ok"); }, false, t, 'B'}; }
static OpT TQ(int t, const string& q, bool w) { return {"T" + num(t) + ": " + q, [t, q] { string res; int r = 0; try { r = TM->Query(TID[t], q, res); } catch (const std::exception& e) { return string("threw ") + e.what(); } return r == -20 || r == -99 ? string("aborted") : r == -100 ? jrows(res) : "code " + num(r); }, w, t, ' '}; }
static OpT C(int t) { return {"commit " + num(t), [t] { int r = TM->Commit(TID[t]); return r == 1 ? string("aborted") : "code " + num(r); }, true, t, 'C'}; }
static OpT A(int t) { return {"roll back " + num(t), [t] { int r = TM->Rollback(TID[t]); return r == 1 ? string("aborted") : "code " + num(r); }, true, t, 'C'}; }
static OpT K() { return {"checkpoint", [] { TM->Checkpoint(); return string("ok"); }, true, -1, 'K'}; }

// the whole state, and whether the indexes agree with each other
static string finDB() {
    if (TM) TM->Checkpoint();
    Res r = ask(DB, "SELECT ?s ?p ?o WHERE { ?s ?p ?o . }"); if (r.threw || r.code != -100) return "final scan: " + resStr(r);
    Graph g; std::set<string> S, P, O; for (auto& x : r.rows) { g.insert({x[0], x[1], x[2]}); S.insert(x[0]); P.insert(x[1]); O.insert(x[2]); }
    // the three index directions
    string e; auto look = [&](const T3& p, const string& x, const string& y) { if (e.empty()) e = checkQuery(DB, g, {p}, {x, y}); };
    for (auto& x : S) look({x, "?p", "?o"}, "?p", "?o"); for (auto& x : P) look({"?s", x, "?o"}, "?s", "?o"); for (auto& x : O) look({"?s", "?p", x}, "?s", "?p");
    if (!e.empty()) return "the indexes disagree: " + e;
    if ((long)DB->getTripleNum() != (long)g.size()) return "triple number " + num(DB->getTripleNum()) + " for " + ntg(g);
    Res u = ask(DB, "INSERT DATA { <z:last> <z:p> <z:o> . }", true); if (u.threw || u.code != 1) return "a later update: " + resStr(u);
    return ntg(g);
}

// ---- one execution in a forked copy of the process
struct Out { sched::Trace tr; char res[200000]; };
static Out* OUT = 0;
static string packS(const vector<string>& v) { string s; for (auto& x : v) { s += num(x.size()) + ":" + x; } return s; }
static vector<string> unpackS(const char* p) { vector<string> v; while (*p) { char* e; long n = strtol(p, &e, 10); v.push_back(string(e + 1, n)); p = e + 1 + n; } return v; }
static string child(Worker& W, std::function<void()> f, int secs = 20) {
    OUT->res[0] = 0; OUT->tr.status = 0; OUT->tr.n = 0;
    W.beat(); pid_t pid = fork();
    if (!pid) { struct itimerval it = {{0, 0}, {secs, 0}}; setitimer(ITIMER_REAL, &it, 0); f(); _exit(0); }
    int st = 0; waitpid(pid, &st, 0); W.sh->execs++; W.beat();
    if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGALRM ? "does not end within " + num(secs) + " s" : string("crashes: ") + strsignal(WTERMSIG(st));
    if (WEXITSTATUS(st)) return "the process exits with status " + num(WEXITSTATUS(st));
    return "";
}
struct Run { string bad; vector<vector<string>> res; vector<vector<std::pair<long, long>>> at; string fin; };
static string store(const vector<string>& v) { string s = packS(v); if (s.size() + 1 >= sizeof OUT->res) s = packS({"too long"}); memcpy(OUT->res, s.c_str(), s.size() + 1); return s; }
static Run schedule(Worker& W, const Scen& s, const sched::Prefix& p) {
    Run r;
    r.bad = child(W, [&] {
        if (s.start) { sched::recording = s.freeMarks; s.start(); sched::recording = false; }
        sched::poison = true;
        vector<vector<string>> res(s.th.size()); vector<vector<std::pair<long, long>>> at(s.th.size());
        vector<std::function<void()>> body;
        for (size_t i = 0; i < s.th.size(); i++) body.push_back([&, i] { for (auto& o : s.th[i]) { sched::mark(); long b = sched::tick(); string x; try { x = o.f(); } catch (const char* e) { x = string("threw ") + e; } catch (const std::exception& e) { x = string("threw ") + e.what(); } catch (...) { x = "threw"; } res[i].push_back(x); at[i].push_back({b, sched::tick()}); } });
        sched::freeMarks = s.freeMarks;
        sched::run(body, p, s.bound, s.fine, s.countAll, &OUT->tr);
        vector<string> o;
        if (OUT->tr.status != 1) { o.push_back("B" + string(OUT->tr.status == 2 ? "deadlock" : OUT->tr.status == 3 ? "no end after 3000000 scheduling points" : "the execution does not repeat")); for (size_t i = 0; i < res.size(); i++) o.push_back("  thread " + num(i) + " ended " + num(res[i].size()) + " operations"); store(o); _exit(0); }
        for (auto& h : sched::held()) { o.push_back("B" + h); store(o); _exit(0); }
        o.push_back("G");
        for (size_t i = 0; i < res.size(); i++) for (size_t j = 0; j < res[i].size(); j++) { o.push_back(res[i][j]); o.push_back(num(at[i][j].first)); o.push_back(num(at[i][j].second)); }
        store({"Bthe check of the state after the threads ended crashes or does not end"});
        o.push_back(s.fin()); store(o);
    });
    auto v = unpackS(OUT->res);
    if (r.bad.empty() && (v.empty() || v[0][0] == 'B')) { r.bad = v.empty() ? "no result" : v[0].substr(1); for (size_t i = 1; i < v.size(); i++) r.bad += "\n" + v[i]; }
    else if (!r.bad.empty() && !v.empty() && v[0][0] == 'B') r.bad += " (" + v[0].substr(1) + ")";
    if (!r.bad.empty()) return r;
    size_t k = 1; r.res.resize(s.th.size()); r.at.resize(s.th.size());
    for (size_t i = 0; i < s.th.size(); i++) for (size_t j = 0; j < s.th[i].size(); j++) { r.res[i].push_back(v[k]); r.at[i].push_back({atol(v[k + 1].c_str()), atol(v[k + 2].c_str())}); k += 3; }
    r.fin = v[k];
    return r;
}
// ---- the operations one after the other, in the order given; results are kept
typedef vector<std::pair<int, int>> Ord;
static std::map<string, vector<string>> SER;
static const vector<string>& serial(Worker& W, const Scen& s, const Ord& o) {
    string key = s.name; for (auto& x : o) key += "," + num(x.first) + "." + num(x.second);
    auto it = SER.find(key); if (it != SER.end()) return it->second;
    string bad = child(W, [&] { if (s.start) s.start(); vector<string> v; for (auto& x : o) { string t; try { t = s.th[x.first][x.second].f(); } catch (const char* e) { t = string("threw ") + e; } catch (const std::exception& e) { t = string("threw ") + e.what(); } catch (...) { t = "threw"; } v.push_back(t); } for (int x : s.open) { bool end = false; for (auto& y : o) { auto& z = s.th[y.first][y.second]; if (z.txn == x && z.kind == 'C') end = true; } if (!end) TM->Rollback(TID[x]); } v.push_back(s.fin()); store(v); });
    auto v = unpackS(OUT->res); if (!bad.empty()) v = {"serial execution " + bad};
    return SER[key] = v;
}
// a violation of the property by this run, or "" when some order of the operations explains it
static string judge(Worker& W, const Scen& s, const Run& r) {
    struct It { int t, i; }; vector<It> ops; vector<std::set<int>> drop(1);
    std::set<int> deadTxn;
    auto over = [&](int t, int i, int u, int j) { return r.at[t][i].first < r.at[u][j].second && r.at[u][j].first < r.at[t][i].second; };
    // the span of a transaction
    auto span = [&](int x, long& b, long& e) { b = 1L << 60; e = 0; bool begun = false;   // one that had begun before the threads did spans everything until it ends
        for (size_t t = 0; t < s.th.size(); t++) for (size_t i = 0; i < s.th[t].size(); i++) if (s.th[t][i].txn == x) { b = std::min(b, r.at[t][i].first); e = std::max(e, r.at[t][i].second); if (s.th[t][i].kind == 'B') begun = true; } if (!begun) b = 0; };
    for (size_t t = 0; t < s.th.size(); t++) for (size_t i = 0; i < s.th[t].size(); i++) if (s.th[t][i].txn >= 0 && r.res[t][i] == "aborted") deadTxn.insert(s.th[t][i].txn);
    for (int x : deadTxn) {   // refused: only because of another transaction that overlaps it
        long b, e; span(x, b, e); bool why = false;
        for (size_t t = 0; t < s.th.size(); t++) for (size_t i = 0; i < s.th[t].size(); i++) if (s.th[t][i].txn >= 0 && s.th[t][i].txn != x) { long b2, e2; span(s.th[t][i].txn, b2, e2); if (b < e2 && b2 < e) why = true; }
        if (!why) return "transaction " + num(x) + " is refused although no other transaction overlaps it";
    }
    for (size_t t = 0; t < s.th.size(); t++) for (size_t i = 0; i < s.th[t].size(); i++) {
        const OpT& o = s.th[t][i];
        if (o.txn >= 0 && deadTxn.count(o.txn)) continue;
        if (o.txn < 0 && r.res[t][i] == "code -101") {
            bool why = false; for (size_t u = 0; u < s.th.size(); u++) if (u != t) for (size_t j = 0; j < s.th[u].size(); j++) if ((o.write || s.th[u][j].write) && over(t, i, u, j)) why = true;
            if (why) continue;   // otherwise the operation must fail in the same way when it runs alone
        }
        ops.push_back({(int)t, (int)i});
    }
    vector<bool> used(ops.size()); Ord ord; string found; bool ok = false; long tried = 0;
    std::function<void()> rec = [&]() {
        if (ok) return;
        if (ord.size() == ops.size()) {
            tried++; auto& v = serial(W, s, ord); if (v.size() != ord.size() + 1) { found = v.empty() ? "serial execution gives nothing" : v[0]; return; }
            for (size_t k = 0; k < ord.size(); k++) if (v[k] != r.res[ord[k].first][ord[k].second]) return;
            if (v.back() == r.fin) ok = true;
            return;
        }
        for (size_t a = 0; a < ops.size(); a++) if (!used[a]) {
            bool first = true; for (size_t b = 0; b < ops.size(); b++) if (!used[b] && b != a && r.at[ops[b].t][ops[b].i].second < r.at[ops[a].t][ops[a].i].first) first = false;
            if (!first) continue;
            const OpT& o = s.th[ops[a].t][ops[a].i];
            if (o.kind == 'K') { std::set<int> open; for (auto& x : ord) { auto& y = s.th[x.first][x.second]; if (y.kind == 'B') open.insert(y.txn); if (y.kind == 'C') open.erase(y.txn); } if (!open.empty()) continue; }   // would wait
            used[a] = true; ord.push_back({ops[a].t, ops[a].i}); rec(); ord.pop_back(); used[a] = false;
        }
    };
    rec();
    if (ok) return "";
    string m = "no order of the operations one after the other gives these results (" + num(tried) + " orders tried)";
    for (size_t t = 0; t < s.th.size(); t++) for (size_t i = 0; i < s.th[t].size(); i++) m += "\n    thread " + num(t) + " [" + s.th[t][i].name + "] -> " + r.res[t][i];
    return m + "\n    final state: " + r.fin + (found.empty() ? "" : "\n    " + found);
}

// ---- all schedules within the bound, split by their first preemption
static vector<Scen> SC; static const int SHARDS = 24; static long maxRuns = 0;
static void warmParse(const vector<string>& qs) { for (auto& q : qs) { QueryTree t; QueryParser x; x.setQueryTree(&t); try { x.SPARQLParse(q); } catch (...) {} } }
static string curGraph; static Worker* curW = 0;
static void prepare(Worker& W, const Scen& s) {
    if (!OUT) OUT = (Out*)mmap(0, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    static string have = "-";
    if (s.graph != have) {
        if (DB) { delete DB; DB = 0; }
        if (!s.graph.empty()) { rmTree(W.dir + "/" + dbDir("data")); if (!buildDB("data", s.graph)) abort(); DB = openDB("data"); }
        have = s.graph;
    }
    warmParse(s.warm); for (auto& t : s.th) for (auto& o : t) { size_t p = o.name[0] == 'T' ? o.name.find(": ") : string::npos; if (o.name.find('{') != string::npos) warmParse({p == string::npos ? o.name : o.name.substr(p + 2)}); }
    warmParse({"SELECT ?s ?p ?o WHERE { ?s ?p ?o . }", "SELECT ?s ?o WHERE { ?s <p> ?o . }", "SELECT ?s WHERE { ?s <p> <o> . }", "ASK { <s> <p> <o> . }"});
}
static void explore(Worker& W, const Scen& s, int shard, const string& mode) {
    string txt = s.text();
    string sig0 = mode + ":" + s.name;
    W.at(sig0 + "\n" + txt);
    prepare(W, s);
    std::map<string, int> said; long n = 0;
    auto show = [&](const sched::Prefix& p) { string t; for (auto& x : p) t += " " + num(x.first) + "->" + num(x.second); return t.empty() ? string(" none") : t; };
    auto look = [&](const sched::Prefix& p, vector<sched::Decision>& d) {
        Run r = schedule(W, s, p); n++;
        d.assign(OUT->tr.d, OUT->tr.d + OUT->tr.n); W.sh->transitions += OUT->tr.points;
        string e = r.bad.empty() ? judge(W, s, r) : r.bad;
        string oc = s.name + r.fin; for (auto& x : r.res) for (auto& y : x) oc += "|" + y; W.outcome(oc);
        if (!e.empty()) { string key = e.substr(0, e.find('\n')); if (key.find("(") != string::npos) key = key.substr(0, key.find("(")); if (!said[key]++) W.fail(sig0 + ": " + key, txt + "\n  schedule (decision -> choice):" + show(p) + " of " + num(d.size()) + " decisions\n  " + e); return; }
    };
    // depth first; a child deviates at a decision after the last one of its parent
    std::function<void(const sched::Prefix&, int, const vector<sched::Decision>&, bool)> down = [&](const sched::Prefix& p, int used, const vector<sched::Decision>& d, bool root) {
        int from = p.empty() ? 0 : p.back().first + 1;
        for (int k = from; k < (int)d.size(); k++) for (int c = 1; c < d[k].options; c++) {
            bool pays = d[k].curEnabled || s.countAll;
            if (pays && used + 1 > s.bound) continue;
            if (root && pays && (k + c) % SHARDS != shard) continue;   // the shards part at the first preemption
            if (maxRuns && n >= maxRuns) return;
            sched::Prefix q = p; q.push_back({k, c}); vector<sched::Decision> e; look(q, e);
            if (OUT->tr.status == 4) continue;
            down(q, used + pays, e, root && !pays);
        }
    };
    vector<sched::Decision> d; sched::Prefix none; look(none, d);
    if (!shard) W.sample(s.name + ": " + num(d.size()) + " decisions in the first schedule, " + num(s.th.size()) + " threads");
    if (getenv("SCHED_STAT")) fprintf(stderr, "%s shard %d: %zu decisions %ld points\n", s.name.c_str(), shard, d.size(), (long)OUT->tr.points);
    down(none, 0, d, true);
    W.sh->states += n;
    if (getenv("SCHED_STAT")) fprintf(stderr, "%s shard %d: %ld runs\n", s.name.c_str(), shard, n);
}

// ---- the index files alone, with caches that hold two values
static ISArray* IS = 0; static IVArray* IV = 0; static SITree* ST = 0;
static string val(int k, int v) { string s = "v" + num(k) + "." + num(v) + "."; while (s.size() < 40) s += (char)('a' + (k * 7 + v + s.size()) % 26); return s; }
static char* dup(const string& v) { char* p = new char[v.size() + 1]; memcpy(p, v.data(), v.size()); return p; }
template <class A, class L> static OpT aGet(A*& a, unsigned k) { return {"get " + num(k), [&a, k] { char* p = 0; L n = 0; if (!a->search(k, p, n)) return string("absent"); string s(p, n); delete[] p; return s; }, false, -1, ' '}; }
template <class A, class L> static OpT aPut(A*& a, unsigned k, int v) { return {"insert " + num(k), [&a, k, v] { string s = val(k, v); return string(a->insert(k, dup(s), (L)s.size()) ? "ok" : "refused"); }, true, -1, ' '}; }
template <class A, class L> static OpT aMod(A*& a, unsigned k, int v) { return {"modify " + num(k), [&a, k, v] { string s = val(k, v); return string(a->modify(k, dup(s), (L)s.size()) ? "ok" : "refused"); }, true, -1, ' '}; }
template <class A, class L> static OpT aDel(A*& a, unsigned k) { return {"remove " + num(k), [&a, k] { return string(a->remove(k) ? "ok" : "refused"); }, true, -1, ' '}; }
template <class A, class L> static void aOpen(A*& a) { a = new A(".", "arr", "build", 100, 4); for (int k = 0; k < 4; k++) { string s = val(k, 0); a->insert(k, dup(s), (L)s.size()); } a->save(); }
template <class A, class L> static string aAll(A*& a) { string r; for (unsigned k : {0, 1, 2, 3, 4, 2047, 2048, 5000}) r += aGet<A, L>(a, k).f() + " "; return r; }
static string tkey(int k) { string s = "key" + num(1000 + k); return s; }
static OpT tGet(int k) { return {"get " + tkey(k), [k] { unsigned x = 0; string s = tkey(k); return ST->Search(s.data(), s.size(), &x) ? num(x) : string("absent"); }, false, -1, ' '}; }
static OpT tPut(int k, int v) { return {"insert " + tkey(k), [k, v] { string s = tkey(k); return string(ST->Insert(dup(s), s.size(), v) ? "ok" : "refused"); }, true, -1, ' '}; }
static OpT tDel(int k) { return {"remove " + tkey(k), [k] { string s = tkey(k); return string(ST->Remove(s.data(), s.size()) ? "ok" : "refused"); }, true, -1, ' '}; }
static vector<Scen> stores(bool thorough) {
    vector<Scen> v; 
    auto add = [&](const string& n, vector<vector<OpT>> th, std::function<void()> start, std::function<string()> fin) { Scen s; s.name = n; s.th = th; s.start = start; s.fin = fin; s.bound = thorough ? 2 : 1; s.fine = true; s.tm = false; v.push_back(s); };
    auto sOpen = [] { aOpen<ISArray, unsigned>(IS); }; auto sAll = [] { return aAll<ISArray, unsigned>(IS); };
    auto g = [](unsigned k) { return aGet<ISArray, unsigned>(IS, k); }; auto p = [](unsigned k) { return aPut<ISArray, unsigned>(IS, k, 1); }; auto m = [](unsigned k) { return aMod<ISArray, unsigned>(IS, k, 2); }; auto d = [](unsigned k) { return aDel<ISArray, unsigned>(IS, k); };
    add("strings-get-get", {{g(0), g(1)}, {g(2), g(3)}}, sOpen, sAll);
    add("strings-get-insert", {{g(0), g(4)}, {p(4)}}, sOpen, sAll);
    add("strings-get-grow", {{g(3), g(2048)}, {p(2048)}}, sOpen, sAll);
    add("strings-insert-insert", {{p(4)}, {p(2048)}}, sOpen, sAll);
    add("strings-get-modify", {{g(3), g(1)}, {m(3)}}, sOpen, sAll);
    add("strings-get-remove", {{g(3), g(1)}, {d(3)}}, sOpen, sAll);
    auto vOpen = [] { aOpen<IVArray, unsigned long>(IV); }; auto vAll = [] { return aAll<IVArray, unsigned long>(IV); };
    auto vg = [](unsigned k) { return aGet<IVArray, unsigned long>(IV, k); };
    add("values-get-get", {{vg(0), vg(1)}, {vg(2), vg(3)}}, vOpen, vAll);
    add("values-get-get-get", {{vg(0)}, {vg(1)}, {vg(2), vg(3)}}, vOpen, vAll);
    static shared_ptr<Transaction> X; 
    add("values-get-expand", {{vg(0), vg(1)}, {{"expand", [] { X = std::make_shared<Transaction>("data", 1, 5, IsolationLevelType::SERIALIZABLE); return string(IV->TryExclusiveLatch(2048, X, false) == 1 ? "ok" : "refused"); }, true, -1, ' '}}}, vOpen, vAll);
    v.back().fine = false; v.back().bound = 3;   // growing copies thousands of entries
    auto tOpen = [] { ST = new SITree(".", "tree", "build", 1 << 20); for (int k = 0; k < 12; k++) { string s = tkey(2 * k); ST->Insert(dup(s), s.size(), k); } };
    auto tAll = [] { string r; for (int k = 0; k < 26; k++) r += tGet(k).f() + " "; return r; };
    add("tree-get-insert", {{tGet(4), tGet(5)}, {tPut(5, 70)}}, tOpen, tAll);
    add("tree-insert-insert", {{tPut(5, 71)}, {tPut(5, 72)}}, tOpen, tAll);
    add("tree-insert-remove", {{tPut(7, 71)}, {tDel(8)}}, tOpen, tAll);
    add("tree-get-remove", {{tGet(8), tGet(10)}, {tDel(8)}}, tOpen, tAll);
    return v;
}

static const char* G1 = "<a> <p> <b> .\n<a> <p> <c> .\n<b> <p> <c> .\n<b> <q> \"x\" .\n<c> <q> \"y\" .\n";
static vector<Scen> scenarios(bool fine, bool thorough) {
    vector<Scen> v; int pb = fine ? 1 : thorough ? 3 : 2;
    auto add = [&](const string& n, vector<vector<OpT>> th, bool tm = false, const char* g = G1) {
        // the quick tier leaves out the longest scenarios at block level
        if (fine && !thorough && (th.size() > 2 || n.compare(0, 7, "failing") == 0 || n == "add-remove-file" || n == "open" || (n.find("-si") != string::npos && n != "txn-read-write-si" && n != "query-txn-si"))) return;
        Scen s; s.name = n; s.graph = g; s.th = th; s.fin = finDB; s.tm = tm; s.bound = (th.size() > 2 || tm) && !thorough ? std::min(pb, 1) : pb; s.fine = fine; if (tm) s.start = [] { TM = new Txn_manager(DB, "data"); }; v.push_back(s); };
    string all = "SELECT ?s ?p ?o WHERE { ?s ?p ?o . }", join = "SELECT ?x ?y ?v WHERE { ?x <p> ?y . ?y <q> ?v . }", lit = "SELECT ?v WHERE { <b> <q> ?v . }";
    string ins = "INSERT DATA { <a> <q> \"x\" . }", insN = "INSERT DATA { <n> <p> <m> . <n> <r> \"new\" . }", del = "DELETE DATA { <b> <q> \"x\" . }", delW = "DELETE WHERE { ?s <q> ?o . }", mod = "DELETE { ?x <q> ?v } INSERT { ?x <r> ?v } WHERE { ?x <q> ?v . }";
    add("query-query", {{Q(join)}, {Q(join)}});
    add("query-query2", {{Q(join)}, {Q(all)}});
    add("query-insert", {{Q(join)}, {U(insN)}});
    add("query-insert2", {{Q(all), Q(lit)}, {U(ins)}});
    add("query-delete", {{Q(join)}, {U(delW)}});
    add("query-modify", {{Q(join)}, {U(mod)}});
    add("insert-insert", {{U(ins)}, {U(insN)}});
    add("insert-delete", {{U(insN)}, {U(delW)}});
    add("insert-same", {{U(insN)}, {U(insN)}});
    add("three", {{Q(join)}, {Q(lit)}, {U(insN)}});
    add("three-queries", {{Q(join)}, {Q(join)}, {Q(all)}});
    auto SI = IsolationLevelType::SNAPSHOT, SR = IsolationLevelType::SERIALIZABLE, RC = IsolationLevelType::READ_COMMITTED;
    for (auto l : {RC, SI, SR}) {
        if (fine && l == RC && !thorough) continue;
        string n = l == RC ? "rc" : l == SI ? "si" : "sr";
        add("txn-read-write-" + n, {{B(0, l), TQ(0, all, false), TQ(0, all, false), C(0)}, {B(1, l), TQ(1, l == RC ? ins : insN, true), C(1)}}, true);   // READ COMMITTED: a query may see a part of a commit that runs at the same time
        add("txn-write-write-" + n, {{B(0, l), TQ(0, ins, true), C(0)}, {B(1, l), TQ(1, ins, true), C(1)}}, true);
        add("txn-write-delete-" + n, {{B(0, l), TQ(0, insN, true), C(0)}, {B(1, l), TQ(1, del, true), C(1)}}, true);
        add("txn-write-rollback-" + n, {{B(0, l), TQ(0, insN, true), A(0)}, {B(1, l), TQ(1, "INSERT DATA { <n> <p> <k> . }", true), C(1)}}, true);
 add("txn-new-terms-" + n, {{B(0, l), TQ(0, insN, true), C(0)}, {B(1, l), TQ(1, "INSERT DATA { <n> <r> <m> . <b> <p> \"new\" . }", true), C(1)}}, true);
        add("query-txn-" + n, {{Q(all), Q(join)}, {B(1, l), TQ(1, insN, true), C(1)}}, true);
        add("txn-checkpoint-" + n, {{B(0, l), TQ(0, insN, true), C(0)}, {K()}}, true);
    }
    // transactions that are open when the threads start; changing the thread between two operations is no deviation
    if (!fine) for (auto l : {RC, SI, SR}) {
        string n = l == RC ? "rc" : l == SI ? "si" : "sr";
        auto staged = [&](const string& name, vector<std::pair<int, string>> done, vector<vector<OpT>> th) {
            add(name + "-" + n, th, true); v.back().freeMarks = true;
            v.back().start = [done, l] { TM = new Txn_manager(DB, "data"); std::set<int> b; for (auto& d : done) { if (b.insert(d.first).second) TID[d.first] = TM->Begin(l); string r; if (!d.second.empty()) TM->Query(TID[d.first], d.second, r); } };
            for (auto& d : done) { v.back().open.insert(d.first); if (!d.second.empty()) v.back().warm.push_back(d.second); }
        };
        string one = l == RC ? ins : insN;
        staged("begin-read-commit", {{1, one}}, {{B(0, l), TQ(0, all, false), TQ(0, all, false), C(0)}, {C(1)}});
        staged("begin-write-commit", {{1, ins}}, {{B(0, l), TQ(0, ins, true), TQ(0, lit, false), C(0)}, {C(1)}});
        staged("begin-write-rollback", {{1, insN}}, {{B(0, l), TQ(0, "INSERT DATA { <n> <p> <m> . }", true), TQ(0, all, false), C(0)}, {A(1)}});
        staged("read-write-commit", {{0, lit}, {1, one}}, {{TQ(0, all, false), TQ(0, del, true), C(0)}, {C(1)}});
        staged("commit-commit", {{0, insN}, {1, "INSERT DATA { <k> <r> <a> . }"}}, {{C(0)}, {C(1)}});
    }
    // queries and updates that fail must not keep a lock
    for (string q : {"SELECT ?x WHERE { ?x <p> ?y . FILTER(regex(?y, \"[\")) }", "SELECT (nosuch(?x) AS ?v) WHERE { ?x <p> ?y . }", "SELECT (SUM(?y) AS ?v) (?y + 1 AS ?w) WHERE { ?x <p> ?y . } GROUP BY ?x", "SELECT ?x WHERE { ?x <p> ?y . FILTER EXISTS { ?x <q> ?z . } }", "INSERT DATA { <a> <p> ?x . }", "INSERT DATA { <a> <p> \"x\"^^<http://www.w3.org/2001/XMLSchema#integer> . }", "DELETE { <a> <p> ?z } WHERE { ?x <nosuch> ?z . }", "SELECT (shortestPath(<a>, <c>, false, {<p>}) AS ?v) WHERE { ?x <p> ?y . }", "SELECT (ppr(<nosuch>, 3, {<p>}, 2) AS ?v) WHERE { ?x <p> ?y . }", "SELECT ?x WHERE { ?x <p> ", "SELECT (PFN({<a>}, false, 2, {<p>}, \"nosuch\") AS ?v) WHERE { ?x <p> ?y . }", "CONSTRUCT { ?x <p> ?y } WHERE { ?x <p> ?y . }"})
        add("failing " + q, {{q[0] == 'S' || q[0] == 'C' ? Q(q) : U(q), Q(lit)}, {U(ins)}});
    // operations that use threads of their own; every deviation counts
    auto file = [](bool ins, const string& text) { OpT o = {ins ? "add file" : "remove file", [ins, text] { spit("f.nt", text); return num(ins ? DB->batch_insert("f.nt") : DB->batch_remove("f.nt")); }, true, -1, ' '}; return o; };
    string f1 = "<a> <p> <n> .\n<n> <p> <a> .\n<n> <r> \"new\" .\n<b> <q> \"x\" .\n<b> <q> \"z\" .\n", f2 = "<a> <p> <b> .\n<a> <p> <c> .\n<b> <q> \"x\" .\n<b> <q> \"y\" .\n";
    add("add-file", {{file(true, f1)}}); v.back().countAll = true;
    add("remove-file", {{file(false, f2)}}); v.back().countAll = true;
    add("add-remove-file", {{file(true, f1), file(false, f2), file(true, f2)}}); if (fine == false || thorough) { v.back().countAll = true; if (!thorough) v.back().bound = 1; }
    add("open", {{{"open", [] { DB = new Database("data"); return string(DB->load() ? "ok" : "fails"); }, false, -1, ' '}}}); if (fine == false || thorough) { v.back().countAll = true; if (!thorough) v.back().bound = 1; }
    // a committed transaction is merged into the indexes while others read
    add("query-checkpoint", {{Q(all), Q(join)}, {K()}}, true);
    v.back().start = [insN, delW] { TM = new Txn_manager(DB, "data"); auto id = TM->Begin(IsolationLevelType::SERIALIZABLE); string r; TM->Query(id, insN, r); TM->Query(id, "DELETE DATA { <b> <q> \"x\" . <a> <p> <b> . }", r); TM->Commit(id); };
    v.back().warm = {insN, "DELETE DATA { <b> <q> \"x\" . <a> <p> <b> . }"};
    return v;
}

int main(int argc, char** argv) {
    libInit(64);
    Explorer X("C13", argc, argv);
    bool th = X.argThorough();
    if (getenv("SCHED_MAX")) maxRuns = atol(getenv("SCHED_MAX"));
    X.hang = 30;
    X.rule = "Stateless exploration of the real code: two or three threads (and the threads that the code makes itself) run under a scheduler that replaces the pthread operations; every schedule with at most the given number of deviations from running each thread until it blocks is executed in a forked copy of the process that has the database open. Points where a schedule can switch: every lock operation (locks), every basic block of the storage, transaction and update code (stores, blocks). Freed memory is poisoned. Each execution must end without crash, deadlock or held lock, and its results and final state must be those of a serial execution of the same operations on the real code that respects their real-time order. Distinct outcomes are distinct pairs of results and final state.";
    X.boundsText = th ? "locks: 3 deviations; stores: 2 to 4; blocks: 1 over all scenarios" : "locks: 2 deviations (1 for transactions and three threads; changing between operations free where transactions are open at the start); stores and blocks: 1";
    auto go = [&](const string& mode, vector<Scen> sc) {
        if (getenv("SCHED_ONLY")) { vector<Scen> k; for (auto& s : sc) if (s.name.find(getenv("SCHED_ONLY")) != string::npos) k.push_back(s); sc = k; }
        X.run(mode, (long)sc.size() * SHARDS, [&](Worker&) { OUT = 0; DB = 0; }, [&](Worker& W, long i) { explore(W, sc[i / SHARDS], i % SHARDS, mode); });
    };
    go("stores", stores(th));
    go("locks", scenarios(false, th));
    go("blocks", scenarios(true, th));
    return X.finish();
}
