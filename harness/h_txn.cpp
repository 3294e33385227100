// C07: transactions. Every interleaving of small transactions on the real transaction manager, against a model of
// the isolation level each of them asked for.
#include "model.h"
#include "Database/Txn_manager.h"
using namespace gs;

enum { SER = 1, SNAP = 2, RC = 3 };
static const char* ISO[] = {"", "SERIALIZABLE", "SNAPSHOT", "READ COMMITTED"};
struct Step { char k; vector<T3> pat; Op op; };   // B R U C A(rollback) L(left open)
static Step sB() { return {'B', {}, {}}; }
static Step sC() { return {'C', {}, {}}; }
static Step sA() { return {'A', {}, {}}; }
static Step R(vector<T3> p) { return {'R', p, {}}; }
static Step U(Op o) { return {'U', {}, o}; }
typedef vector<Step> Prog;
static string stepStr(const Step& s) {
    switch (s.k) { case 'B': return "BEGIN"; case 'C': return "COMMIT"; case 'A': return "ROLLBACK"; case 'R': return "READ { " + patStr(s.pat) + "}"; case 'K': return "CHECKPOINT"; case 'O': return "checkpoint, close, reopen"; default: return s.op.text(); }
}
static vector<string> patVars(const vector<T3>& p) { vector<string> v; for (auto& t : p) for (const string* x : {&t.s, &t.p, &t.o}) if (isVar(*x) && std::find(v.begin(), v.end(), *x) == v.end()) v.push_back(*x); return v; }
static Rows evalRows(const Graph& g, const vector<T3>& pat, const vector<string>& vars) {
    Rows want; for (auto& b : evalBGP(g, pat)) { vector<string> row; for (auto& v : vars) row.push_back(b.at(v)); want.push_back(row); }
    return sorted(want);
}
struct Log { vector<T3> pat; vector<string> vars; Rows got; bool write; Op op; };
struct Tx {
    int iso; unsigned long long tid = 0; int st = 0;   // 0 not begun, 1 running, 2 committed, 3 rolled back, 4 aborted
    Graph snap; std::map<T3, bool> own; vector<Log> log; Graph wrote; bool did = false; long b = 0, e = 1L << 40;
    Graph overlay(const Graph& base) const { Graph g = base; for (auto& x : own) { if (x.second) g.insert(x.first); else g.erase(x.first); } return g; }
};
static bool touch(const Graph& a, const Graph& b) {
    std::set<string> n; for (auto& t : a) { n.insert("n" + t.s); n.insert("p" + t.p); n.insert("n" + t.o); }
    for (auto& t : b) if (n.count("n" + t.s) || n.count("p" + t.p) || n.count("n" + t.o)) return true;
    return false;
}
// the triples an update adds and deletes, evaluated in state g
static void effects(const Op& o, const Graph& g, Graph& del, Graph& ins) {
    if (o.k == Op::Ins) { ins.insert(o.ins.begin(), o.ins.end()); return; }
    if (o.k == Op::Del) { del.insert(o.del.begin(), o.del.end()); return; }
    for (auto& x : evalBGP(g, o.where)) { for (auto& t : (o.k == Op::DelWhere ? o.where : o.del)) del.insert(inst(t, x)); for (auto& t : o.ins) ins.insert(inst(t, x)); }
}
static void applyOwn(Tx& t, const Op& o, const Graph& view) {
    Graph d, i; effects(o, view, d, i);
    // an update that changes nothing of what the transaction sees writes nothing (it may still lock)
    Graph now = view;
    for (auto& x : d) { if (now.erase(x)) t.own[x] = false; t.wrote.insert(x); }
    for (auto& x : i) { if (now.insert(x).second) t.own[x] = true; t.wrote.insert(x); }
}

struct Sched { int init; vector<int> iso; vector<Prog> progs; vector<int> order; bool reopenEnd = false, deep = true; };   // order: txn index, -1 checkpoint, -2 checkpoint+reopen
static vector<Graph> INITG; static std::map<int, Database*> FRESH;
static vector<string> S, P, O;


// the rows of a SPARQL JSON answer
static bool jsonRows(const string& t, const vector<string>& vars, Rows& rows) {
    rapidjson::Document d; d.Parse(t.c_str());
    if (d.HasParseError() || !d.IsObject() || !d.HasMember("results") || !d["results"].HasMember("bindings")) return false;
    for (auto& b : d["results"]["bindings"].GetArray()) {
        vector<string> row;
        for (auto& v : vars) {
            if (!b.HasMember(v.c_str() + 1)) { row.push_back(""); continue; }
            auto& x = b[v.c_str() + 1]; string k = x["type"].GetString(), s = x["value"].GetString();
            row.push_back(k == "uri" ? "<" + s + ">" : "\"" + s + "\"");
        }
        rows.push_back(row);
    }
    return true;
}
static string txRows(Txn_manager& tm, unsigned long long tid, const vector<T3>& pat, const vector<string>& vars, Rows& rows, int& code) {
    string q = "SELECT"; for (auto& v : vars) q += " " + v; q += " WHERE { " + patStr(pat) + "}";
    string out;
    try { code = tm.Query(tid, q, out); } catch (const std::exception& e) { return string("threw ") + e.what(); } catch (...) { return "threw"; }
    rows.clear();
    if (code == -100) { if (!jsonRows(out, vars, rows)) return "not a SPARQL JSON answer: " + out; rows = sorted(rows); }
    return "";
}

// the parser's tables are built as it goes: parse here what the forked schedule will parse
static void warm(const Sched& s) {
    static std::set<string> done;
    auto p = [](const string& q) { if (done.insert(q).second) { QueryTree t; QueryParser x; x.setQueryTree(&t); try { x.SPARQLParse(q); } catch (...) {} } };
    auto rd = [&](const vector<T3>& pat) { string q = "SELECT"; for (auto& v : patVars(pat)) q += " " + v; p(q + " WHERE { " + patStr(pat) + "}"); };
    if (done.empty()) { rd({{"?s", "?p", "?o"}}); p("ASK { <a> <p> <b> . }"); }
    for (auto& v : S) rd({{v, "?p", "?o"}}); for (auto& v : P) rd({{"?s", v, "?o"}}); for (auto& v : O) rd({{"?s", "?p", v}});
    for (auto& g : s.progs) for (auto& st : g) { if (st.k == 'R') rd(st.pat); if (st.k == 'U') p(st.op.text()); }
}

static void runSched(Worker& W, const Sched& s) {
    string sig = "init" + num(s.init), full = "initial graph: " + ntg(INITG[s.init]);
    for (auto& c : full) if (c == '\n') c = ' ';
    {
        vector<size_t> pc(s.progs.size(), 0);
        for (int x : s.order) {
            string t = x == -1 ? "CHECKPOINT" : x == -2 ? "CHECKPOINT, close and reopen" : "T" + num(x + 1) + (pc[x] == 0 ? string(" ") + ISO[s.iso[x]] : "") + " " + stepStr(s.progs[x][pc[x]]);
            if (x >= 0) pc[x]++;
            sig += "; " + t; full += "\n  " + t;
        }
    }
    W.at(sig + "\n" + full);
    string name = "db";
    bool files = s.reopenEnd; for (auto& p : s.progs) if (p.back().k != 'C' && p.back().k != 'A') files = true; for (int x : s.order) if (x == -2) files = true;
    // a schedule that touches no file runs in a forked copy of a process that has just opened the database
    Database* db;
    if (files) {
        rmTree(W.dir + "/" + dbDir(name)); copyTree(W.dir + "/" + dbDir("init" + num(s.init)), W.dir + "/" + dbDir(name));
        db = openDB(name);
        if (!db) { W.fail(sig, full + "\n  the database does not load"); return; }
    } else {
        if (!FRESH[s.init]) FRESH[s.init] = openDB("init" + num(s.init));
        db = FRESH[s.init]; name = "init" + num(s.init);
        if (!db) { W.fail(sig, full + "\n  the database does not load"); return; }
        warm(s);
        pid_t pid = fork();
        if (pid) {
            int st = 0; waitpid(pid, &st, 0);
            if (!WIFEXITED(st) || WEXITSTATUS(st)) W.fail("crash:" + sig, full + "\n  " + (WIFSIGNALED(st) ? string("crashes: ") + strsignal(WTERMSIG(st)) : "the process exits with status " + num(WEXITSTATUS(st))));
            return;
        }
    }
    std::unique_ptr<Txn_manager> tm(new Txn_manager(db, name));
    W.sh->execs++;
    Graph com = INITG[s.init];                 // committed state
    vector<Tx> tx(s.progs.size()); vector<size_t> pc(s.progs.size(), 0);
    for (size_t i = 0; i < tx.size(); i++) tx[i].iso = s.iso[i];
    vector<int> commitOrder; long now = 0; string e, where; Graph epochStart = com; vector<int> epochTx;
    auto serialCheck = [&]() -> string {       // committed SERIALIZABLE transactions since the last checkpoint, in some serial order
        vector<int> c; for (int i : commitOrder) c.push_back(i);
        for (int i : c) if (tx[i].iso != SER) return "";
        if (c.empty()) return com == epochStart ? "" : "";
        std::sort(c.begin(), c.end());
        do {
            Graph g = epochStart; bool ok = true;
            for (int i : c) { Tx t; for (auto& l : tx[i].log) { if (l.write) { Graph d, in; effects(l.op, g, d, in); for (auto& x : d) g.erase(x); for (auto& x : in) g.insert(x); } else if (evalRows(g, l.pat, l.vars) != l.got) { ok = false; break; } } if (!ok) break; }
            if (ok && g == com) return "";
        } while (std::next_permutation(c.begin(), c.end()));
        string m = "no serial order of the committed transactions explains their reads and the final state " + ntg(com);
        for (int i : c) for (auto& l : tx[i].log) if (!l.write) m += "\n  T" + num(i + 1) + " read { " + patStr(l.pat) + "}: " + rowsStr(l.got);
        return m;
    };
    auto committedView = [&](const char* when) -> string {
        auto tid = tm->Begin(IsolationLevelType::SNAPSHOT); Rows r; int code = 0;
        string x = txRows(*tm, tid, {{"?s", "?p", "?o"}}, {"?s", "?p", "?o"}, r, code);
        Rows want = evalRows(com, {{"?s", "?p", "?o"}}, {"?s", "?p", "?o"});
        if (x.empty() && code != -100) x = "returned " + num(code);
        if (x.empty()) x = diffRows(string("read of a new transaction ") + when, r, want);
        vector<vector<T3>> probes; for (auto& v : S) probes.push_back({{v, "?p", "?o"}}); for (auto& v : P) probes.push_back({{"?s", v, "?o"}}); for (auto& v : O) probes.push_back({{"?s", "?p", v}});
        probes.push_back({{S[0], P[0], "?o"}}); probes.push_back({{"?s", P[0], O[0]}}); probes.push_back({{S[0], "?p", O[0]}});
        if (!s.deep) probes = {{{S[0], "?p", "?o"}}, {{"?s", "?p", O[0]}}};
        for (auto& p : probes) if (x.empty()) {
            auto vars = patVars(p); x = txRows(*tm, tid, p, vars, r, code);
            if (x.empty() && code != -100) x = "returned " + num(code);
            if (x.empty()) x = diffRows(string("read { ") + patStr(p) + "} of a new transaction " + when, r, evalRows(com, p, vars));
        }
        tm->Rollback(tid);
        return x;
    };
    auto checkpoint = [&]() -> string {
        string x = serialCheck(); if (!x.empty()) return x;
        tm->Checkpoint();
        long n = 0;
        if (s.deep) x = checkAccess(db, com, S, P, O, INITG[s.init], n);
        else { x = checkAll3(db, com); if (x.empty()) x = checkQuery(db, com, {{S[0], "?p", "?o"}}, {"?p", "?o"}); if (x.empty()) x = checkQuery(db, com, {{"?s", "?p", O[0]}}, {"?s", "?p"}); }
        if (x.empty() && db->getTripleNum() != com.size()) x = "the triple count is " + num(db->getTripleNum()) + ", expected " + num(com.size());
        if (!x.empty()) return "after the checkpoint: " + x;
        epochStart = com; commitOrder.clear();
        return "";
    };
    auto reopen = [&]() -> string {
        tm.reset(); db->save(); delete db; db = openDB(name);
        if (!db) return "the database does not reopen";
        tm.reset(new Txn_manager(db, name));
        long n = 0; string x = checkAccess(db, com, S, P, O, INITG[s.init], n);
        return x.empty() ? x : "after the reopening: " + x;
    };
    for (size_t k = 0; k < s.order.size() && e.empty(); k++) {
        int x = s.order[k]; now++; W.sh->transitions++;
        if (x < 0) {
            e = checkpoint(); if (e.empty() && x == -2) e = reopen();
            where = x == -1 ? "CHECKPOINT" : "CHECKPOINT, close and reopen"; if (!e.empty()) break; continue;
        }
        Tx& t = tx[x]; const Step& st = s.progs[x][pc[x]++];
        where = "T" + num(x + 1) + " " + stepStr(st);
        if (st.k == 'B') { t.tid = tm->Begin((IsolationLevelType)t.iso); t.st = 1; t.snap = com; t.b = now; continue; }
        if (t.st == 4) {   // already aborted: every further call must say so
            if (st.k == 'C' && tm->Commit(t.tid) != 1) e = "COMMIT of an aborted transaction is not refused";
            if (st.k == 'A' && tm->Rollback(t.tid) != 1) e = "ROLLBACK of an aborted transaction is not refused";
            if (st.k == 'R' || st.k == 'U') { string o; int c = tm->Query(t.tid, st.k == 'U' ? st.op.text() : "SELECT ?s WHERE { ?s ?p ?o . }", o); if (c != -99) e = "a query of an aborted transaction returns " + num(c); }
            continue;
        }
        if (st.k == 'C') {
            int c = tm->Commit(t.tid);
            if (c) { e = "COMMIT returned " + num(c); break; }
            com = t.overlay(com); t.st = 2; t.e = now; commitOrder.push_back(x); continue;
        }
        if (st.k == 'A') { int c = tm->Rollback(t.tid); if (c) { e = "ROLLBACK returned " + num(c); break; } t.st = 3; t.e = now; continue; }
        Graph view = t.overlay(t.iso == RC ? com : t.snap);
        auto mayAbort = [&](const Graph* w) {
            for (size_t j = 0; j < tx.size(); j++) {
                if ((int)j == x || tx[j].st == 0 || tx[j].e < t.b) continue;
                if (t.iso != SER && tx[j].st >= 3) continue;
                if (t.iso == SER ? tx[j].did : w && touch(*w, tx[j].wrote)) return true;
            }
            return false;
        };
        if (st.k == 'R') {
            auto vars = patVars(st.pat); Rows r; int code = 0;
            e = txRows(*tm, t.tid, st.pat, vars, r, code); t.did = true;
            if (!e.empty()) break;
            if (code == -20) { t.st = 4; t.e = now; if (!mayAbort(nullptr)) e = "the transaction is aborted without a conflict"; continue; }
            if (code != -100) { e = "returned " + num(code); break; }
            t.log.push_back({st.pat, vars, r, false, {}});
            if (t.iso != SER) e = diffRows("{ " + patStr(st.pat) + "}", r, evalRows(view, st.pat, vars));
        } else {
            string out; int c;
            try { c = tm->Query(t.tid, st.op.text(), out); } catch (const std::exception& ex) { e = string("threw ") + ex.what(); break; } catch (...) { e = "threw"; break; }
            Tx t2 = t; applyOwn(t2, st.op, view);
            t.did = true;
            if (c == -20) { t.st = 4; t.e = now; if (!mayAbort(&t2.wrote)) e = "the transaction is aborted without a conflict"; continue; }
            if (c < 0) { e = "returned " + num(c); break; }
            if (t.iso == SNAP) for (size_t j = 0; j < tx.size(); j++) if ((int)j != x && (tx[j].st == 1 || (tx[j].st == 2 && tx[j].e > t.b))) for (auto& dd : t2.own) if (!t.own.count(dd.first) && tx[j].own.count(dd.first)) { const T3& d = dd.first; e = "both T" + num(x + 1) + " and the concurrent T" + num(j + 1) + " may write " + d.str(); }
            t.log.push_back({{}, {}, {}, true, st.op});
            t.own = t2.own; t.wrote = t2.wrote;
        }
    }
    if (e.empty()) {
        where = "at the end";
        bool open = false; for (auto& t : tx) open |= t.st == 1;
        if (!open || tx.size() < 2) e = committedView("at the end");
        if (e.empty() && !open) e = checkpoint();
        if (e.empty() && !open && s.deep) e = committedView("after the checkpoint");
        if (e.empty() && (open || s.reopenEnd)) e = reopen();   // open transactions: the manager aborts them
    }
    string oc; for (auto& t : tx) { oc += num(t.st) + "/"; for (auto& l : t.log) if (!l.write) oc += rowsStr(l.got); } W.outcome(oc + ntg(com));
    if (!e.empty()) W.fail(sig, full + "\nfailed: " + where + "\n  " + e + "\n  committed graph: " + ntg(com));
    if (!files) { W.flush(); _exit(0); }
    tm.reset(); delete db;
}

// independent steps of different transactions commute: neither changes what the other can see
static bool indep(const Step& a, const Step& b) {
    auto ro = [](const Step& s) { return s.k == 'R'; };
    if (ro(a) && ro(b)) return true;
    if ((a.k == 'B' && ro(b)) || (b.k == 'B' && ro(a))) return true;
    return false;
}
static void interleave(const vector<Prog>& ps, bool reduce, vector<vector<int>>& out) {
    vector<size_t> pc(ps.size(), 0); vector<int> o; size_t tot = 0; for (auto& p : ps) tot += p.size();
    std::function<void()> rec = [&]() {
        if (o.size() == tot) { out.push_back(o); return; }
        for (size_t i = 0; i < ps.size(); i++) if (pc[i] < ps[i].size()) {
            if (reduce && o.size()) { int j = o.back(); if (j > (int)i && indep(ps[j][pc[j] - 1], ps[i][pc[i]])) continue; }
            o.push_back(i); pc[i]++; rec(); pc[i]--; o.pop_back();
        }
    };
    rec();
}

int main(int argc, char** argv) {
    Explorer X("C07", argc, argv);
    bool th = X.argThorough();
    const string a = "<a>", b = "<b>", c = "<c>", p = "<p>", q = "<q>", n = "<n>", l = "\"x\"";
    auto addI = [&](vector<T3> t) { INITG.push_back(Graph(t.begin(), t.end())); };
    addI({{a, p, b}, {c, q, l}});
    addI({{a, p, b}});
    S = {a, c, n}; P = {p, q, "<r>"}; O = {b, l, n, "\"y\""};
    auto init = [&](Worker& W) { libInit(); for (size_t i = 0; i < INITG.size(); i++) buildDB("init" + num(i), ntg(INITG[i])); };
    vector<Step> reads = { R({{"?s", "?p", "?o"}}), R({{a, "?p", "?o"}}), R({{"?s", "?p", b}}), R({{"?s", q, "?o"}}), R({{a, p, "?o"}}), R({{"?s", p, b}}), R({{a, "?p", b}}), R({{c, "?p", "?o"}}) };
    vector<Step> writes = { U(mkIns({{a, p, n}})), U(mkDel({{a, p, b}})), U(mkIns({{a, p, b}})), U(mkIns({{c, q, "\"y\""}})), U(mkDel({{c, q, l}})), U(mkIns({{n, "<r>", n}})), U(mkDel({{n, "<r>", n}})),
                            U(mkMod({{a, p, "?o"}}, {{a, p, c}}, {{a, p, "?o"}})), U(mkDelWhere({{"?s", "?p", b}})) };
    {   // one transaction at a time: all programs, each end; then a second one
        vector<Step> ops = writes; for (auto& r : {reads[0], reads[1], reads[3]}) ops.push_back(r);
        vector<Prog> progs; for (size_t i = 0; i < ops.size(); i++) { progs.push_back({ops[i]}); for (size_t j = 0; j < ops.size(); j++) { progs.push_back({ops[i], ops[j]}); if (ops[i].k == 'U' && ops[j].k == 'U') for (auto& r : {reads[0]}) progs.push_back({ops[i], ops[j], r}); } }
        vector<Prog> snd = {{reads[0], writes[0]}, {writes[1], reads[0]}, {writes[2]}, {writes[6], reads[1]}, {reads[1], writes[7], reads[0]}, {writes[4], writes[3]}};
        X.run("alone", (long)progs.size() * 3, init, [&](Worker& W, long t) {
            int iso = 1 + t % 3; const Prog& pr = progs[t / 3];
            W.sh->states++;
            for (int in = 0; in < 2; in++) for (int end = 0; end < 3; end++) {
                Sched s; s.init = in; s.iso = {iso}; Prog P1 = {sB()}; P1.insert(P1.end(), pr.begin(), pr.end()); if (end < 2) P1.push_back(end ? sA() : sC()); s.progs = {P1}; s.order.assign(P1.size(), 0); s.reopenEnd = true;
                runSched(W, s); W.beat();
                if (end < 2) for (size_t z = 0; z < snd.size(); z++) for (int mid = 0; mid < 3; mid++) {
                    if (!th && (z + mid + t) % 7) continue;   // quick: a seventh, rotating
                    Sched u = s; Prog P2 = {sB()}; P2.insert(P2.end(), snd[z].begin(), snd[z].end()); P2.push_back(sC()); u.progs.push_back(P2); u.iso.push_back(iso); if (mid) u.order.push_back(-mid); for (size_t i = 0; i < P2.size(); i++) u.order.push_back(1);
                    u.reopenEnd = false; runSched(W, u); W.beat();
                }
            }
            if (t % 97 == 0) W.sample(string(ISO[iso]) + ": " + (pr.size() ? stepStr(pr[0]) : ""));
        });
    }
    auto pairs = [&](const string& mode, const vector<Prog>& A, const vector<Prog>& B, bool reduce, bool mix) {
        long nI = mix ? 9 : 3;
        X.run(mode, (long)A.size() * B.size() * nI, init, [&, nI, reduce, mix](Worker& W, long t) {
            int i = t % nI; long r = t / nI; const Prog& x = A[r / B.size()]; const Prog& y = B[r % B.size()];
            vector<int> iso = mix ? vector<int>{1 + i / 3, 1 + i % 3} : vector<int>{1 + i, 1 + i};
            // the serial-order promise covers terms known to the database only: no write of a new subject and predicate there
            if (iso[0] == SER && iso[1] == SER) for (auto* z : {&x, &y}) for (auto& st : *z) if (st.k == 'U') for (auto& v : st.op.ins) if (v.p == "<r>") return;
            vector<vector<int>> os; interleave({x, y}, reduce, os);
            W.sh->states++;
            for (auto& o : os) { Sched s; s.init = 0; s.iso = iso; s.progs = {x, y}; s.order = o; s.deep = th; runSched(W, s); W.beat(); }
            if (t % 997 == 0) { string d; for (auto& z : x) d += stepStr(z) + "; "; d += " || "; for (auto& z : y) d += stepStr(z) + "; "; W.sample(d); }
        });
    };
    auto mk = [&](const vector<Step>& rs, const vector<Step>& ws, bool len2, int ends) {
        vector<Prog> v; vector<Step> all = rs; all.insert(all.end(), ws.begin(), ws.end());
        vector<Prog> body; for (auto& x : all) { body.push_back({x}); if (len2) for (auto& y : all) if (!(x.k == 'R' && y.k == 'R' && patStr(x.pat) > patStr(y.pat))) body.push_back({x, y}); }
        for (auto& bd : body) for (int e = 0; e < ends; e++) { Prog z = {sB()}; z.insert(z.end(), bd.begin(), bd.end()); z.push_back(e ? sA() : sC()); v.push_back(z); }
        return v;
    };
    // terms all known beforehand: key latches cover everything a transaction can read
    if (!th) pairs("pair", mk({reads[0], reads[1]}, {writes[0], writes[1], writes[3]}, true, 1), mk({reads[0], reads[1]}, {writes[1], writes[4]}, true, 2), true, false);
    else pairs("pair", mk({reads[0], reads[1], reads[3], reads[7]}, {writes[0], writes[1], writes[3], writes[7]}, true, 2), mk({reads[0], reads[2], reads[7]}, {writes[1], writes[4], writes[5], writes[8]}, true, 2), true, false);
    pairs("mixed", mk(th ? reads : vector<Step>{reads[0], reads[5]}, th ? writes : vector<Step>{writes[0], writes[1], writes[7]}, false, 1), mk(th ? reads : vector<Step>{reads[2]}, th ? writes : vector<Step>{writes[1], writes[2], writes[5], writes[8]}, false, 2), false, true);
    {   // three transactions of one operation each
        vector<Prog> A = mk({reads[0], reads[1]}, {writes[0], writes[1]}, false, 1), B = mk({reads[2]}, {writes[1], writes[4]}, false, 2), C = mk({}, {writes[0], writes[1]}, false, th ? 2 : 1);
        if (!th) { A.resize(3); B = mk({reads[2]}, {writes[1]}, false, 1); }
        long n = (long)A.size() * B.size() * C.size() * 3;
        X.run("three", n, init, [&](Worker& W, long t) {
            int iso = 1 + t % 3; long r = t / 3; vector<Prog> ps = {A[r % A.size()], B[r / A.size() % B.size()], C[r / A.size() / B.size()]};
            vector<vector<int>> os; interleave(ps, true, os); W.sh->states++;
            for (auto& o : os) { Sched s; s.init = 0; s.iso = {iso, iso, iso}; s.progs = ps; s.order = o; s.deep = false; runSched(W, s); W.beat(); }
        });
    }
    X.rule = "Every interleaving of the operations of the listed transactions, run on the real transaction manager and database.";
    X.boundsText = th ? "thorough" : "quick";
    return X.finish();
}
