// C01: every history of updates leaves exactly the triples that set semantics prescribes.
#include "algebra.h"
#include "forms.h"
using namespace gs;

static vector<string> INIT;              // initial graphs (N-Triples)
static vector<Graph> INITG;
static void addInit(vector<T3> t) { INIT.push_back(nt(t)); INITG.push_back(Graph(t.begin(), t.end())); }

static void runHist(Worker& W, int init, const vector<Op>& ops, const vector<int>& h, const vector<string>& S, const vector<string>& P, const vector<string>& O) {
    string desc = "initial graph: " + ntg(INITG[init]); for (auto& c : desc) if (c == '\n') c = ' ';
    string sig = "init" + num(init);
    string full = desc;
    for (int x : h) { full += "\n  " + ops[x].text(); }
    sig += ":"; for (int x : h) sig += " " + ops[x].text() + ";";
    W.at(sig);
    string name = "db";
    rmTree(W.dir + "/" + dbDir(name)); copyTree(W.dir + "/" + dbDir("init" + num(init)), W.dir + "/" + dbDir(name));
    Database* db = openDB(name);
    if (!db) { W.fail(sig, full + "\n  the database does not load"); return; }
    Graph g = INITG[init];
    W.sh->execs++;
    for (size_t k = 0; k < h.size(); k++) {
        const Op& op = ops[h[k]];
        Graph before = g;
        int want = op.apply(g);
        bool checkHere = true; for (size_t j = k + 1; j < h.size(); j++) if (h[j]) checkHere = false;
        string e;
        if (op.k == Op::Reopen) { delete db; db = openDB(name); if (!db) { W.fail(sig, full + "\n  the database does not reopen"); return; } }
        else if (op.k == Op::Save) db->save();
        else if (op.k == Op::FileIns || op.k == Op::FileDel) {
            spit("u.nt", nt(op.k == Op::FileIns ? op.ins : op.del));
            unsigned r = op.k == Op::FileIns ? db->batch_insert("u.nt") : db->batch_remove("u.nt");
            if ((int)r != want) e = "step " + num(k) + ": " + op.text() + " reports " + num(r) + " updated triples, expected " + num(want);
        } else {
            Res r = ask(db, op.text(), true);
            if (r.threw) e = "step " + num(k) + ": threw " + r.err;
            else if (r.code < 0) e = "step " + num(k) + ": returned " + num(r.code);
            else if (want >= 0 && r.code != want) e = "step " + num(k) + ": " + op.text() + " reports " + num(r.code) + " updated triples, expected " + num(want);
        }
        W.sh->transitions++;
        if (e.empty() && checkHere) {
            long n = 0;
            if (k + 1 == h.size()) e = checkAccess(db, g, S, P, O, before, n); else e = checkAll3(db, g);
            if (!e.empty()) e = "after step " + num(k) + " (" + op.text() + "):\n  " + e;
            if (e.empty() && db->getTripleNum() != g.size()) e = "after step " + num(k) + ": the triple count is " + num(db->getTripleNum()) + ", expected " + num(g.size());
        }
        if (!e.empty()) {
            // identify the failure by the shortest failing prefix
            string s2 = "init" + num(init) + ":"; for (size_t j = 0; j <= k; j++) s2 += " " + ops[h[j]].text() + ";";
            W.fail(s2, full + "\n" + e + "\n  expected graph: " + ntg(g)); break; }
    }
    W.outcome(ntg(g));
    delete db;
}

int main(int argc, char** argv) {
    Explorer X("C01", argc, argv);
    bool th = X.argThorough();
    const string a = "<a>", b = "<b>", p = "<p>", q = "<q>", l = "\"x\"", n5 = "\"5\"^^<http://www.w3.org/2001/XMLSchema#integer>", en = "\"x\"@en";
    addInit({{a, p, b}});
    addInit({{a, p, b}, {a, p, a}, {a, q, l}, {b, p, b}, {b, q, l}, {b, q, n5}});
    addInit({});
    vector<string> S = {a, b, "<c>", p}, P = {p, q, "<r>"}, O = {a, b, "<c>", l, en, n5, p};
    auto init = [&](Worker& W) {
        libInit(3);
        for (size_t i = 0; i < INIT.size(); i++) {
            string nm = "init" + num(i);
            if (INIT[i].empty()) { Database d(nm); d.BuildEmptyDB(); spit(dbDir(nm) + "/success.txt", ""); }
            else buildDB(nm, INIT[i]);
        }
    };
    auto space = [&](const string& mode, const vector<Op>& ops, int depth, int nInit) {
        long per = 1; for (int i = 0; i < depth - 1; i++) per *= ops.size();
        long total = nInit * per;   // one task: all but the last choice
        X.run(mode, total, init, [&, depth](Worker& W, long t) {
            long x = t; int in = x % nInit; x /= nInit;
            vector<int> h; for (int i = 0; i < depth - 1; i++) { h.insert(h.begin(), x % ops.size()); x /= ops.size(); }
            h.push_back(0);
            W.sh->states++;
            for (size_t i = 0; i < ops.size(); i++) { h.back() = i; runHist(W, in, ops, h, S, P, O); W.beat(); }
            if (t % 997 == 0) { string s = "init" + num(in); for (int c : h) s += "; " + ops[c].text(); W.sample(s); }
        });
    };
    {   // single-triple data updates that collide on every shortcut
        vector<Op> ops = { mkIns({{a, p, b}}), mkDel({{a, p, b}}), mkIns({{a, p, a}}), mkDel({{a, p, a}}), mkIns({{a, q, l}}), mkDel({{a, q, l}}),
                           mkIns({{b, p, a}}), mkDel({{b, p, a}}), mkReopen() };
        if (th) { ops.push_back(mkIns({{p, "<r>", p}})); ops.push_back(mkDel({{p, "<r>", p}})); }
        space("single", ops, th ? 5 : 4, 2);
    }
    {   // multi-triple, pattern, and file updates
        vector<Op> ops = { mkIns({{a, p, b}, {a, p, b}, {b, q, en}}), mkDel({{a, p, b}, {b, p, "<c>"}, {a, q, l}, {a, p, b}}),
            mkDelWhere({{"?x", p, "?y"}}), mkDelWhere({{a, "?p", "?y"}, {"?x", "?p", "?y"}}),
            mkInsC({{"?y", p, "?x"}}, {{"?x", p, "?y"}}), mkInsC({{"?x", "<r>", n5}}, {{"?x", q, "?y"}}),
            mkDelC({{"?x", p, "?y"}}, {{"?x", p, "?y"}, {"?x", q, "?z"}}), mkMod({{"?x", p, "?y"}}, {{"?x", q, "?y"}}, {{"?x", p, "?y"}}),
            mkMod({{"?x", q, l}}, {{"?x", q, en}, {"?x", p, "<c>"}}, {{"?x", q, l}}),
            mkFI({{a, p, b}, {b, p, a}, {b, p, a}, {"<c>", q, l}, {"<c>", "<r>", a}}), mkFD({{a, p, b}, {"<zz>", p, b}, {"<c>", q, l}, {a, p, b}, {b, p, b}}),
            mkIns({{p, p, p}}), mkDel({{a, p, a}}), mkReopen(), mkSave() };
        space("bulk", ops, th ? 4 : 3, 3);
    }
    {   // the ways to write an update
        static const Forms F;
        auto pats = [](const vector<string>& S, const vector<string>& P, const vector<string>& O) { vector<T3> v; for (auto& s : S) for (auto& x : P) for (auto& o : O) v.push_back({s, x, o}); return v; };
        vector<T3> C = pats({F.A, F.B}, {F.P, F.Q, F.TY}, {F.B, F.five, F.half, F.yes, F.D, F.l, F.en}), V = pats({"?x", F.A}, {F.P, F.Q, F.TY}, {"?y", "?x", F.five, F.D});
        vector<vector<T3>> cs, vs;
        for (auto& t : C) { cs.push_back({t}); for (auto& u : C) if (!(t == u) && t.s == u.s) cs.push_back({t, u}); }
        for (auto& t : V) { vs.push_back({t}); for (auto& u : V) if (!(t == u) && t.s == u.s) vs.push_back({t, u}); }
        static vector<std::pair<Op, string>> us;
        auto add = [&](const Op& o, const string& t) { us.push_back({o, F.head + t}); };
        const vector<T3> w1 = {{"?x", F.P, "?y"}}, w2 = {{"?x", F.Q, "?y"}, {"?x", F.TY, "?z"}};
        for (auto& v : cs) { int i = 0; for (auto& b : F.bodies(v)) { i++; add(mkIns(v), (i % 2 ? "INSERT DATA { " : "insert data{") + b + " }"); if (th || i % 2) add(mkDel(v), (i % 4 ? "DELETE DATA { " : "delete data {\n") + b + " }"); } }
        auto loop = [](const vector<T3>& v) { for (auto& t : v) if (t.s == t.o) return true; return false; };
        for (auto& v : vs) { int i = 0; for (auto& b : F.bodies(v)) {
            i++; const auto& w = i % 2 ? w1 : w2;
            if (!loop(v)) add(mkDelWhere(v), (i % 2 ? "DELETE WHERE { " : "delete where{") + b + " }");
            add(mkInsC(v, w), "INSERT { " + b + " } WHERE { " + patStr(w) + "}");
            add(mkDelC(v, w), "DELETE { " + b + " } WHERE { " + patStr(w) + "}");
            add(mkMod(v, {{"?y", F.P, "?x"}}, w), "DELETE { " + b + " } INSERT { ?y e:p ?x } WHERE { " + patStr(w) + "}");
            add(mkMod({{"?x", F.P, "?y"}}, v, w), "DELETE { ?x e:p ?y } INSERT { " + b + " } WHERE { " + patStr(w) + "}");
        } }
        const int chunk = 50;
        static Database* fd = 0; static Graph now;
        X.run("forms", (us.size() + chunk - 1) / chunk, [&](Worker& W) { libInit(100); buildDB("f", ntg(F.g)); fd = openDB("f"); now = F.g; }, [&](Worker& W, long t) {
            W.sh->states++;
            for (size_t i = t * chunk; i < std::min<size_t>(us.size(), (t + 1) * chunk); i++) {
                string sig = "forms " + us[i].second; W.at(sig); W.sh->execs++; W.sh->transitions++;
                Graph want = F.g; int n = us[i].first.apply(want); for (auto x = want.begin(); x != want.end();) if (x->s[0] == '"') x = want.erase(x); else ++x;
                bool lit = false; { Graph h = F.g; us[i].first.apply(h); lit = h != want; }
                if (lit) continue;   // a literal as subject: not RDF
                Res r = ask(fd, us[i].second, true); string e;
                if (r.threw) e = "threw " + r.err; else if (r.code < 0 || (n >= 0 && r.code != n)) e = "returned " + num(r.code) + ", expected " + num(n); else e = checkAll3(fd, want);
                if (!e.empty()) W.fail(sig, "graph:\n" + ntg(F.g) + us[i].second + "\n  " + e);
                W.outcome(ntg(want));
                // back to the start
                vector<T3> more, less; for (auto& x : want) if (!F.g.count(x)) more.push_back(x); for (auto& x : F.g) if (!want.count(x)) less.push_back(x);
                if (!e.empty()) { delete fd; rmTree(W.dir + "/" + dbDir("f")); buildDB("f", ntg(F.g)); fd = openDB("f"); }
                else { if (!more.empty()) ask(fd, "DELETE DATA { " + patStr(more) + "}", true); if (!less.empty()) ask(fd, "INSERT DATA { " + patStr(less) + "}", true); W.sh->transitions += 2; }
                if (i % 4973 == 0) W.sample(sig);
            }
            W.beat();
        });
    }
    {   // templates over the solutions of every kind of group
        static const string r = "<r>"; const Expr Xv("?x"), Y("?y"), Z("?z"), L(l), B(b), N(n5);
        static const vector<Graph> GS = {Graph{{a, p, b}, {a, p, a}, {a, q, l}, {b, p, b}, {b, q, l}, {b, q, n5}, {"<c>", p, b}, {"<c>", q, "<d>"}, {"<d>", r, l}, {p, r, a}}, Graph{{a, p, b}, {b, p, "<c>"}, {"<c>", p, a}, {"<c>", q, n5}, {a, q, en}, {a, q, p}, {q, p, n5}}};
        vector<vector<Elem>> base = {{T({{"?x", p, "?y"}})}, {T({{"?x", p, "?y"}, {"?y", q, "?z"}})}, {T({{"?x", "?t", "?y"}})}, {Un({{T({{"?x", p, "?y"}})}, {T({{"?y", q, "?x"}})}})}};
        vector<Elem> add = {Opt({T({{"?y", q, "?z"}})}), Opt({T({{"?y", q, "?z"}}), Fil(Expr("=", {Z, L}))}), Opt({T({{"?x", r, "?z"}})}), Un({{T({{"?y", q, "?z"}})}, {T({{"?y", p, "?z"}})}}), Min({T({{"?y", q, l}})}), Fil(Expr("!=", {Y, B})), Fil(Expr("=", {Y, L})),
            Bnd(Expr("+", {Y, N}), "?z"), Bnd(Expr("STR", {Y}), "?z"), Bnd(Expr("IF", {Expr("=", {Xv, Y}), Xv, L}), "?z"), Br({T({{"?y", "?u", "?z"}})}),
            Un({{T({{"?y", q, "?z"}})}, {T({{"?y", p, "?w"}}), Bnd(Expr("STR", {Expr("?w")}), "?z")}}), Un({{T({{"?y", p, "?w"}}), Bnd(Expr("STR", {Expr("?w")}), "?z")}, {T({{"?y", q, "?z"}, {"?z", "?k", "?v"}})}}), Opt({T({{"?y", q, "?w"}}), Bnd(Expr("STR", {Expr("?w")}), "?z")})};
        { Query k; Proj pj; pj.var = "?x"; k.proj.push_back(pj); Proj c; c.var = "?z"; c.agg = "COUNT"; c.arg = "?w"; k.proj.push_back(c); k.w.e = {T({{"?x", q, "?w"}})}; k.groupBy = {"?x"}; add.push_back(SubQ(k)); }
        vector<vector<Elem>> gs; for (auto& x : base) { gs.push_back(x); for (auto& y : add) { if (y.k == Elem::BindE && &x == &base[1]) continue; auto z = x; z.push_back(y); gs.push_back(z); for (auto& w : add) if (th && w.k == Elem::Filter) { auto v = z; v.push_back(w); gs.push_back(v); } } }
        const vector<vector<T3>> tm = {{{"?x", r, "?z"}}, {{"?x", p, "?y"}}, {{"?z", r, "?x"}}, {{"?x", "?z", "?y"}}, {{"?y", r, "?z"}, {"?x", r, "?x"}}, {{a, r, "?z"}}, {{"?x", "?t", "?z"}, {"?x", "?t", "?y"}}, {{"?y", q, "?z"}, {"?x", p, "?y"}, {"?z", p, n5}}, {{a, p, b}, {"<new>", r, "?x"}}, {}};
        struct Up { Group w; vector<T3> d, i; };
        static vector<Up> us; for (auto& g : gs) for (auto& d : tm) for (auto& i : tm) if (!(d.empty() && i.empty())) us.push_back({Group{g}, d, i});
        static vector<Database*> ds; const int chunk = 20; long per = (us.size() + chunk - 1) / chunk;
        X.run("where", per * GS.size(), [&](Worker& W) { libInit(100); for (size_t i = 0; i < GS.size(); i++) { buildDB("w" + num(i), ntg(GS[i])); ds.push_back(openDB("w" + num(i))); } }, [&, per](Worker& W, long t) {
            W.sh->states++; int gi = t / per; const Graph& g = GS[gi]; string name = "w" + num(gi); auto reset = [&]() { delete ds[gi]; rmTree(W.dir + "/" + dbDir(name)); buildDB(name, ntg(g)); ds[gi] = openDB(name); };
            for (size_t k = (t % per) * chunk; k < std::min<size_t>(us.size(), (t % per + 1) * chunk); k++) {
                const Up& u = us[k]; string text = (u.d.empty() ? "" : "DELETE { " + patStr(u.d) + "} ") + (u.i.empty() ? "" : "INSERT { " + patStr(u.i) + "} ") + "WHERE { " + u.w.text() + "}";
                string sig = "where g" + num(gi) + " " + text; W.at(sig); W.sh->execs++; W.sh->transitions++;
                Graph want = g, d, i; int n = 0;
                for (auto& x : evalGroup(g, u.w)) for (int k = 0; k < 2; k++) for (auto& y : k ? u.i : u.d) { T3 z = inst(y, x); if (isVar(z.s) || isVar(z.p) || isVar(z.o) || z.s[0] == '"' || z.p[0] == '"') continue; (k ? i : d).insert(z); }
                for (auto& x : d) n += want.erase(x);
                for (auto& x : i) { int c = want.insert(x).second; if (u.d.empty()) n += c; }
                Res r = ask(ds[gi], text, true); string e;
                if (r.threw) e = "threw " + r.err; else if (r.code < 0 || ((u.d.empty() || u.i.empty()) && r.code != n)) e = "returned " + num(r.code) + ", expected " + num(n); else e = checkAll3(ds[gi], want);
                if (e.empty() && ds[gi]->getTripleNum() != want.size()) e = "the triple count is " + num(ds[gi]->getTripleNum()) + ", expected " + num(want.size());
                if (e.empty() && k % 8 == 0) { delete ds[gi]; ds[gi] = openDB(name); e = ds[gi] ? checkAll3(ds[gi], want) : "does not reopen"; if (!e.empty()) e = "after reopening: " + e; }
                if (!e.empty()) W.fail(sig, "graph:\n" + ntg(g) + text + "\n  " + e + "\n  expected graph: " + ntg(want));
                W.outcome(ntg(want)); if (k % 997 == 0) W.sample(sig);
                vector<T3> more, less; for (auto& x : want) if (!g.count(x)) more.push_back(x); for (auto& x : g) if (!want.count(x)) less.push_back(x);
                if (!e.empty()) reset();
                else { if (!more.empty()) ask(ds[gi], "DELETE DATA { " + patStr(more) + "}", true); if (!less.empty()) ask(ds[gi], "INSERT DATA { " + patStr(less) + "}", true); W.sh->transitions += 2; }
                W.beat();
            }
        });
    }
    X.rule = "Every sequence of the listed update operations up to the stated depth from each initial database, run on the real database and on a set of triples; after each operation the reported count and the full answer, at the end of each history all 8 lookup shapes and ASK over every term combination, are compared. Distinct outcomes are distinct final graphs.";
    X.boundsText = th ? "single: depth 5, bulk: depth 4" : "single: depth 4, bulk: depth 3";
    return X.finish();
}
