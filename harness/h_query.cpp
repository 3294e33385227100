// Queries over small graphs against the reference algebra.  argv[1]: the property (C02 patterns, C03 groups, C04 modifiers).
#include "algebra.h"
#include "forms.h"
using namespace gs;

static vector<Graph> G;
static vector<vector<string>> PART;
struct Job { vector<Query> q; };

static const string a = "<a>", b = "<b>", c = "<c>", p = "<p>", q = "<q>", r = "<r>", l = "\"l\"";
static string I(int i) { return tyLit(num(i), "integer"); }

static void graphs() {
    G.push_back(Graph{{a, p, b}, {a, p, a}, {b, p, a}, {a, q, b}, {b, q, l}, {a, q, l}, {c, p, b}, {c, q, a}});
    G.push_back(Graph{{a, p, b}, {b, p, c}, {c, q, a}, {c, p, l}, {b, q, l}, {p, q, b}, {a, r, p}, {c, r, l}});
    Graph big;   // lists long enough for other join orders
    for (int i = 0; i < 24; i++) {
        string s = "<n" + num(i) + ">";
        big.insert({s, p, i % 3 ? "<n" + num((i * 7 + 1) % 24) + ">" : a});
        if (i % 2) big.insert({s, q, i % 4 == 1 ? l : b});
        if (i % 5 == 0) big.insert({a, q, s});
    }
    big.insert({a, p, b}); big.insert({b, p, a}); big.insert({a, q, b}); big.insert({b, q, l});
    G.push_back(big);
}
// renames variables in order of appearance; "" when the pattern shares a variable inside one triple
static bool canon(const vector<T3>& ps) {
    const char* nm[] = {"?x", "?y", "?z", "?w"}; const char* pn[] = {"?r", "?t"};
    int k = 0, kp = 0; std::map<string, int> seen;
    for (auto& t : ps) {
        if (isVar(t.s) && t.s == t.o) return false;
        for (const string* v : {&t.s, &t.o}) if (isVar(*v) && !seen.count(*v)) { if (*v != nm[k]) return false; seen[*v] = k++; if (k == 4) k = 3; }
        if (isVar(t.p) && !seen.count(t.p)) { if (t.p != pn[kp]) return false; seen[t.p] = kp++; if (kp == 2) kp = 1; }
    }
    return true;
}
static vector<string> varsOf(const vector<T3>& ps) { vector<string> v; for (auto& t : ps) for (const string* x : {&t.s, &t.p, &t.o}) if (isVar(*x) && std::find(v.begin(), v.end(), *x) == v.end()) v.push_back(*x); return v; }
static Query bgp(const vector<T3>& ps, const vector<string>& v) { return sel(v, {T(ps)}); }
static void variants(vector<Query>& out, const vector<T3>& ps, int level) {
    vector<string> v = varsOf(ps);
    if (v.empty()) { Query k; k.ask = true; k.w.e = {T(ps)}; out.push_back(k); return; }
    Query s = bgp(ps, v); out.push_back(s);
    if (level >= 1) {
        for (auto& x : v) { if (v.size() > 1) { out.push_back(bgp(ps, {x})); } Query d = bgp(ps, {x}); d.distinct = true; out.push_back(d); }
        Query k = s; k.limit = 2; out.push_back(k); k.offset = 1; out.push_back(k);
        if (v.size() > 2) { out.push_back(bgp(ps, {v[0], v[2]})); out.push_back(bgp(ps, {v[2], v[1]})); }
        Query t; t.star = true; t.w.e = {T(ps)}; out.push_back(t);
        Query y; y.ask = true; y.w.e = {T(ps)}; out.push_back(y);
    }
    if (level >= 2) {
        Query k = s; k.limit = 1; out.push_back(k); k.limit = 0; out.push_back(k); k.limit = -1; k.offset = 3; out.push_back(k);
        Query d = s; d.distinct = true; out.push_back(d); d.limit = 2; out.push_back(d); d = bgp(ps, {v.back()}); d.distinct = true; d.limit = 1; out.push_back(d); d.offset = 1; out.push_back(d);
    }
}
static vector<T3> pats(const vector<string>& S, const vector<string>& P, const vector<string>& O) { vector<T3> v; for (auto& s : S) for (auto& x : P) for (auto& o : O) v.push_back({s, x, o}); return v; }

static vector<Database*> dbs;
static void space(Explorer& X, const string& mode, const vector<Query>& qs, int chunk, int nG = -1) {
    if (nG < 0) nG = G.size();
    long per = (qs.size() + chunk - 1) / chunk;
    X.run(mode, per * nG, [&](Worker& W) {
        libInit(100); dbs.clear();
        for (size_t i = 0; i < G.size(); i++) { buildDB("g" + num(i), ntg(G[i])); dbs.push_back(openDB("g" + num(i))); }
    }, [&, chunk, per](Worker& W, long t) {
        int gi = t / per; long c0 = (t % per) * chunk;
        for (long i = c0; i < std::min<long>(qs.size(), c0 + chunk); i++) {
            string sig = mode + " g" + num(gi) + " " + qs[i].text();
            W.at(sig);
            W.sh->execs++; W.sh->transitions++;
            Res res; string e = checkQ(dbs[gi], G[gi], qs[i], &res);
            if (!e.empty()) W.fail(sig, "graph:\n" + ntg(G[gi]) + e);
            W.outcome(rowsStr(sorted(res.rows)));
            if (i % 9973 == 0) W.sample(sig);
        }
        W.sh->states++;
    });
}

static void patternModes(Explorer& X, bool th) {
    vector<string> V = {"?x", "?y", "?z"};
    {
        vector<Query> qs; for (auto& t : pats({"?x", a, b, p, "<zz>"}, {p, q, r, "?r"}, {"?x", "?y", a, b, l, "\"zz\"", "<zz>"})) if (canon({t})) variants(qs, {t}, 2);
        space(X, "bgp1", qs, 20);
    }
    {
        vector<Query> qs; auto A = pats({"?x", "?y", "?z", a, b}, {p, q, "?r", "?t"}, {"?x", "?y", "?z", a, b, l});
        for (auto& t : A) for (auto& u : A) if (!(t == u) && canon({t, u})) variants(qs, {t, u}, th ? 2 : 1);
        space(X, "bgp2", qs, 100);
    }
    {
        vector<Query> qs; auto A = pats({"?x", "?y", "?z", a}, {p, q, "?r"}, {"?x", "?y", "?z", b, l});
        for (auto& t : A) for (auto& u : A) for (auto& w : A) if (!(t == u) && !(t == w) && !(u == w) && canon({t, u, w})) variants(qs, {t, u, w}, 0);
        space(X, "bgp3", qs, 100, th ? 3 : 2);
    }
    {
        vector<Query> qs; auto A = pats({"?x", "?y", "?z", "?w"}, {p, q}, {"?x", "?y", "?z", "?w", a});
        for (auto& t : A) for (auto& u : A) for (auto& w : A) for (auto& z : A) if (t < u && !(u == w) && !(t == w) && !(z == w) && !(z == u) && !(z == t) && canon({t, u, w, z})) variants(qs, {t, u, w, z}, 0);
        space(X, "bgp4", qs, 100, th ? 3 : 1);
    }
}

// ---- the ways to write a pattern: abbreviations, prefixes, short forms of values, white space and comments
struct Form { Query q; string text; };
static void formModes(Explorer& X, bool th) {
    static const Forms F;
    vector<T3> T1 = pats({"?x", F.A, F.B}, {F.P, F.Q, F.TY, "?r"}, {"?y", "?z", F.B, F.five, F.half, F.yes, F.D, F.l, F.en});
    vector<vector<T3>> ps; for (auto& t : T1) { ps.push_back({t}); for (auto& u : T1) if (!(t == u) && (t.s == u.s || th) && !(t.o == "?z")) ps.push_back({t, u}); }
    vector<T3> T2 = pats({"?x", F.A}, {F.P, "?r"}, {"?y", F.B, F.five});
    for (auto& t : T2) for (auto& u : T2) for (auto& w : T2) if (!(t == u) && !(u == w) && !(t == w) && (t.s == u.s || u.s == w.s)) ps.push_back({t, u, w});
    vector<Form> fs;
    for (auto& v : ps) {
        vector<string> vs = varsOf(v);
        Query k; if (vs.empty()) k.ask = true; else for (auto& x : vs) { Proj pj; pj.var = x; k.proj.push_back(pj); } k.w.e = {T(v)};
        vector<string> bodies = F.bodies(v);
        for (size_t i = 0; i < bodies.size(); i++) {
            int head = i % 4; string t = F.head;
            if (k.ask) t += head % 2 ? "ASK " : "ask where "; else { t += head % 2 ? "SELECT" : "select"; for (auto& x : vs) t += " " + x; t += head < 2 ? " WHERE " : head == 2 ? " " : "\nwhere"; }
            fs.push_back({k, t + "{ " + bodies[i] + " }"});
        }
    }
    const int chunk = 100;
    X.run("forms", (fs.size() + chunk - 1) / chunk, [&](Worker& W) { libInit(100); buildDB("f", ntg(F.g)); dbs = {openDB("f")}; }, [&](Worker& W, long t) {
        for (size_t i = t * chunk; i < std::min<size_t>(fs.size(), (t + 1) * chunk); i++) {
            string sig = "forms " + fs[i].text; W.at(sig); W.sh->execs++; W.sh->transitions++;
            Res res; string e = checkQ(dbs[0], F.g, fs[i].q, &res, false, fs[i].text);
            if (!e.empty()) W.fail(sig, "graph:\n" + ntg(F.g) + e);
            W.outcome(rowsStr(sorted(res.rows))); if (i % 4973 == 0) W.sample(sig);
        }
        W.sh->states++;
    });
}

// ---- graphs with longer lists: a reference that looks triples up by predicate and one end
struct Fast {
    std::map<string, std::map<string, vector<string>>> fwd, bwd; const Graph& g;
    explicit Fast(const Graph& g) : g(g) { for (auto& t : g) { fwd[t.p][t.s].push_back(t.o); bwd[t.p][t.o].push_back(t.s); } }
    void go(vector<T3> ps, Bind& b, const vector<string>& v, Rows& out) {
        if (ps.empty()) { vector<string> r; for (auto& x : v) r.push_back(b.at(x)); out.push_back(r); return; }
        auto val = [&](const string& x) -> const string* { if (!isVar(x)) return &x; auto it = b.find(x); return it == b.end() ? 0 : &it->second; };
        size_t best = 0; int sc = -1; for (size_t i = 0; i < ps.size(); i++) { int k = (val(ps[i].s) != 0) + (val(ps[i].o) != 0); if (k > sc) { sc = k; best = i; } }
        T3 t = ps[best]; ps.erase(ps.begin() + best); const string* s = val(t.s); const string* o = val(t.o);
        if (s) { auto it = fwd[t.p].find(*s); if (it == fwd[t.p].end()) return; for (auto& x : it->second) if (o) { if (x == *o) go(ps, b, v, out); } else { b[t.o] = x; go(ps, b, v, out); b.erase(t.o); } }
        else if (o) { auto it = bwd[t.p].find(*o); if (it == bwd[t.p].end()) return; for (auto& x : it->second) { b[t.s] = x; go(ps, b, v, out); b.erase(t.s); } }
        else for (auto& m : fwd[t.p]) for (auto& x : m.second) { if (t.s == t.o && x != m.first) continue; b[t.s] = m.first; b[t.o] = x; go(ps, b, v, out); b.erase(t.s); b.erase(t.o); }
    }
};
static void bigSpace(Explorer& X, const string& mode, const Graph& g, const vector<vector<T3>>& qs, const vector<vector<string>>& vs, int chunk) {
    static Database* db = 0; static Fast* F = 0; 
    X.run(mode, (qs.size() + chunk - 1) / chunk, [&](Worker& W) { libInit(100); buildDB("big", ntg(g)); db = openDB("big"); F = new Fast(g); }, [&](Worker& W, long t) {
        for (size_t i = t * chunk; i < std::min<size_t>(qs.size(), (t + 1) * chunk); i++) {
            string q = "SELECT"; for (auto& x : vs[i]) q += " " + x; q += " WHERE { " + patStr(qs[i]) + "}";
            string sig = mode + " " + q; W.at(sig); W.sh->execs++; W.sh->transitions++;
            Rows want; Bind b; F->go(qs[i], b, vs[i], want);
            Res r = ask(db, q); string e;
            if (r.threw) e = "threw " + r.err; else if (r.code != -100) e = "returned code " + num(r.code);
            else { std::sort(r.rows.begin(), r.rows.end()); std::sort(want.begin(), want.end()); if (r.rows != want) {
                Rows miss, more; std::set_difference(want.begin(), want.end(), r.rows.begin(), r.rows.end(), std::back_inserter(miss)); std::set_difference(r.rows.begin(), r.rows.end(), want.begin(), want.end(), std::back_inserter(more));
                e = "expected " + num(want.size()) + " rows, got " + num(r.rows.size()) + "\n  missing: " + rowsStr(miss).substr(0, 500) + "\n  too many: " + rowsStr(more).substr(0, 500); } }
            if (!e.empty()) W.fail(sig, "query: " + q + "\n  " + e);
            W.outcome(num(want.size())); if (i % 4973 == 0) W.sample(sig);
        }
        W.sh->states++;
    });
}
static string nn(const char* a, int i) { char x[32]; snprintf(x, sizeof x, "<%s%03d>", a, i); return x; }
static void longListModes(Explorer& X, bool th) {
    {   // candidate lists: every combination of short lists over five positions with long lists that lack some of them
        int N = 24; vector<int> pos = {3, 4, 9, 10, 20}; Graph g; vector<std::set<int>> S; vector<string> O;
        for (int m = 0; m < 32; m++) for (int big = 0; big < 2; big++) {
            std::set<int> s; if (big) for (int i = 0; i < N; i++) s.insert(i);
            for (int k = 0; k < 5; k++) if (m >> k & 1) { if (big) s.erase(pos[k]); else s.insert(pos[k]); }
            if (s.empty()) continue; S.push_back(s);
        }
        for (size_t k = 0; k < S.size(); k++) for (int i : S[k]) { g.insert({nn("x", i), p, nn("o", k)}); g.insert({nn("o", k), q, nn("x", i)}); if (k % 2) g.insert({nn("x", i), r, "\"l" + num(k) + "\""}); }
        for (int i = 0; i < N; i++) { g.insert({nn("x", i), "<k>", nn("x", (i * 5 + 2) % N)}); if (i % 3 == 0) g.insert({nn("x", i), "<k>", nn("x", (i + 1) % N)}); }
        vector<vector<T3>> qs; vector<vector<string>> vs; int n = S.size();
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
            qs.push_back({{"?x", p, nn("o", i)}, {"?x", p, nn("o", j)}}); vs.push_back({"?x"});
            qs.push_back({{nn("o", i), q, "?x"}, {nn("o", j), q, "?x"}}); vs.push_back({"?x"});
            qs.push_back({{"?x", p, nn("o", i)}, {nn("o", j), q, "?x"}, {"?x", "<k>", "?y"}}); vs.push_back({"?x", "?y"});
            qs.push_back({{"?x", p, nn("o", i)}, {"?x", "<k>", "?y"}, {"?y", p, nn("o", j)}}); vs.push_back({"?x", "?y"});
            if (j % 2) { qs.push_back({{"?x", p, nn("o", i)}, {"?x", r, "\"l" + num(j) + "\""}}); vs.push_back({"?x"}); }
            if (th) for (int k = 0; k < n; k++) { qs.push_back({{"?x", p, nn("o", i)}, {"?x", p, nn("o", j)}, {nn("o", k), q, "?x"}}); vs.push_back({"?x"}); }
            else if (i < j) { qs.push_back({{"?x", p, nn("o", i)}, {"?x", p, nn("o", j)}, {nn("o", (i * 7 + j) % n), q, "?x"}}); vs.push_back({"?x"}); }
        }
        bigSpace(X, "lists", g, qs, vs, 100);
    }
    {   // plans: five and six variables, candidate lists so long that the planner compares all join orders
        int N = 130; Graph g; auto x = [&](int i) { return nn("x", i % N); };
        for (int i = 0; i < N; i++) {
            if (i < 120) g.insert({x(i), "<t>", "<T>"}); if (i % 9 == 0) g.insert({x(i), "<t>", "<U>"});
            g.insert({x(i), p, x(i * 7 + 1)}); g.insert({x(i), q, x(i * 3)}); if (i % 4 == 0) g.insert({x(i), q, x(i + 1)}); if (i % 10 == 0) g.insert({x(i), r, x(i / 10)});
        }
        struct Shape { int n; vector<std::pair<int, int>> e; };
        vector<Shape> sh = {{5, {{0, 1}, {1, 2}, {2, 3}, {3, 4}}}, {5, {{0, 1}, {0, 2}, {0, 3}, {0, 4}}}, {5, {{0, 1}, {1, 2}, {1, 3}, {3, 4}}}, {5, {{0, 1}, {1, 2}, {2, 3}, {3, 4}, {4, 0}}}, {5, {{0, 1}, {1, 2}, {2, 0}, {2, 3}, {3, 4}, {4, 2}}}, {5, {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {3, 4}}}, {6, {{0, 1}, {1, 2}, {2, 3}, {3, 4}, {4, 5}}}};
        vector<vector<T3>> qs; vector<vector<string>> vs;
        const char* V[] = {"?a", "?b", "?c", "?d", "?e", "?f"};
        for (auto& s : sh) for (int d = 0; d < 1 << s.e.size(); d++) for (int pp = 0; pp < (th ? 1 << s.e.size() : 4); pp++) for (int c = 0; c <= s.n; c++) {
            if (!th && s.e.size() > 4 && (d * 5 + pp + c) % 4) continue;
            vector<T3> ps; vector<string> v; int m = th ? pp : pp == 0 ? 0 : pp == 1 ? 0x15 : pp == 2 ? 0x2a : 0x3f;
            for (size_t k = 0; k < s.e.size(); k++) { string a1 = V[s.e[k].first], a2 = V[s.e[k].second]; if (d >> k & 1) std::swap(a1, a2); ps.push_back({a1, m >> k & 1 ? (k == 2 ? r : q) : p, a2}); }
            for (int k = 0; k < s.n; k++) { v.push_back(V[k]); if (c == s.n || c == k) ps.push_back({V[k], "<t>", c == s.n && k % 2 ? "<U>" : "<T>"}); }
            qs.push_back(ps); vs.push_back(v);
        }
        bigSpace(X, "plans", g, qs, vs, 20);
    }
}

static vector<Elem> groupElems(int level) {
    vector<Elem> e;
    vector<vector<T3>> bs = {{{"?y", q, "?z"}}, {{"?x", q, "?z"}}, {{"?y", p, "?x"}}, {{"?z", q, l}}, {{"?x", p, "?w"}, {"?w", q, "?z"}}};
    for (auto& t : bs) { e.push_back(Opt({T(t)})); e.push_back(Min({T(t)})); }
    e.push_back(T({{"?y", q, "?z"}}));
    e.push_back(Un({{T({{"?y", q, "?z"}})}, {T({{"?x", q, "?z"}})}}));
    e.push_back(Un({{T({{"?y", p, "?x"}})}, {T({{"?x", q, l}})}}));
    e.push_back(Un({{T({{"?x", p, a}})}, {T({{"?x", p, "?z"}})}, {T({{"?z", p, "?y"}})}}));
    e.push_back(Br({T({{"?x", q, "?z"}})}));
    Expr X("?x"), Y("?y"), Z("?z");
    e.push_back(Fil(Expr("=", {X, a})));
    e.push_back(Fil(Expr("!=", {X, Y})));
    e.push_back(Fil(Expr("BOUND", {Z})));
    e.push_back(Fil(Expr("!", {Expr("BOUND", {Z})})));
    e.push_back(Fil(Expr("=", {Y, Z})));
    e.push_back(Opt({T({{"?y", q, "?z"}}), Fil(Expr("!=", {Z, l}))}));
    e.push_back(Bnd(Expr("STR", {Y}), "?v"));
    e.push_back(Opt({T({{"?y", q, "?z"}}), Opt({T({{"?z", p, "?w"}})})}));
    e.push_back(Opt({Un({{T({{"?y", q, "?z"}})}, {T({{"?y", p, "?z"}})}})}));
    e.push_back(Min({T({{"?y", q, "?z"}}), Opt({T({{"?z", p, "?x"}})})}));
    e.push_back(Un({{T({{"?y", q, "?z"}}), Opt({T({{"?z", p, "?w"}})})}, {T({{"?x", q, "?z"}})}}));
    e.push_back(SubQ(sel({"?y", "?z"}, {T({{"?y", q, "?z"}})})));
    { Query k = sel({"?y"}, {T({{"?y", q, "?z"}})}); k.distinct = true; e.push_back(SubQ(k)); }
    { Query k; Proj pj; pj.var = "?x"; k.proj.push_back(pj); Proj c; c.var = "?n"; c.agg = "COUNT"; c.arg = "?z"; k.proj.push_back(c); k.w.e = {T({{"?x", q, "?z"}})}; k.groupBy = {"?x"}; e.push_back(SubQ(k)); }
    e.push_back(SubQ(sel({"?y"}, {T({{"?y", q, "?z"}})})));
    { Query k; Proj c; c.var = "?n"; c.agg = "COUNT"; c.arg = "?z"; k.proj.push_back(c); k.w.e = {T({{"?x", q, "?z"}})}; e.push_back(SubQ(k)); }
    if (level >= 1) {
        e.push_back(Fil(Expr("||", {Expr("=", {Z, l}), Expr("=", {X, b})})));
        e.push_back(Fil(Expr("&&", {Expr("BOUND", {Z}), Expr("!=", {Z, X})})));
        e.push_back(Br({T({{"?y", q, "?z"}}), Fil(Expr("!=", {Z, l}))}));
        e.push_back(Opt({T({{"?y", q, "?z"}}), Bnd(Expr("STR", {Z}), "?t")}));
        e.push_back(Un({{T({{"?y", q, "?z"}}), Fil(Expr("=", {Z, l}))}, {T({{"?z", p, "?y"}})}}));
        e.push_back(Min({Un({{T({{"?y", q, l}})}, {T({{"?y", q, a}})}})}));
        e.push_back(Opt({T({{"?x", p, "?z"}}), Min({T({{"?z", q, l}})})}));
        e.push_back(T({{"?x", "?t", l}}));
        e.push_back(Opt({T({{"?y", "?t", "?z"}})}));
    }
    return e;
}
// Variables a group always binds (cer) or may bind (pos).  ok becomes false when two joined parts share a variable that one
// of them can leave unbound: such groups are checked only in the mode that lists known findings.
static void scope(const Group& g, std::set<string>& cer, std::set<string>& pos, bool& ok);
static void scopeQ(const Query& q, std::set<string>& cer, std::set<string>& pos, bool& ok) {
    std::set<string> c, p; scope(q.w, c, p, ok);
    if (q.star) { cer = c; pos = p; return; }
    for (auto& x : q.proj) { if (!x.agg.empty()) { cer.insert(x.var); pos.insert(x.var); } else { if (c.count(x.var)) cer.insert(x.var); if (p.count(x.var)) pos.insert(x.var); } }
}
static void scope(const Group& g, std::set<string>& cer, std::set<string>& pos, bool& ok) {
    auto meet = [&](const std::set<string>& c, const std::set<string>& p) { for (auto& v : p) if (pos.count(v) && (!cer.count(v) || !c.count(v))) ok = false; };
    for (auto& e : g.e) {
        std::set<string> c, p;
        if (e.k == Elem::Filter) continue;
        if (e.k == Elem::BindE) { if (pos.count(e.var)) ok = false; std::set<string> v; exprVars(e.x, v); bool all = true; for (auto& x : v) if (!cer.count(x)) all = false; if (all) cer.insert(e.var); pos.insert(e.var); continue; }
        if (e.k == Elem::Triples) { for (auto& t : e.t) for (const string* x : {&t.s, &t.p, &t.o}) if (isVar(*x)) { c.insert(*x); p.insert(*x); } }
        else if (e.k == Elem::Union) { for (size_t i = 0; i < e.g.size(); i++) { std::set<string> c1, p1; scope(e.g[i], c1, p1, ok); p.insert(p1.begin(), p1.end()); if (!i) c = c1; else { std::set<string> k; for (auto& v : c) if (c1.count(v)) k.insert(v); c = k; } } }
        else if (e.k == Elem::Sub) scopeQ(*e.q, c, p, ok);
        else scope(e.g[0], c, p, ok);
        meet(c, p);
        if (e.k == Elem::Minus) continue;
        pos.insert(p.begin(), p.end());
        if (e.k != Elem::Opt) cer.insert(c.begin(), c.end());
    }
}
static bool inScope(const vector<Elem>& v) {
    std::set<string> c, p; bool ok = true; scope(Group{v}, c, p, ok);
    return ok;
}
static Query star(vector<Elem> e) { Query k; k.star = true; k.w.e = e; return k; }
// Queries outside the stated family that the engine answers wrongly: each is a listed known finding.
static void knownQueries(Explorer& X, const vector<Query>& qs, bool strictHead = false, int gi = 0, const string& mode = "known") {
    X.run(mode, qs.size(), [&](Worker& W) { libInit(100); dbs.clear(); for (size_t i = 0; i < G.size(); i++) { buildDB("g" + num(i), ntg(G[i])); dbs.push_back(openDB("g" + num(i))); } }, [&](Worker& W, long t) {
        string sig = "known g" + num(gi) + " " + qs[t].text(); W.at(sig); W.sh->execs++; W.sh->transitions++; W.sh->states++;
        Res res; string e = checkQ(dbs[gi], G[gi], qs[t], &res, strictHead);
        if (!e.empty()) W.fail(sig, "graph:\n" + ntg(G[gi]) + e);
    });
}
static void groupModes(Explorer& X, bool th) {
    vector<Elem> base = {T({{"?x", p, "?y"}}), T({{"?x", p, "?y"}, {"?y", q, "?u"}}), T({{"?x", "?r", "?y"}}), Un({{T({{"?x", p, "?y"}})}, {T({{"?y", p, "?x"}})}}), Br({T({{"?x", p, "?y"}}), Opt({T({{"?y", q, "?z"}})})})};
    vector<Elem> E = groupElems(0), F = groupElems(1);
    auto sane = [](const vector<Elem>& v) { // a variable that BIND sets may not be in scope before
        int binds = 0; for (auto& e : v) if (e.k == Elem::BindE) binds++;
        return binds < 2;
    };
    {
        vector<Query> qs; for (auto& t : base) for (auto& x : F) if (inScope({t, x})) { qs.push_back(star({t, x})); qs.push_back(sel({"?x"}, {t, x})); Query k = sel({"?x"}, {t, x}); k.distinct = true; qs.push_back(k); k = star({t, x}); k.limit = 1; qs.push_back(k); k.offset = 1; qs.push_back(k); k = Query(); k.ask = true; k.w.e = {t, x}; qs.push_back(k); }
        for (auto& x : E) if (x.k != Elem::Filter && x.k != Elem::BindE && x.k != Elem::Opt && x.k != Elem::Minus) { qs.push_back(star({x})); vector<string> vs; groupVars(Group{{x}}, vs); for (auto& u : vs) { qs.push_back(sel({u}, {x})); Query k = sel({u}, {x}); k.distinct = true; qs.push_back(k); } for (auto& y : E) if (inScope({x, y})) qs.push_back(star({x, y})); }
        space(X, "group1", qs, 10);
    }
    {
        vector<Query> qs; for (auto& t : base) for (auto& x : F) for (auto& y : F) if (sane({x, y}) && inScope({t, x, y})) { qs.push_back(star({t, x, y})); if (th) { Query k = sel({"?x"}, {t, x, y}); k.distinct = true; qs.push_back(k); } }
        space(X, "group2", qs, 20);
    }
    {
        vector<Query> qs; const vector<Elem>& K = th ? F : E;
        for (size_t i = 0; i < base.size(); i++) for (auto& x : K) for (auto& y : K) for (auto& z : K) if (sane({x, y, z}) && inScope({base[i], x, y, z})) qs.push_back(star({base[i], x, y, z}));
        space(X, "group3", qs, 100, th ? 3 : 2);
    }
    {   // branches of a UNION, a group in braces or an OPTIONAL that assign variables or test variables of the group around
        Expr eX("?x"), eY("?y"), eZ("?z"), eW("?w");
        vector<vector<Elem>> R = {
            {T({{"?y", q, "?z"}})}, {T({{"?x", q, "?w"}}), Bnd(Expr("STR", {eW}), "?z")}, {T({{"?y", q, "?w"}}), Bnd(Expr("IF", {Expr("=", {eW, l}), eW, Expr(b)}), "?z")}, {T({{"?y", q, "?w"}}), Bnd(Expr(l), "?z")},
            {T({{"?y", q, "?z"}}), Fil(Expr("!=", {eZ, Expr(l)}))}, {T({{"?y", q, "?z"}}), Fil(Expr("!=", {eX, eZ}))}, {T({{"?y", q, "?z"}}), Fil(Expr("!", {Expr("BOUND", {eX})}))}, {T({{"?y", p, "?z"}}), Fil(Expr("BOUND", {eX}))},
            {T({{"?z", p, "?y"}}), Opt({T({{"?y", q, "?w"}}), Fil(Expr("!=", {eW, Expr(l)}))})}, {T({{"?y", p, "?z"}}), Min({T({{"?z", q, l}})})}, {T({{"?y", p, "?z"}, {"?z", q, "?w"}}), Fil(Expr("||", {Expr("=", {eW, Expr(l)}), Expr("=", {eY, eZ})}))} };
        vector<Elem> U; for (auto& x : R) { U.push_back(Br(x)); for (auto& y : R) U.push_back(Un({x, y})); }
        for (auto& x : R) { U.push_back(Un({{Un({x, R[0]})}, R[1]})); U.push_back(Un({{Br(x), T({{"?x", p, "?y"}})}, R[0]})); U.push_back(Un({R[4], x, R[3]})); }
        vector<Query> qs;
        for (auto& u : U) { if (inScope({u})) { qs.push_back(star({u})); qs.push_back(sel({"?z"}, {u})); } for (auto& t : base) { for (auto v : vector<vector<Elem>>{{t, u}, {u, t}}) if (inScope(v)) { qs.push_back(star(v)); Query k = sel({"?z"}, v); k.distinct = true; qs.push_back(k); }
            for (auto& y : th ? F : E) if (y.k != Elem::BindE && (th || y.k == Elem::Filter || y.k == Elem::Minus || y.k == Elem::Union || y.k == Elem::Sub) && inScope({t, u, y})) qs.push_back(star({t, u, y})); } }
        space(X, "scope", qs, 100, 2);
    }
}

static void modGraphs() {
    G.clear();
    const string v = "<v>", st = "<s>";
    Graph m{{a, v, I(5)}, {b, v, I(10)}, {c, v, I(-3)}, {"<d>", v, I(5)}, {"<e>", v, I(100)}, {a, st, "\"b\""}, {b, st, "\"a\""}, {c, st, "\"b\""}, {"<d>", st, "\"ab\""}, {a, p, b}, {a, p, c}, {b, p, c}, {c, p, a}, {"<d>", p, b}, {a, v, I(7)}};
    G.push_back(m);
    Graph w; for (int i = 0; i < 30; i++) { string x = "<n" + num(i) + ">"; w.insert({x, v, I((i * 37) % 23 - 5)}); w.insert({x, st, "\"s" + num(i % 7) + "\""}); w.insert({x, p, "<n" + num((i * i) % 11) + ">"}); }
    G.push_back(w);
}
static void modModes(Explorer& X, bool th) {
    modGraphs();
    const string v = "<v>", st = "<s>";
    auto P = [](const string& x) { Proj k; k.var = x; return k; };
    vector<vector<Elem>> W = { {T({{"?x", v, "?n"}})}, {T({{"?x", v, "?n"}, {"?x", st, "?t"}})}, {T({{"?x", p, "?y"}, {"?y", v, "?n"}})}, {T({{"?x", v, "?n"}}), Opt({T({{"?x", st, "?t"}})})},
        {Un({{T({{"?x", v, "?n"}})}, {T({{"?x", p, "?y"}}), T({{"?y", v, "?n"}})}})}, {T({{"?x", v, "?n"}}), Fil(Expr(">", {Expr("?n"), I(4)}))}, {T({{"?x", v, "?n"}}), Fil(Expr(">", {Expr("?n"), I(1000)}))},
        {T({{"?x", v, "?n"}}), Min({T({{"?x", st, "\"b\""}})})} };
    vector<std::pair<int, int>> pages = {{-1, 0}, {0, 0}, {1, 0}, {2, 1}, {3, 3}, {100, 0}, {-1, 2}, {5, 100}, {4, 2}};
    {
        vector<Query> qs;
        for (auto& w : W) {
            vector<string> vs; groupVars(Group{w}, vs);
            vector<vector<string>> proj; for (size_t i = 1; i < (1u << vs.size()); i++) { vector<string> k; for (size_t j = 0; j < vs.size(); j++) if (i >> j & 1) k.push_back(vs[j]); proj.push_back(k); }
            for (auto& pr : proj) for (int dis = 0; dis < 2; dis++) {
                vector<vector<std::pair<string, bool>>> ord = {{}};
                for (auto& k : vs) for (int d = 0; d < 2; d++) { ord.push_back({{k, d == 1}}); for (auto& k2 : vs) if (k2 != k && (pr.size() > 1 || th)) ord.push_back({{k, d == 1}, {k2, d == 0}}); }
                for (auto& o : ord) {
                    bool inProj = true; for (auto& x : o) if (std::find(pr.begin(), pr.end(), x.first) == pr.end()) inProj = false;
                    if (!inProj && dis) continue;   // SELECT DISTINCT ordered by something not selected: no defined order
                    for (auto& pg : pages) { Query k = sel(pr, w); k.distinct = dis; k.orderBy = o; k.limit = pg.first; k.offset = pg.second; qs.push_back(k); }
                }
            }
        }
        space(X, "page", qs, 40);
    }
    {
        vector<Query> qs;
        vector<Proj> ag; auto A = [&](const string& f, const string& arg, bool d) { Proj k; k.var = "?g" + num(ag.size()); k.agg = f; k.arg = arg; k.distinct = d; ag.push_back(k); };
        A("COUNT", "*", false); A("COUNT", "?n", false); A("COUNT", "?n", true); A("SUM", "?n", false); A("AVG", "?n", false); A("MIN", "?n", false); A("MAX", "?n", false); A("SUM", "?n", true); A("COUNT", "?x", true);
        vector<Proj> agT = ag; agT.resize(2); { Proj k; k.var = "?h0"; k.agg = "COUNT"; k.arg = "?t"; agT.push_back(k); k.distinct = true; k.var = "?h1"; agT.push_back(k); k.distinct = false; }
        for (auto& w : W) {
            vector<string> vs; groupVars(Group{w}, vs); bool hasT = std::find(vs.begin(), vs.end(), "?t") != vs.end();
            vector<Proj> all = ag; if (hasT) all.insert(all.end(), agT.begin() + 2, agT.end());
            vector<vector<string>> gb = {{}}; for (auto& k : vs) { gb.push_back({k}); for (auto& k2 : vs) if (k < k2) gb.push_back({k, k2}); }
            for (auto& g : gb) for (size_t i = 0; i < all.size(); i++) for (size_t j = i; j < all.size(); j++) {
                if (j > i && !th && j != i + 1 && j != 0) continue;
                Query k; k.w.e = w; for (auto& x : g) k.proj.push_back(P(x)); k.groupBy = g; k.proj.push_back(all[i]); if (j > i) k.proj.push_back(all[j]);
                qs.push_back(k);
                if (j == i && !g.empty()) {
                    for (int d = 0; d < 2; d++) { Query o = k; o.orderBy = {{g[0], d == 1}}; qs.push_back(o); o.limit = 2; qs.push_back(o); o.offset = 1; qs.push_back(o); }
                    if (all[i].agg == "COUNT" || all[i].agg == "SUM") for (int d = 0; d < 2; d++) { Query o = k; o.orderBy = {{all[i].var, d == 1}}; qs.push_back(o); o.limit = 2; o.offset = 1; qs.push_back(o); }
                    Query l = k; l.limit = 1; qs.push_back(l); l.offset = 2; qs.push_back(l);
                    Query dd = k; dd.proj.erase(dd.proj.begin()); dd.distinct = true; qs.push_back(dd); dd.distinct = false; qs.push_back(dd);
                    dd.limit = 1; qs.push_back(dd);
                } else if (j == i) { Query l = k; l.limit = 1; qs.push_back(l); l.limit = 0; qs.push_back(l); l.limit = -1; l.offset = 1; qs.push_back(l); }
            }
        }
        space(X, "agg", qs, 40);
    }
    {   // values of every comparable type
        const string m = "<m>", d = "<d>", n = "<n>"; auto DT = [](const string& x) { return tyLit(x, "dateTime"); };
        static vector<Graph> keep; 
        Graph g{{a, m, I(5)}, {a, m, tyLit("4.5", "decimal")}, {a, m, tyLit("1e1", "double")}, {b, m, tyLit("-2.25", "decimal")}, {b, m, I(-3)}, {c, m, tyLit("2.5", "float")}, {c, m, tyLit("7000", "long")}, {"<e>", m, I(-1)}, {"<f>", m, tyLit("0.5", "decimal")}, {"<f>", m, tyLit("0.25", "double")}};
        for (auto& x : vector<std::pair<string, string>>{{a, "2020-01-01T00:00:00"}, {a, "2019-12-31T23:59:59"}, {a, "2020-01-01T00:00:01"}, {b, "0999-05-05T05:05:05"}, {c, "2020-02-29T12:00:00"}, {c, "2021-02-28T12:00:00"}, {"<e>", "2020-01-01T00:00:00"}, {"<f>", "1970-01-01T00:00:00"}}) g.insert({x.first, d, DT(x.second)});
        g.insert({{a, n, b}, {a, n, I(3)}, {b, n, c}, {b, n, tyLit("2.5", "decimal")}, {c, n, "<e>"}, {c, n, a}});
        G = {g}; vector<Query> qs;
        vector<vector<Elem>> W2; for (auto& pr : {m, d}) { W2.push_back({T({{"?x", pr, "?n"}})}); W2.push_back({T({{"?x", n, "?y"}}), Opt({T({{"?y", pr, "?n"}})})}); W2.push_back({T({{"?x", pr, "?n"}, {"?x", n, "?y"}})}); W2.push_back({T({{"?x", pr, "?k"}, {"?x", n, "?y"}, {"?y", pr, "?n"}})}); }
        W2.push_back({T({{"?x", n, "?n"}})});
        for (auto& w : W2) {
            vector<string> vs; groupVars(Group{w}, vs); bool num_ = w[0].t[0].p == m || w.size() > 1;
            for (auto& k : vs) for (int dir = 0; dir < 2; dir++) for (auto& pg : pages) for (int dis = 0; dis < 2; dis++) for (int all = 0; all < 2; all++) { Query q2 = sel(all ? vs : vector<string>{k}, w); q2.distinct = dis; q2.orderBy = {{k, dir == 1}}; q2.limit = pg.first; q2.offset = pg.second; qs.push_back(q2); }
            bool mixed = w[0].t.back().p == n && w.size() == 1 && w[0].t.size() == 1; (void)num_;
            bool isNum = false; for (auto& e : w) { for (auto& t : e.t) if (t.o == "?n" && t.p == m) isNum = true; if (e.k == Elem::Opt) for (auto& e2 : e.g[0].e) for (auto& t : e2.t) if (t.p == m) isNum = true; }
            vector<string> fs = {"COUNT"}; if (!mixed) { fs.push_back("MIN"); fs.push_back("MAX"); } if (isNum) { fs.push_back("SUM"); fs.push_back("AVG"); }
            vector<vector<string>> gb = {{}}; for (auto& k : vs) if (k != "?n") gb.push_back({k});
            for (auto& f : fs) for (auto& f2 : fs) for (int dis = 0; dis < 2; dis++) for (auto& gk : gb) {
                Query k; k.w.e = w; for (auto& x : gk) { Proj pj; pj.var = x; k.proj.push_back(pj); } k.groupBy = gk;
                Proj c; c.var = "?g"; c.agg = f; c.arg = "?n"; c.distinct = dis; k.proj.push_back(c); if (f2 != f) { c.var = "?h"; c.agg = f2; c.distinct = false; k.proj.push_back(c); }
                qs.push_back(k);
                for (int dir = 0; dir < 2; dir++) if (!gk.empty()) { k.orderBy = {{"?g", dir == 1}}; k.limit = -1; k.offset = 0; qs.push_back(k); k.limit = 2; qs.push_back(k); k.offset = 1; qs.push_back(k); }
            }
        }
        space(X, "types", qs, 40);
    }
}
static void knownC02(Explorer& X) {
    vector<Query> qs;
    qs.push_back(sel({"?x"}, {T({{"?x", p, "?x"}})}));
    qs.push_back(sel({"?x", "?r"}, {T({{"?x", "?r", "?x"}})}));
    qs.push_back(sel({"?x", "?y"}, {T({{"?x", p, "?x"}, {"?x", q, "?y"}})}));
    qs.push_back(sel({"?r", "?x"}, {T({{a, "?r", "?x"}, {"?x", p, "?r"}})}));
    knownQueries(X, qs);

}
static void knownC03(Explorer& X) {
    vector<Query> qs;
    Elem xpy = T({{"?x", p, "?y"}});
    qs.push_back(star({T({{"?y", q, "?z"}}), Fil(Expr("!=", {Expr("?z"), Expr("?z")})), Opt({T({{"?z", p, "?w"}})})}));   // header
    qs.push_back(star({xpy, Opt({T({{"?y", q, "?z"}}), Fil(Expr("!=", {Expr("?z"), Expr("?x")}))})}));
    qs.push_back(star({Br({xpy, Opt({T({{"?y", q, "?z"}})})}), Opt({T({{"?z", q, l}})})}));
    qs.push_back(star({Un({{T({{"?x", p, a}})}, {T({{"?x", p, "?z"}})}, {T({{"?z", p, "?y"}})}}), Min({T({{"?y", q, "?z"}})})}));
    qs.push_back(star({Un({{T({{"?y", p, "?x"}})}, {T({{"?x", q, l}})}}), SubQ(sel({"?y", "?z"}, {T({{"?y", q, "?z"}})}))}));
    knownQueries(X, qs, true);
}

int main(int argc, char** argv) {
    string prop = argv[1];
    Explorer X(prop, argc - 1, argv + 1);
    bool th = X.argThorough();
    graphs();
    if (prop == "C02") { longListModes(X, th); formModes(X, th); patternModes(X, th); knownC02(X); }
    if (prop == "C03") { groupModes(X, th); knownC03(X); }
    if (prop == "C04") modModes(X, th);
    X.rule = "Every query of the stated family on every listed graph, answered by the real engine and by the reference algebra; the answers are compared as multisets (and as pages of an order where one is asked for).";
    X.boundsText = prop == "C02" ? "all patterns of 1 to 3 triples (4 in part) up to renaming; all joins of two and three lists out of 63; 5 and 6 variables on 130 vertices" : prop == "C03" ? "every base pattern followed by up to three of 30 elements" : "every combination of pattern, projection, keys, directions and page; all aggregates and pairs of them";
    return X.finish();
}
