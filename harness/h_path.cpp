// C10: the path and graph-analysis functions agree with the graph, for every small graph.
#include <stdexcept>
#define RAPIDJSON_ASSERT(x) ((x) ? (void)0 : throw std::runtime_error("the answer lacks a member or has one of another type"))
#include "gs.h"
#include <rapidjson/document.h>
using namespace gs;

struct E3 { int s, p, o; bool operator<(const E3& e) const { return std::tie(s, p, o) < std::tie(e.s, e.p, e.o); } };
struct Gr { int n = 0; std::set<E3> e; };
static const string CH = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
static string V(int i) { return string("<http://e/") + CH[i] + ">"; }
static const char* PN[] = {"<http://p/p>", "<http://p/q>"};
static string show(const Gr& g) { string s = num(g.n) + " vertices:"; for (auto& x : g.e) s += string(" ") + CH[x.s] + "-" + "pq"[x.p] + "->" + CH[x.o]; return s; }
static string ntOf(const Gr& g, const string& before = "", const string& after = "") { string t = before; for (auto& x : g.e) t += V(x.s) + " " + PN[x.p] + " " + V(x.o) + " .\n"; return t + after; }

// ---- what the functions mean
struct View {   // the graph restricted to a predicate set, with a direction mode
    const Gr& g; bool dir; int ps;   // ps: bit 0 = p, bit 1 = q
    vector<vector<int>> cnt;         // number of allowed labelled edges u -> v usable in one step
    vector<vector<char>> sym;
    View(const Gr& G, bool d, int s) : g(G), dir(d), ps(s), cnt(G.n, vector<int>(G.n, 0)), sym(G.n, vector<char>(G.n, 0)) {
        for (auto& x : g.e) if (ps >> x.p & 1) { cnt[x.s][x.o]++; if (!dir) cnt[x.o][x.s]++; sym[x.s][x.o] = sym[x.o][x.s] = 1; }
    }
    vector<int> dist(int u) const {
        vector<int> d(g.n, -1), q = {u}; d[u] = 0;
        for (size_t i = 0; i < q.size(); i++) for (int v = 0; v < g.n; v++) if (cnt[q[i]][v] && d[v] < 0) { d[v] = d[q[i]] + 1; q.push_back(v); }
        return d;
    }
    long countShortest(int u, int v) const {
        vector<int> d = dist(u); if (d[v] < 0) return 0;
        vector<long> c(g.n, 0); c[u] = 1;
        for (int l = 1; l <= d[v]; l++) for (int x = 0; x < g.n; x++) if (d[x] == l) for (int y = 0; y < g.n; y++) if (d[y] == l - 1) c[x] += c[y] * cnt[y][x];
        return c[v];
    }
};
struct Step { int from, to, p; bool operator<(const Step& x) const { return std::tie(from, to, p) < std::tie(x.from, x.to, x.p); } bool operator==(const Step& x) const { return from == x.from && to == x.to && p == x.p; } };
typedef vector<Step> Path;   // the edges as they are in the graph, in the order they are walked

static int vnum(const string& iri) { if (iri.size() == 12 && iri.compare(0, 10, "<http://e/") == 0) { size_t i = CH.find(iri[10]); return i == string::npos ? -1 : (int)i; } return -1; }
struct PathJ { int src, dst; Path p; };
static string parsePath(const rapidjson::Value& o, PathJ& r, int n) {
    if (!o.IsObject() || !o.HasMember("src") || !o.HasMember("dst") || !o.HasMember("edges") || !o.HasMember("nodes")) return "a path lacks src, dst, edges or nodes";
    r.src = vnum(o["src"].GetString()); r.dst = vnum(o["dst"].GetString());
    std::map<int, int> id;
    for (auto& x : o["nodes"].GetArray()) id[x["nodeIndex"].GetInt()] = vnum(x["nodeIRI"].GetString());
    for (auto& x : o["edges"].GetArray()) {
        int f = x["fromNode"].GetInt(), t = x["toNode"].GetInt(); string p = x["predIRI"].GetString();
        if (!id.count(f) || !id.count(t)) return "an edge names a node that the node list does not describe";
        Step s = {id[f], id[t], p == PN[0] ? 0 : p == PN[1] ? 1 : -1};
        if (s.from < 0 || s.from >= n || s.to < 0 || s.to >= n || s.p < 0) return "an edge names an unknown vertex or predicate";
        r.p.push_back(s);
    }
    return "";
}
// is p a walk of the view from u to v?
static string walk(const View& w, const Path& p, int u, int v, std::set<int>* seen = nullptr) {
    int cur = u; if (seen) seen->insert(u);
    for (auto& s : p) {
        if (!(w.ps >> s.p & 1)) return "the path uses a predicate outside the set";
        if (!w.g.e.count({s.from, s.p, s.to})) return string("the path uses the edge ") + CH[s.from] + "-" + "pq"[s.p] + "->" + CH[s.to] + ", which is not in the graph";
        if (s.from == cur) cur = s.to; else if (!w.dir && s.to == cur) cur = s.from; else return "the edges of the path do not follow one another";
        if (seen) seen->insert(cur);
    }
    return cur == v ? "" : "the path does not end at the destination";
}
static void simplePaths(const View& w, int u, int v, int k, Path& cur, vector<char>& on, std::multiset<Path>& out) {
    if (u == v) { out.insert(cur); return; }
    if ((int)cur.size() == k) return;
    for (auto& x : w.g.e) {
        if (!(w.ps >> x.p & 1) || x.s == x.o) continue;
        for (int d = 0; d < (w.dir ? 1 : 2); d++) {
            int a = d ? x.o : x.s, b = d ? x.s : x.o; if (a != u || on[b]) continue;
            on[b] = 1; cur.push_back({x.s, x.o, x.p}); simplePaths(w, b, v, k, cur, on, out); cur.pop_back(); on[b] = 0;
        }
    }
}

static Database* DB; static Gr G; static string VARIANT; static Worker* WW; static string SIGP;
static bool usesVar;   // ask through a variable bound by a pattern
static string QTAIL; static bool several; static int SRC;
static string psText(int ps, int nl) { if (ps == 3) return usesVar ? string("{") + PN[0] + "," + PN[1] + "}" : "{}"; return string("{") + PN[ps - 1] + "}"; }
static string raw(const string& call, string& err, string& q) {
    q = "SELECT (" + call + " AS ?y) WHERE " + QTAIL;
    WW->sh->execs++; WW->sh->transitions++;
    Res r = ask(DB, q);
    if (r.threw) { err = "the query is refused: " + r.err; return ""; }
    if (r.code != -100 || r.rows.size() != 1 || r.rows[0].empty()) { err = "the query gives code " + num(r.code) + " and " + num(r.rows.size()) + " rows"; return ""; }
    return r.rows[0][0];
}
static void bad(const string& fn, const string& q, const string& got, const string& why) {
    WW->fail(VARIANT + " " + fn, "graph: " + show(G) + "\nvariant: " + VARIANT + "\nquery: " + q + "\nanswer: " + got + "\n" + why);
}
static bool known(int ps) { for (auto& e : G.e) if (ps >> e.p & 1) return true; return false; }   // the coefficients answer -1 when no predicate of the set exists
// asks, parses; f gets the "paths" array and returns "" or what is wrong
static void doc(const string& fn, const string& call, std::function<string(const rapidjson::Value&)> f) {
    string err, q; WW->at(VARIANT + " " + fn + "\n" + show(G) + "\n" + call);
    string got = raw(call, err, q);
    if (!err.empty()) { bad(fn, q, got, err); return; }
    WW->outcome(fn + got);
    string t = got; if (t.size() >= 2 && t[0] == '"' && t.back() == '"') t = t.substr(1, t.size() - 2);
    rapidjson::Document d; d.Parse(t.c_str());
    if (d.HasParseError() || !d.IsObject() || !d.HasMember("paths") || !d["paths"].IsArray()) { bad(fn, q, got, "the answer is not a JSON document with a \"paths\" array"); return; }
    if (several) {   // one query for every vertex: keep the answers for the source SRC
        rapidjson::Document d2; d2.SetArray();
        for (auto& y : d["paths"].GetArray()) if (y.IsObject() && y.HasMember("src") && vnum(y["src"].GetString()) == SRC) { rapidjson::Value c(y, d2.GetAllocator()); d2.PushBack(c, d2.GetAllocator()); }
        string e; try { e = f(d2); } catch (std::exception& x) { e = x.what(); } if (!e.empty()) bad(fn, q, got, string("for the source ") + CH[SRC] + ": " + e);
        return;
    }
    string e; try { e = f(d["paths"]); } catch (std::exception& x) { e = x.what(); }
    if (!e.empty()) bad(fn, q, got, e);
}
static string one(const rapidjson::Value& a, const char* key, double want, int u, int v = -1) {
    if (a.Size() != 1 || !a[0].IsObject()) return "expected one object";
    auto& o = a[0];
    if (!o.HasMember("src") || vnum(o["src"].GetString()) != u) return "the source is wrong";
    if (v >= 0 && (!o.HasMember("dst") || vnum(o["dst"].GetString()) != v)) return "the destination is wrong";
    if (!o.HasMember(key) || !o[key].IsNumber()) return string("no numeric ") + key;
    double g = o[key].GetDouble();
    return fabs(g - want) < 2e-6 ? "" : string(key) + " should be " + std::to_string(want);
}
static string B(bool d) { return d ? "true" : "false"; }

static void pairFns(int u, int v, bool dir, int ps, int depth) {
    View w(G, dir, ps); string P = psText(ps, 2), a = (usesVar ? string("?x") : V(u)) + "," + V(v) + "," + B(dir) + ",";
    vector<int> d = w.dist(u); bool reach = d[v] >= 0, back = w.dist(v)[u] >= 0;
    string m = dir ? " directed" : " undirected";
    if (u != v && !several) {
        string err, q; WW->at(VARIANT + " cycleBoolean" + m); string got = raw("cycleBoolean(" + a + P + ")", err, q);
        string want = string("\"") + B(reach && back) + "\"^^<http://www.w3.org/2001/XMLSchema#boolean>";
        if (!err.empty() || got != want) bad("cycleBoolean" + m, q, got, err.empty() ? "should be " + want : err);
    }
    if (u != v) {
        doc("cyclePath" + m, "cyclePath(" + a + P + ")", [&](const rapidjson::Value& x) -> string {
            if (!(reach && back)) return x.Size() ? "there is no cycle through both vertices" : "";
            if (x.Size() != 1) return "expected one cycle";
            PathJ j; string e = parsePath(x[0], j, G.n); if (!e.empty()) return e;
            if (j.src != u || j.dst != v) return "source or destination is wrong";
            std::set<int> seen; e = walk(w, j.p, u, u, &seen); if (!e.empty()) return e;
            return seen.count(v) ? "" : "the cycle misses the second vertex"; });
        doc("shortestPathCount" + m, "shortestPathCount(" + a + P + ")", [&](const rapidjson::Value& x) { return one(x, "count", w.countShortest(u, v), u, v); });
    }
    auto sp = [&](int k) { return [&, k](const rapidjson::Value& x) -> string {
        bool has = reach && (k < 0 || d[v] <= k);
        if (!has) return x.Size() ? "there is no such path" : "";
        if (x.Size() != 1) return "expected one path";
        PathJ j; string e = parsePath(x[0], j, G.n); if (!e.empty()) return e;
        if (j.src != u || j.dst != v) return "source or destination is wrong";
        e = walk(w, j.p, u, v); if (!e.empty()) return e;
        return (int)j.p.size() == d[v] ? "" : "the path has " + num(j.p.size()) + " edges, the shortest one " + num(d[v]); }; };
    doc("shortestPath" + m, "shortestPath(" + a + P + ")", sp(-1));
    doc("shortestPathLen" + m, "shortestPathLen(" + a + P + ")", [&](const rapidjson::Value& x) -> string { if (!reach) return x.Size() ? "there is no path" : ""; return one(x, "length", d[v], u, v); });
    for (int k = 1; k <= depth; k++) {
        doc("kHopReachable" + m, "kHopReachable(" + a + num(k) + "," + P + ")", [&](const rapidjson::Value& x) -> string {
            if (x.Size() != 1 || !x[0].HasMember("value") || vnum(x[0]["src"].GetString()) != u || vnum(x[0]["dst"].GetString()) != v) return "expected one object with src, dst and value";
            bool want = reach && d[v] <= k; return x[0]["value"].GetString() == B(want) ? "" : "should be " + B(want); });
        if (k == 2 || k > 3) doc("kHopReachablePath" + m, "kHopReachablePath(" + a + num(k) + "," + P + ")", sp(k));
        if (u != v && k <= 3) doc("kHopEnumerate" + m, "kHopEnumerate(" + a + num(k) + "," + P + ")", [&](const rapidjson::Value& x) -> string {
            std::multiset<Path> want, got; Path c; vector<char> on(G.n, 0); on[u] = 1; simplePaths(w, u, v, k, c, on, want);
            for (auto& y : x.GetArray()) { PathJ j; string e = parsePath(y, j, G.n); if (!e.empty()) return e; if (j.src != u || j.dst != v) return "source or destination is wrong"; e = walk(w, j.p, u, v); if (!e.empty()) return e; got.insert(j.p); }
            return got == want ? "" : "gives " + num(got.size()) + " paths, there are " + num(want.size()) + " simple paths of at most " + num(k) + " edges"; });
    }
}
static void vertexFns(int u, bool dir, int ps, int depth, bool loops) {
    View w(G, dir, ps); string P = psText(ps, 2), su = usesVar ? string("?x") : V(u); vector<int> d = w.dist(u); string m = dir ? " directed" : " undirected";
    doc("SSSP" + m, "SSSP(" + su + "," + B(dir) + "," + P + ")", [&](const rapidjson::Value& x) -> string {
        std::set<int> got;
        for (auto& y : x.GetArray()) { PathJ j; string e = parsePath(y, j, G.n); if (!e.empty()) return e; if (j.src != u) return "the source is wrong"; if (!got.insert(j.dst).second) return "a vertex is listed twice"; e = walk(w, j.p, u, j.dst); if (!e.empty()) return e; if ((int)j.p.size() != d[j.dst]) return "a path is not a shortest one"; }
        for (int v = 0; v < G.n; v++) if ((d[v] >= 0) != (got.count(v) > 0)) return string("vertex ") + CH[v] + (d[v] >= 0 ? " is missing" : " is not reachable");
        return ""; });
    doc("SSSPLen" + m, "SSSPLen(" + su + "," + B(dir) + "," + P + ")", [&](const rapidjson::Value& x) -> string {
        std::map<int, int> got, want; for (auto& y : x.GetArray()) { if (vnum(y["src"].GetString()) != u) return "the source is wrong"; int v = vnum(y["dst"].GetString()); if (got.count(v)) return "a vertex is listed twice"; got[v] = y["length"].GetInt(); }
        for (int v = 0; v < G.n; v++) if (d[v] >= 0) want[v] = d[v];
        return got == want ? "" : "the lengths are wrong"; });
    int reached = 0, sum = 0, mx = 0; for (int x : d) if (x > 0) reached++, sum += x, mx = std::max(mx, x);
    doc("closenessCentrality" + m, "closenessCentrality(" + su + "," + B(dir) + "," + P + ")", [&](const rapidjson::Value& x) { return one(x, "result", sum ? 1.0 * reached / sum : 0, u); });
    doc("bfsCount" + m, "bfsCount(" + su + "," + B(dir) + "," + P + ")", [&](const rapidjson::Value& x) -> string {
        if (x.Size() != 1 || vnum(x[0]["src"].GetString()) != u) return "expected one object for the source";
        vector<int> want(mx + 1, 0), got; for (int y : d) if (y >= 0) want[y]++;
        for (auto& y : x[0]["results"].GetArray()) { if (y["depth"].GetInt() != (int)got.size()) return "the depths are not 0, 1, 2, ..."; got.push_back(y["count"].GetInt()); }
        return got == want ? "" : "the counts per depth are wrong"; });
    for (int k = 1; k <= depth; k++) {
        std::set<int> at; for (int v = 0; v < G.n; v++) if (d[v] == k) at.insert(v);
        doc("kHopCount" + m, "kHopCount(" + su + "," + B(dir) + "," + num(k) + "," + P + ")", [&](const rapidjson::Value& x) -> string { if (x.Size() != 1 || x[0]["depth"].GetInt() != k) return "the depth is wrong"; return one(x, "count", at.size(), u); });
        doc("kHopNeighbor" + m, "kHopNeighbor(" + su + "," + B(dir) + "," + num(k) + "," + P + ")", [&](const rapidjson::Value& x) -> string {
            if (x.Size() != 1 || vnum(x[0]["src"].GetString()) != u) return "expected one object for the source";
            std::set<int> got; for (auto& y : x[0]["dst"].GetArray()) if (!got.insert(vnum(y.GetString())).second) return "a vertex is listed twice";
            return got == at ? "" : "should be the " + num(at.size()) + " vertices at distance " + num(k); });
        if (k == 1 && at.size() > 1) doc("kHopNeighbor limit" + m, "kHopNeighbor(" + su + "," + B(dir) + ",1," + P + ",1)", [&](const rapidjson::Value& x) -> string {
            if (x.Size() != 1 || x[0]["dst"].Size() != 1 || !at.count(vnum(x[0]["dst"][0].GetString()))) return "should be one of the neighbours"; return ""; });
    }
    if (!loops && known(ps)) {
        std::set<int> nb; for (int v = 0; v < G.n; v++) if (w.sym[u][v]) nb.insert(v);
        long c = 0; int ns = nb.size(); double want = 0;
        if (dir) { for (int x : nb) for (int y : nb) if (x != y && w.cnt[u][x] && w.cnt[x][y] && w.cnt[y][u]) c++; if (ns > 1) want = 1.0 * c / (ns * (ns - 1)); }
        else { for (int x : nb) for (int y : nb) if (x < y && w.sym[x][y]) c++; if (ns > 1) want = 2.0 * c / (ns * (ns - 1)); }
        doc("clusterCoeff" + m, "clusterCoeff(" + su + "," + B(dir) + "," + P + ")", [&](const rapidjson::Value& x) { return one(x, "result", want, u); });
    }
}
static void graphFns(bool dir, int ps, bool loops) {
    View w(G, dir, ps); string P = psText(ps, 2); string m = dir ? " directed" : " undirected"; int n = G.n;
    if (!loops && known(ps)) {
        long t = 0, open = 0;
        for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) for (int z = 0; z < n; z++) if (x != y && y != z && x != z) {
            if (dir) { if (x < y && x < z && w.cnt[x][y] && w.cnt[y][z] && w.cnt[z][x]) t++; }
            else { if (x < y && y < z && w.sym[x][y] && w.sym[y][z] && w.sym[x][z]) t++; if (x < z && w.sym[x][y] && w.sym[y][z] && !w.sym[x][z]) open++; }
        }
        doc("triangleCounting" + m, "triangleCounting(" + B(dir) + "," + P + ")", [&](const rapidjson::Value& x) -> string { return x.Size() == 1 && x[0].IsNumber() && x[0].GetInt64() == t ? "" : "should be " + num(t); });
        if (!dir) doc("clusterCoeff global", "clusterCoeff(false," + P + ")", [&](const rapidjson::Value& x) -> string { double want = t + open ? 3.0 * t / (3 * t + open) : 0; return x.Size() == 1 && x[0].IsNumber() && fabs(x[0].GetDouble() - want) < 2e-6 ? "" : "should be " + std::to_string(want); });
    }
    { // PageRank: the fixed point over the vertices that have edges
        std::set<int> vs; for (auto& e : G.e) vs.insert(e.s), vs.insert(e.o);
        vector<double> pr(n, 1.0 / vs.size()), deg(n, 0); for (int a : vs) for (int b : vs) deg[a] += w.cnt[a][b] + (!dir && a == b ? 0 : 0);
        for (int it = 0; it < 300; it++) { vector<double> nx(n, 0.15 / vs.size()); for (int a : vs) { if (deg[a] == 0) { for (int b : vs) nx[b] += 0.85 * pr[a] / vs.size(); } else for (int b : vs) nx[b] += 0.85 * pr[a] * w.cnt[a][b] / deg[a]; } pr = nx; }
        doc("PR" + m, "PR(" + B(dir) + "," + P + ",100,ALPHA=0.85,MAXITER=200,TOL=0.0000001)", [&](const rapidjson::Value& x) -> string {
            std::set<int> got; for (auto& y : x.GetArray()) { int v = vnum(y["src"].GetString()); if (v >= n && v >= 0) continue; if (v < 0 || !got.insert(v).second) return "names a vertex twice or something that is not a vertex"; if (VARIANT != "attributes" && fabs(y["result"].GetDouble() - pr[v]) > 2e-5) return string("the value of ") + CH[v] + " should be " + std::to_string(pr[v]); }
            for (int v : vs) if (!got.count(v)) return string("vertex ") + CH[v] + " is missing";
            return ""; });
    }
    if (!dir) doc("WCC", "WCC(" + P + ")", [&](const rapidjson::Value& x) -> string {
        vector<int> comp(n, -1); int c = 0;
        for (auto& y : x.GetArray()) { for (auto& z : y.GetArray()) { int v = vnum(z.GetString()); if (v < 0) return string("names something that is not a vertex: '") + z.GetString() + "'"; if (v >= n) continue; if (comp[v] >= 0) return "a vertex is listed twice"; comp[v] = c; } c++; }
        std::set<int> onEdge; for (auto& e : G.e) onEdge.insert(e.s), onEdge.insert(e.o);
        for (int a : onEdge) { if (comp[a] < 0) return string("vertex ") + CH[a] + " is in no component"; auto d = w.dist(a); for (int b : onEdge) if ((d[b] >= 0) != (comp[a] == comp[b])) return string("vertices ") + CH[a] + " and " + CH[b] + (d[b] >= 0 ? " are connected but in different components" : " are in one component but not connected"); }
        return ""; });
}
static void all(Worker& W, bool labels, bool loops, int depth, bool light = false) {
    WW = &W; W.sh->states++;
    std::set<int> on; for (auto& e : G.e) on.insert(e.s), on.insert(e.o);
    if (VARIANT != "plain" && VARIANT != "updated") for (int i = 0; i < G.n; i++) on.insert(i);
    for (int u : on) {
        SRC = u;
        QTAIL = several ? "{ ?x <http://p/all> <http://e/set> }" : usesVar ? "{ ?x <http://p/self> " + V(u) + " }" : "{}";
        for (int dir = 0; dir < 2; dir++) for (int ps = labels ? 1 : 3; ps <= 3; ps++) {
            for (int v : on) pairFns(u, v, dir, ps, depth);
            vertexFns(u, dir, ps, depth, loops);
        }
    }
    QTAIL = "{}";
    if (!usesVar) for (int dir = 0; dir < 2; dir++) for (int ps = labels ? 1 : 3; ps <= 3; ps++) graphFns(dir, ps, loops);
    W.beat();
}
// ---- the spaces
static Gr fromMask(int n, int labels, bool loops, long m) { Gr g; g.n = n; int b = 0; for (int p = 0; p < labels; p++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (loops || i != j) { if (m >> b & 1) g.e.insert({i, p, j}); b++; } return g; }
static long toMask(const Gr& g, int labels, bool loops) { long m = 0; int b = 0; for (int p = 0; p < labels; p++) for (int i = 0; i < g.n; i++) for (int j = 0; j < g.n; j++) if (loops || i != j) { if (g.e.count({i, p, j})) m |= 1L << b; b++; } return m; }
static vector<long> space(int n, int labels, bool loops, bool canon) {
    vector<long> r; int bits = labels * (loops ? n * n : n * (n - 1));
    vector<vector<int>> perms; vector<int> pm; for (int i = 0; i < n; i++) pm.push_back(i);
    do perms.push_back(pm); while (std::next_permutation(pm.begin(), pm.end()));
    vector<vector<int>> bp;   // bit permutation of each vertex permutation (labels may also be swapped)
    for (int sw = 0; sw < labels; sw++) for (auto& q : perms) { vector<int> x(bits); for (int b = 0; b < bits; b++) { Gr g = fromMask(n, labels, loops, 1L << b); auto e = *g.e.begin(); Gr h; h.n = n; h.e.insert({q[e.s], sw ? 1 - e.p : e.p, q[e.o]}); long m = toMask(h, labels, loops); int k = 0; while (!(m >> k & 1)) k++; x[b] = k; } bp.push_back(x); }
    for (long m = 1; m < (1L << bits); m++) {
        bool ok = true;
        if (canon) for (auto& x : bp) { long y = 0; for (int b = 0; b < bits; b++) if (m >> b & 1) y |= 1L << x[b]; if (y < m) { ok = false; break; } }
        if (ok) r.push_back(m);
    }
    return r;
}
static string DBN = "g";
static void close_(Worker& W) { delete DB; DB = nullptr; rmTree(W.dir + "/" + dbDir(DBN)); }

int main(int argc, char** argv) {
    Explorer X("C10", argc, argv); bool th = X.argThorough();
    auto init = [](Worker&) { libInit(50000); };
    struct S { const char* name; int n, labels; bool loops; vector<long> ms; };
    vector<S> sp = {{"3 vertices, 2 predicates", 3, 2, false, space(3, 2, false, !th)}, {"3 vertices with loops", 3, 1, true, space(3, 1, true, !th)}, {"4 vertices", 4, 1, false, space(4, 1, false, true)}};
    if (th) sp.push_back({"5 vertices", 5, 1, false, space(5, 1, false, true)});
    // the graph as it is loaded from a file
    { vector<std::pair<int, int>> c; for (size_t i = 0; i < sp.size(); i++) for (size_t j = 0; j < sp[i].ms.size(); j++) c.push_back({(int)i, (int)j});
      X.run("plain", c.size(), init, [&](Worker& W, long t) {
        auto& s = sp[c[t].first]; G = fromMask(s.n, s.labels, s.loops, s.ms[c[t].second]); VARIANT = "plain"; usesVar = false;
        buildDB(DBN, ntOf(G)); DB = openDB(DBN); all(W, s.labels == 2, s.loops, std::min(3, s.n)); if (t % 97 == 0) W.sample(show(G)); close_(W); }); }
    // the same graphs between other entities, and after deletions left holes in the identifiers
    for (int variant = 0; variant < 4; variant++) {
        vector<std::pair<int, int>> c; for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < sp[i].ms.size(); j++) if (th || i > 0 || j % 4 == 0) c.push_back({(int)i, (int)j});
        const char* nm[] = {"attributes", "holes", "variable", "several"};
        X.run(nm[variant], c.size(), init, [&](Worker& W, long t) {
            auto& s = sp[c[t].first]; G = fromMask(s.n, s.labels, s.loops, s.ms[c[t].second]); VARIANT = nm[variant]; usesVar = variant >= 2; several = variant == 3;
            string ex; if (variant == 0) { for (int i = 0; i < 6; i++) ex += "<http://e/z" + num(i) + "> <http://p/name> \"" + num(i) + "\" .\n"; for (int i = 0; i < s.n; i++) ex += V(i) + " <http://p/name> \"v\" .\n"; }
            if (variant == 1) { for (int i = 0; i < 6; i++) ex += "<http://e/z" + num(i) + "> " + PN[i % s.labels] + " " + V(i % s.n) + " .\n"; }
            if (variant == 2) for (int i = 0; i < s.n; i++) ex += V(i) + " <http://p/self> " + V(i) + " .\n";
            if (variant == 3) for (int i = 0; i < s.n; i++) ex += V(i) + " <http://p/all> <http://e/set> .\n";
            buildDB(DBN, ntOf(G, ex)); DB = openDB(DBN);
            if (variant == 1) { string u = "DELETE DATA {"; for (int i = 0; i < 6; i++) u += " <http://e/z" + num(i) + "> " + PN[i % s.labels] + " " + V(i % s.n) + " ."; ask(DB, u + "}", true); for (int i = 0; i < s.n; i++) ask(DB, "INSERT DATA { " + V(i) + " <http://p/name> \"v\" . }", true); }
            all(W, s.labels == 2, s.loops, std::min(3, s.n)); close_(W); });
    }
    // larger graphs of regular shapes: searches that need many steps from both ends
    {
        struct Sh { string name; Gr g; }; vector<Sh> sh;
        auto add = [&](const string& name, int n, std::function<void(Gr&)> f) { Gr g; g.n = n; f(g); sh.push_back({name, g}); };
        for (int n : {12, 21, 24, 33}) add("chain " + num(n), n, [n](Gr& g) { for (int i = 0; i + 1 < n; i++) g.e.insert({i, i % 2, i + 1}); });
        for (int n : {11, 22, 23}) add("cycle " + num(n), n, [n](Gr& g) { for (int i = 0; i < n; i++) g.e.insert({i, 0, (i + 1) % n}); });
        add("zigzag", 24, [](Gr& g) { for (int i = 0; i + 1 < 24; i++) if (i % 3 == 2) g.e.insert({i + 1, 0, i}); else g.e.insert({i, 0, i + 1}); });
        add("tree", 31, [](Gr& g) { for (int i = 1; i < 31; i++) g.e.insert({(i - 1) / 2, i % 2, i}); });
        add("tree upwards", 31, [](Gr& g) { for (int i = 1; i < 31; i++) g.e.insert({i, 0, (i - 1) / 2}); });
        add("grid", 30, [](Gr& g) { for (int i = 0; i < 5; i++) for (int j = 0; j < 6; j++) { if (j < 5) g.e.insert({i * 6 + j, 0, i * 6 + j + 1}); if (i < 4) g.e.insert({i * 6 + j, 1, i * 6 + j + 6}); } });
        add("brooms", 37, [](Gr& g) { for (int i = 1; i <= 11; i++) { g.e.insert({0, 0, i}); g.e.insert({i == 7 ? 23 : 24 + i, 0, 36}); } for (int i = 11; i < 23; i++) g.e.insert({i, 0, i + 1}); });
        add("caterpillar", 36, [](Gr& g) { for (int i = 0; i < 11; i++) g.e.insert({i, 0, i + 1}); for (int i = 0; i < 24; i++) g.e.insert({i / 2, 1, 12 + i}); });
        add("bipartite", 14, [](Gr& g) { for (int i = 0; i < 6; i++) for (int j = 6; j < 14; j++) g.e.insert({i, 0, j}); g.e.insert({13, 0, 0}); });
        add("parallel", 20, [](Gr& g) { for (int i = 0; i + 4 < 20; i++) { g.e.insert({i, 0, i + 4}); if (i % 4 == 0) g.e.insert({i, 1, i + 5}); } });
        vector<std::pair<int, int>> c; for (size_t i = 0; i < sh.size(); i++) { std::set<int> us = {0, 1, sh[i].g.n / 3, sh[i].g.n / 2, sh[i].g.n - 2, sh[i].g.n - 1}; if (th) for (int k = 0; k < sh[i].g.n; k++) us.insert(k); for (int u : us) c.push_back({(int)i, u}); c.push_back({(int)i, -1}); }
        X.run("long", c.size(), init, [&](Worker& W, long t) {
            auto& s = sh[c[t].first]; int u = c[t].second; G = s.g; VARIANT = "long"; usesVar = several = false; WW = &W; W.sh->states++; QTAIL = "{}";
            buildDB(DBN, ntOf(G)); DB = openDB(DBN); bool labels = false; std::set<int> on; for (auto& e : G.e) labels |= e.p, on.insert(e.s), on.insert(e.o);
            if (u >= 0 && !on.count(u)) { close_(W); return; }
            for (int dir = 0; dir < 2; dir++) for (int ps = labels ? 1 : 3; ps <= 3; ps++) {
                if (u < 0) { graphFns(dir, ps, false); continue; }
                SRC = u; View w(G, dir, ps); int mx = 0; for (int x : w.dist(u)) mx = std::max(mx, x);
                for (int v = 0; v < G.n; v++) if (on.count(v)) { pairFns(u, v, dir, ps, std::min(mx + 1, G.n)); W.beat(); }
                vertexFns(u, dir, ps, std::min(mx + 1, G.n), false);
            }
            W.sample(s.name + " " + show(G)); close_(W); });
    }
    // a database loaded with its adjacency lists in memory, queried, changed by one edge, and queried again
    { auto ms = space(3, 1, false, true); 
      X.run("updated", ms.size() * 6, init, [&](Worker& W, long t) {
        Gr a = fromMask(3, 1, false, ms[t / 6]); long bit = t % 6; Gr b = fromMask(3, 1, false, ms[t / 6] ^ (1L << bit)); usesVar = false;
        buildDB(DBN, ntOf(a)); DB = new Database(DBN); DB->load(true); VARIANT = "updated"; G = a; all(W, false, false, 2);
        auto e = *fromMask(3, 1, false, 1L << bit).e.begin(); string tr = V(e.s) + " " + PN[0] + " " + V(e.o) + " .";
        if (b.e.size()) { ask(DB, (b.e.size() > a.e.size() ? "INSERT DATA { " : "DELETE DATA { ") + tr + " }", true); G = b; all(W, false, false, 2); }
        close_(W); }); }
    X.rule = "every function's answer is parsed and compared with the definition evaluated on the graph: paths must be walks of existing, allowed edges between the right ends and of the right length; counts, distances, components and coefficients must be equal";
    X.boundsText = th ? "all graphs on 3 vertices with 2 predicates, on 3 vertices with loops; all graphs on 4 and 5 vertices up to isomorphism" : "all graphs up to isomorphism on 3 vertices with 2 predicates, 3 vertices with loops, 4 vertices; every ordered pair, direction and predicate set, k up to 3; shapes of up to 37 vertices with every k";
    return X.finish();
}
