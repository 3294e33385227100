// Expressions in FILTER and BIND over a table of terms of every kind, row by row against the reference.
#include "algebra.h"
using namespace gs;

static vector<string> VAL;
static Graph G1;
static void values() {
    auto t = [](const string& v, const string& d) { return tyLit(v, d); };
    VAL = {"<i>", "<j>", "\"\"", "\"a\"", "\"b\"", "\"abc\"", "\"a@b\"", "\"B c\"", "\"12\"", "\"a\"@en", "\"Ab\"@en-GB", "\"a\"@fr", t("a", "string"), t("abc", "string"),
           t("0", "integer"), t("1", "integer"), t("-2", "integer"), t("12", "integer"), t("2.5", "decimal"), t("1.0", "decimal"), t("0.0", "decimal"), t("-2", "float"), t("2.5", "float"), t("1", "double"), t("-0.5", "double"),
           t("7", "long"), t("true", "boolean"), t("false", "boolean"), t("2020-01-02T03:04:05", "dateTime"), t("2020-11-02T23:04:05", "dateTime"), t("1999-12-31T23:59:59", "dateTime"), "\"a\"^^<dt>", "\"b\"^^<dt>"};
    for (size_t i = 0; i < VAL.size(); i++) { string n = "<s" + num(i) + ">"; G1.insert({n, "<val>", VAL[i]}); if (i % 3 == 0) G1.insert({n, "<opt>", VAL[(i * 7 + 3) % VAL.size()]}); }
}
struct X3 { int k; string v; };   // k 0: error, 1: value, 2: not defined by the property
// Reference value; k == 2 where the property leaves the result open.
static X3 ev(const Expr& e, const Bind& b);
static X3 B(bool x) { return {1, x ? tyLit("true", "boolean") : tyLit("false", "boolean")}; }
static int eb(const X3& x) { return x.k == 2 ? 3 : x.k == 0 ? 2 : ebv(OptS(x.v)); }   // 3: open
static bool simple(const Lit& l) { return l.lit && l.lang.empty() && (l.dt.empty() || l.dt == XSD + "string"); }
static X3 cmp(const string& o, const X3& x, const X3& y) {
    if (x.k == 0 || y.k == 0) return {0, ""}; if (x.k == 2 || y.k == 2) return {2, ""};
    Lit a = parseTerm(x.v), b = parseTerm(y.v);
    bool eq = o == "=" || o == "!=";
    auto cls = [](const Lit& l) { return l.iri ? 0 : numRank(l) ? 1 : l.dt == XSD + "boolean" ? 2 : l.dt == XSD + "dateTime" ? 3 : !l.lang.empty() ? 4 : l.dt.empty() ? 5 : l.dt == XSD + "string" ? 6 : 7; };
    int ca = cls(a), cb = cls(b);
    if (ca == cb && (ca == 1 || ca == 2 || ca == 3 || ca == 5 || ca == 6)) { OptS r = evalExpr(Expr(o, {Expr(x.v), Expr(y.v)}), Bind()); return r.ok ? X3{1, r.v} : X3{0, ""}; }
    if (ca == cb && ca == 0 && !eq) return {2, ""};        // an order of IRIs is an extension of the engine
    if (ca == 4 && cb == 4 && !eq) return {2, ""};
    if ((ca == 4 && cb == 5) || (ca == 5 && cb == 4)) { if (!eq) return {2, ""}; return B(o == "!="); }
    if (ca != cb && ca >= 5 && cb >= 5 && ca < 7 && cb < 7) return {2, ""};   // plain against xsd:string
    if (!eq) return {0, ""};
    if (x.v == y.v) return B(o == "=");
    if (ca == 0 || cb == 0) return B(o == "!=");
    if (ca == 4 && cb == 4) return B(o == "!=");
    if (o == "=") return {3, ""};                         // false or an error: not true
    return {2, ""};
}
static X3 ev(const Expr& e, const Bind& b) {
    const string& o = e.op;
    if (o.empty()) { OptS r = evalExpr(e, b); return r.ok ? X3{1, r.v} : X3{0, ""}; }
    if (o == "chain") {   // a o1 b o2 c without brackets: multiplication binds tighter, otherwise from the left
        string o1 = e.a[3].leaf, o2 = e.a[4].leaf; bool hi1 = o1 == "*" || o1 == "/", hi2 = o2 == "*" || o2 == "/";
        auto lvl = [](const string& s) { return s == "||" ? 0 : s == "&&" ? 1 : s == "=" || s == "<" ? 2 : s == "+" || s == "-" ? 3 : 4; };
        (void)hi1; (void)hi2;
        if (lvl(o2) > lvl(o1)) return ev(Expr(o1, {e.a[0], Expr(o2, {e.a[1], e.a[2]})}), b);
        return ev(Expr(o2, {Expr(o1, {e.a[0], e.a[1]}), e.a[2]}), b);
    }
    if (o == "BOUND") return B(b.count(e.a[0].leaf));
    if (o == "!") { int v = eb(ev(e.a[0], b)); return v == 3 ? X3{2, ""} : v == 2 ? X3{0, ""} : B(!v); }
    if (o == "&&" || o == "||") {
        int x = eb(ev(e.a[0], b)), y = eb(ev(e.a[1], b)); int z = o == "&&" ? 0 : 1;
        if (x == z || y == z) return B(z);
        if (x == 3 || y == 3) return {2, ""};
        if (x == 2 || y == 2) return {0, ""};
        return B(!z);
    }
    if (o == "IF") { int c = eb(ev(e.a[0], b)); return c == 3 ? X3{2, ""} : c == 2 ? X3{0, ""} : ev(e.a[c ? 1 : 2], b); }
    if (o == "IN" || o == "NOT IN") {
        bool err = false, open = false; X3 x = ev(e.a[0], b);
        for (size_t i = 1; i < e.a.size(); i++) { X3 c = cmp("=", x, ev(e.a[i], b)); if (c.k == 1 && ebv(OptS(c.v)) == 1) return B(o == "IN"); if (c.k == 0) err = true; if (c.k > 1) open = true; }
        return open ? X3{2, ""} : err ? X3{0, ""} : B(o != "IN");
    }
    vector<X3> v; for (auto& x : e.a) v.push_back(ev(x, b));
    for (auto& x : v) if (x.k == 0) return {0, ""};
    for (auto& x : v) if (x.k >= 2) return {2, ""};
    if (o == "=" || o == "!=" || o == "<" || o == ">" || o == "<=" || o == ">=") { X3 r = cmp(o, v[0], v[1]); if (r.k == 3) r.k = 2; return r; }
    vector<Lit> l; for (auto& x : v) l.push_back(parseTerm(x.v));
    if ((o == "STR" || o == "DATATYPE") && !e.a[0].op.empty() && numRank(l[0])) return {2, ""};   // how a computed number is written
    if (o == "-" && v.size() == 2 && l[0].dt == XSD + "dateTime" && l[1].dt == l[0].dt) return {2, ""};   // the engine's own dateTime difference
    if (o == "CONCAT") { string s; for (auto& x : l) { if (!x.lit || !(x.dt.empty() || x.dt == XSD + "string")) return {0, ""}; s += x.val; } return {1, "\"" + s + "\""}; }
    if (o == "REGEX") {
        if (!l[0].lit || !(l[0].dt.empty() || l[0].dt == XSD + "string")) return {0, ""};
        string re = l[1].val, f = l.size() > 2 ? l[2].val : ""; string s = l[0].val; if (f == "i") { for (auto& c : s) c = tolower(c); for (auto& c : re) c = tolower(c); }
        // the patterns used are plain text with an optional ^ and $
        bool st = !re.empty() && re[0] == '^', en = !re.empty() && re.back() == '$'; string m = re.substr(st, re.size() - st - en);
        if (st && en) return B(s == m); if (st) return B(s.compare(0, m.size(), m) == 0); if (en) return B(s.size() >= m.size() && s.substr(s.size() - m.size()) == m);
        return B(s.find(m) != string::npos);
    }
    if (o == "CONTAINS" || o == "STRSTARTS") { if (l[0].lit && l[1].lit && ((l[0].dt == XSD + "string" && !l[1].lang.empty()) || (!l[0].lang.empty() && l[1].dt == XSD + "string"))) return {2, ""}; }
    OptS r = evalExpr(Expr(o, [&] { vector<Expr> a; for (auto& x : v) a.push_back(Expr(x.v)); return a; }()), Bind());
    return r.ok ? X3{1, r.v} : X3{0, ""};
}
static string txt(const Expr& e, bool top = true) {
    if (e.op == "chain") return e.a[0].leaf + " " + e.a[3].leaf + " " + e.a[1].leaf + " " + e.a[4].leaf + " " + e.a[2].leaf;
    if (e.op.empty()) return e.leaf;
    string s;
    if (e.fun()) { s = e.op + "("; for (size_t i = 0; i < e.a.size(); i++) s += (i ? ", " : "") + txt(e.a[i]); return s + ")"; }
    if (e.op == "IN" || e.op == "NOT IN") { s = txt(e.a[0], false) + " " + e.op + " ("; for (size_t i = 1; i < e.a.size(); i++) s += (i > 1 ? ", " : "") + txt(e.a[i]); s += ")"; }
    else if (e.a.size() == 1) s = e.op + txt(e.a[0], false);
    else for (size_t i = 0; i < e.a.size(); i++) s += (i ? " " + e.op + " " : "") + txt(e.a[i], false);
    return top ? s : "(" + s + ")";
}
static bool hasFun(const Expr& e) { if (!e.op.empty() && e.op != "chain" && (e.fun() || e.op == "IN" || e.op == "NOT IN")) return true; for (auto& x : e.a) if (hasFun(x)) return true; return false; }   // SELECT supports operators only
static Database* db;
// the context: 0 ?a per row; 1 ?a and ?b all pairs; 2 ?a with ?b from an OPTIONAL; 3 ?a given by BIND of a string column
struct Cx { string where; vector<Bind> rows; vector<string> key; };
static vector<Cx> CX;
static void contexts() {
    auto mk = [](const Group& g, vector<string> key) { Cx c; c.where = g.text(); c.rows = evalGroup(G1, g); c.key = key; CX.push_back(c); };
    mk(Group{{T({{"?x", "<val>", "?a"}})}}, {"?x"});
    mk(Group{{T({{"?x", "<val>", "?a"}}), T({{"?y", "<val>", "?b"}})}}, {"?x", "?y"});
    mk(Group{{T({{"?x", "<val>", "?a"}}), Opt({T({{"?x", "<opt>", "?b"}})})}}, {"?x"});
    mk(Group{{Un({{T({{"?x", "<val>", "?a"}})}, {T({{"?x", "<opt>", "?b"}})}})}}, {});   // (only FILTER, whole rows)
    mk(Group{{T({{"?x", "<val>", "?v"}}), Bnd(Expr("?v"), "?a"), Opt({T({{"?x", "<opt>", "?b"}})})}}, {"?x"});
}
static string same(const X3& want, const string& got) {
    if (want.k >= 2) return "";
    if (want.k == 0) return got.empty() ? "" : "no value (error)";
    if (want.v == got) return "";
    Lit a = parseTerm(want.v), b = parseTerm(got);
    if (numRank(a) && numRank(a) == numRank(b) && fabs(atof(a.val.c_str()) - atof(b.val.c_str())) <= 1e-5 * std::max(1.0, fabs(atof(a.val.c_str())))) return "";
    return want.v;
}
static string check(const Cx& c, const Expr& e, int bind, Worker& W) {
    string vars; for (auto& k : c.key) vars += " " + k; if (c.key.empty()) vars = " ?x ?a ?b";
    vector<string> key = c.key.empty() ? vector<string>{"?x", "?a", "?b"} : c.key;
    string q = bind == 2 ? "SELECT" + vars + " ( " + txt(e) + " AS ?res ) WHERE { " + c.where + "}" : bind ? "SELECT" + vars + " ?res WHERE { " + c.where + "BIND( " + txt(e) + " AS ?res ) }" : "SELECT" + vars + " WHERE { " + c.where + "FILTER( " + txt(e) + " ) }";
    Res r = ask(db, q); W.sh->execs++; W.sh->transitions += c.rows.size();
    if (r.threw) return q + "\n  threw " + r.err;
    if (r.code != -100) return q + "\n  returned code " + num(r.code);
    std::map<vector<string>, vector<string>> got; for (auto& x : r.rows) { vector<string> k(x.begin(), x.begin() + key.size()); got[k].push_back(bind ? x.back() : ""); }
    string out;
    for (auto& b : c.rows) {
        vector<string> k; for (auto& v : key) { auto it = b.find(v); k.push_back(it == b.end() ? "" : it->second); }
        X3 w = ev(e, b); auto it = got.find(k);
        string in; for (auto& x : b) in += x.first + "=" + x.second + " ";
        size_t n = it == got.end() ? 0 : it->second.size();
        if (bind) { if (n != 1) return q + "\n  " + num(n) + " rows for " + in; string d = same(w, it->second[0]); if (!d.empty()) return q + "\n  for " + in + "\n  expected " + d + "\n  got      " + it->second[0]; W.outcome(it->second[0]); }
        else {
            int t = eb(w); if (w.k == 1 && !(parseTerm(w.v).lit)) t = 2;
            if (t == 3) { if (n > 1) return q + "\n  a row repeated: " + in; } else if (n != (t == 1 ? 1u : 0u)) return q + "\n  for " + in + "\n  the condition is " + (t == 1 ? "true" : t == 0 ? "false" : "an error") + " but the row occurs " + num(n) + " times";
            W.outcome(txt(e) + num(n));
        }
        got.erase(k);
    }
    if (!got.empty()) return q + "\n  an additional row";
    return out;
}
struct Case { int cx; Expr e; int bind; };
int main(int argc, char** argv) {
    Explorer X("C05", argc, argv); bool th = X.argThorough();
    values(); contexts();
    vector<Case> cs;
    auto both = [&](int c, const Expr& e) { cs.push_back({c, e, 1}); cs.push_back({c, e, 0}); if (!hasFun(e)) cs.push_back({c, e, 2}); };
    Expr a("?a"), b("?b");
    vector<string> F1 = {"STR", "LANG", "DATATYPE", "ISIRI", "ISURI", "ISLITERAL", "ISNUMERIC", "UCASE", "LCASE", "ABS", "YEAR", "MONTH", "DAY", "HOURS", "MINUTES"};
    vector<string> CMP = {"=", "!=", "<", ">", "<=", ">="}, AR = {"+", "-", "*", "/"}, LO = {"&&", "||"};
    vector<Expr> un; un.push_back(a); for (auto& f : F1) un.push_back(Expr(f, {a})); un.push_back(Expr("!", {a})); un.push_back(Expr("-", {a}));
    for (auto& e : un) both(0, e);
    for (auto& f : F1) for (auto& g : F1) both(0, Expr(f, {Expr(g, {a})}));
    for (auto& e : un) both(0, Expr("!", {e}));
    for (auto& v : {"?a", "?b"}) { both(2, Expr("BOUND", {Expr(v)})); both(2, Expr("!", {Expr("BOUND", {Expr(v)})})); cs.push_back({3, Expr("BOUND", {Expr(v)}), false}); }
    for (auto& e : un) both(4, e);
    for (auto& f : F1) both(4, Expr("!=", {Expr(f, {a}), b}));
    vector<string> ops = CMP; ops.insert(ops.end(), AR.begin(), AR.end()); ops.insert(ops.end(), LO.begin(), LO.end());
    vector<string> F2 = {"CONTAINS", "STRSTARTS", "CONCAT"};
    for (auto& o : ops) { both(1, Expr(o, {a, b})); both(2, Expr(o, {a, b})); both(2, Expr(o, {b, a})); both(4, Expr(o, {b, a})); for (auto& v : VAL) { both(0, Expr(o, {a, Expr(v)})); both(0, Expr(o, {Expr(v), a})); } }
    for (auto& o : F2) { both(1, Expr(o, {a, b})); both(2, Expr(o, {a, b})); for (auto& v : VAL) { both(0, Expr(o, {a, Expr(v)})); both(0, Expr(o, {Expr(v), a})); } }
    for (auto& o : ops) for (auto& f : F1) { both(0, Expr(o, {Expr(f, {a}), a})); both(1, Expr(o, {Expr(f, {a}), b})); both(2, Expr(o, {b, Expr(f, {a})})); if (th) both(1, Expr(o, {Expr(f, {a}), Expr(f, {b})})); }
    for (auto& f : F2) for (auto& g : F1) { both(1, Expr(f, {Expr(g, {a}), b})); both(1, Expr(f, {b, Expr(g, {a})})); }
    // conditions that are true, false or an error, combined
    vector<Expr> C = {Expr("=", {a, b}), Expr("<", {a, b}), Expr("BOUND", {b}), Expr("ISIRI", {a}), Expr("ISNUMERIC", {b}), Expr(">", {a, Expr(tyLit("0", "integer"))}), Expr("CONTAINS", {Expr("STR", {a}), Expr("\"a\"")}), a, b, Expr("!=", {a, Expr("\"a\"")}), Expr("!", {b}), Expr("&&", {a, b}), Expr("||", {Expr("ISLITERAL", {a}), Expr("<", {b, Expr(tyLit("2", "integer"))})})};
    for (auto& x : C) for (auto& y : C) for (auto& o : LO) { both(1, Expr(o, {x, y})); both(2, Expr(o, {x, y})); cs.push_back({3, Expr(o, {x, y}), false}); both(2, Expr("!", {Expr(o, {x, y})})); }
    for (auto& x : C) { both(1, Expr("IF", {x, a, b})); both(2, Expr("IF", {x, b, a})); both(1, Expr("IF", {x, Expr("STR", {b}), Expr("+", {a, Expr(tyLit("1", "integer"))})})); both(2, Expr("!", {x})); if (th) for (auto& y : C) for (auto& z : C) { both(2, Expr("IF", {x, y, z})); both(2, Expr("&&", {x, Expr("||", {y, z})})); } }
    vector<vector<Expr>> lists = {{a}, {b}, {Expr("\"a\"")}, {Expr("<i>"), Expr("\"b\"")}, {Expr(tyLit("1", "integer")), b}, {b, Expr("<j>"), Expr(tyLit("2.5", "decimal"))}, {Expr("\"a\"@en"), Expr("\"abc\""), a}, {Expr(tyLit("true", "boolean")), Expr("STR", {b})}};
    for (auto& l : lists) for (auto& o : {"IN", "NOT IN"}) { vector<Expr> k = {a}; k.insert(k.end(), l.begin(), l.end()); both(1, Expr(o, k)); both(2, Expr(o, k)); k[0] = Expr("STR", {a}); both(1, Expr(o, k)); }
    for (auto& re : {"\"a\"", "\"^a\"", "\"b$\"", "\"^a$\"", "\"B\""}) { both(0, Expr("REGEX", {a, Expr(re)})); both(0, Expr("REGEX", {Expr("STR", {a}), Expr(re)})); both(0, Expr("REGEX", {a, Expr(re), Expr("\"i\"")})); both(2, Expr("REGEX", {b, Expr(re)})); }
    for (auto& rg : {"\"en\"", "\"EN\"", "\"*\"", "\"fr\"", "\"en-GB\"", "\"e\""}) both(0, Expr("LANGMATCHES", {Expr("LANG", {a}), Expr(rg)}));
    for (auto& o1 : AR) for (auto& o2 : AR) for (auto& k : {tyLit("2", "integer"), tyLit("0.5", "decimal")}) both(1, Expr("chain", {a, b, Expr(k), Expr(o1), Expr(o2)}));
    for (auto& o1 : {"||", "&&"}) for (auto& o2 : {"||", "&&"}) both(1, Expr("chain", {a, b, Expr(tyLit("true", "boolean")), Expr(o1), Expr(o2)}));
    for (auto& o1 : AR) for (auto& o2 : {"=", "<"}) { both(1, Expr("chain", {a, Expr(tyLit("1", "integer")), b, Expr(o1), Expr(o2)})); both(1, Expr("chain", {a, b, Expr(tyLit("1", "integer")), Expr(o2), Expr(o1)})); }
    both(0, Expr("CONCAT", {a, Expr("\"-\""), Expr("STR", {a})})); both(2, Expr("CONCAT", {a, Expr("\"-\""), b}));
    const int chunk = 10; long n = (cs.size() + chunk - 1) / chunk;
    X.run("expr", n, [&](Worker& W) { libInit(100); buildDB("e", ntg(G1)); db = openDB("e"); }, [&](Worker& W, long t) {
        for (long i = t * chunk; i < std::min<long>(cs.size(), (t + 1) * chunk); i++) {
            string sig = string(cs[i].bind == 2 ? "select " : cs[i].bind ? "bind " : "filter ") + num(cs[i].cx) + " " + txt(cs[i].e);
            W.at(sig); string e = check(CX[cs[i].cx], cs[i].e, cs[i].bind, W); W.sh->states++;
            if (!e.empty()) W.fail(sig, e);
            if (i % 397 == 0) W.sample(sig);
        }
    });
    X.rule = "Every expression of the family in FILTER and in BIND, on every row (all pairs of the values) of a table with one term of each kind; each row is compared with the reference value.";
    X.boundsText = num(cs.size()) + " expressions over " + num(VAL.size()) + " terms";
    return X.finish();
}
