// Reference evaluator of the SPARQL algebra: solution multisets over lexical terms, straight from the definitions.
#pragma once
#include "model.h"
#include <cmath>
namespace gs {
// ---------------------------------------------------------------- terms
static const string XSD = "http://www.w3.org/2001/XMLSchema#";
inline string tyLit(const string& v, const string& t) { return "\"" + v + "\"^^<" + XSD + t + ">"; }
struct Lit { bool lit = false, iri = false; string val, lang, dt; };
inline Lit parseTerm(const string& t) {
    Lit l; if (t.empty()) return l;
    if (t[0] == '<') { l.iri = true; l.val = t.substr(1, t.size() - 2); return l; }
    l.lit = true; size_t q = t.rfind('"'); l.val = t.substr(1, q - 1);
    string r = t.substr(q + 1);
    if (r.size() > 1 && r[0] == '@') l.lang = r.substr(1);
    else if (r.size() > 3 && r.compare(0, 3, "^^<") == 0) l.dt = r.substr(3, r.size() - 4);
    return l;
}
inline int numRank(const Lit& l) {   // 0: not numeric
    if (!l.lit) return 0;
    if (l.dt == XSD + "integer" || l.dt == XSD + "int" || l.dt == XSD + "long") return 1;
    if (l.dt == XSD + "decimal") return 2;
    if (l.dt == XSD + "float") return 3;
    if (l.dt == XSD + "double") return 4;
    return 0;
}
struct OptS { bool ok = false; string v; OptS() {} OptS(const string& s) : ok(true), v(s) {} };
inline OptS boolT(bool b) { return OptS(tyLit(b ? "true" : "false", "boolean")); }
inline int ebv(const OptS& x) {   // 0, 1, 2 = error
    if (!x.ok || x.v.empty()) return 2;
    Lit l = parseTerm(x.v);
    if (l.dt == XSD + "boolean") return l.val == "true" || l.val == "1";
    if (numRank(l)) return atof(l.val.c_str()) != 0;
    if (l.lit && (l.dt.empty() || l.dt == XSD + "string") && l.lang.empty()) return !l.val.empty();
    return 2;
}
struct Expr {
    string op;              // "" for a leaf
    string leaf;            // variable or term
    vector<Expr> a;
    Expr() {}
    Expr(const string& l) : leaf(l) {}
    Expr(const char* l) : leaf(l) {}
    Expr(const string& o, vector<Expr> x) : op(o), a(x) {}
    bool fun() const { return !op.empty() && isalpha(op[0]) && op != "IN" && op != "NOT IN"; }
    string text(bool top = true) const {
        if (op.empty()) return leaf;
        string s;
        if (fun()) { s = op + "("; for (size_t i = 0; i < a.size(); i++) s += (i ? ", " : "") + a[i].text(); return s + ")"; }
        if (op == "IN" || op == "NOT IN") { s = a[0].text(false) + " " + op + " ("; for (size_t i = 1; i < a.size(); i++) s += (i > 1 ? ", " : "") + a[i].text(); s += ")"; }
        else if (a.size() == 1) s = op + a[0].text(false);
        else for (size_t i = 0; i < a.size(); i++) s += (i ? " " + op + " " : "") + a[i].text(false);
        return top ? s : "(" + s + ")";
    }
};
inline void exprVars(const Expr& e, std::set<string>& v) { if (e.op.empty()) { if (isVar(e.leaf)) v.insert(e.leaf); } for (auto& x : e.a) exprVars(x, v); }
inline string fmtNum(double d, int rank);
inline OptS evalExpr(const Expr& e, const Bind& b) {
    if (e.op.empty()) { if (!isVar(e.leaf)) return OptS(e.leaf); auto it = b.find(e.leaf); return it == b.end() ? OptS() : OptS(it->second); }
    const string& o = e.op;
    if (o == "BOUND") return boolT(b.count(e.a[0].leaf) > 0);
    if (o == "!") { int v = ebv(evalExpr(e.a[0], b)); return v == 2 ? OptS() : boolT(!v); }
    if (o == "&&" || o == "||") {
        int x = ebv(evalExpr(e.a[0], b)), y = ebv(evalExpr(e.a[1], b));
        if (o == "&&") { if (x == 0 || y == 0) return boolT(false); if (x == 2 || y == 2) return OptS(); return boolT(true); }
        if (x == 1 || y == 1) return boolT(true); if (x == 2 || y == 2) return OptS(); return boolT(false);
    }
    if (o == "IF") { int c = ebv(evalExpr(e.a[0], b)); return c == 2 ? OptS() : evalExpr(e.a[c ? 1 : 2], b); }
    if (o == "IN" || o == "NOT IN") {
        bool err = false;
        for (size_t i = 1; i < e.a.size(); i++) { int v = ebv(evalExpr(Expr("=", {e.a[0], e.a[i]}), b)); if (v == 1) return boolT(o == "IN"); if (v == 2) err = true; }
        return err ? OptS() : boolT(o != "IN");
    }
    vector<OptS> v; for (auto& x : e.a) { v.push_back(evalExpr(x, b)); if (!v.back().ok) return OptS(); }
    vector<Lit> l; for (auto& x : v) l.push_back(parseTerm(x.v));
    auto simple = [](const Lit& x) { return x.lit && x.lang.empty() && (x.dt.empty() || x.dt == XSD + "string"); };
    if (o == "=" || o == "!=" || o == "<" || o == ">" || o == "<=" || o == ">=") {
        int c;   // -1, 0, 1
        if (numRank(l[0]) && numRank(l[1])) { double x = atof(l[0].val.c_str()), y = atof(l[1].val.c_str()); c = x < y ? -1 : x > y; }
        else if (simple(l[0]) && simple(l[1])) { int k = l[0].val.compare(l[1].val); c = k < 0 ? -1 : k > 0; }
        else if (l[0].dt == XSD + "boolean" && l[1].dt == XSD + "boolean") { int x = ebv(v[0]), y = ebv(v[1]); c = x < y ? -1 : x > y; }
        else if (l[0].dt == XSD + "dateTime" && l[1].dt == XSD + "dateTime") { int k = l[0].val.compare(l[1].val); c = k < 0 ? -1 : k > 0; }
        else if (o == "=" || o == "!=") {
            bool same = v[0].v == v[1].v;
            return boolT(o == "=" ? same : !same);
        } else return OptS();
        return boolT(o == "=" ? c == 0 : o == "!=" ? c != 0 : o == "<" ? c < 0 : o == ">" ? c > 0 : o == "<=" ? c <= 0 : c >= 0);
    }
    if ((o == "+" || o == "-" || o == "*" || o == "/") && v.size() == 2) {
        int r0 = numRank(l[0]), r1 = numRank(l[1]); if (!r0 || !r1) return OptS();
        double x = atof(l[0].val.c_str()), y = atof(l[1].val.c_str()); int r = std::max(r0, r1);
        if (o == "/" && r == 1) r = 2;
        if (o == "/" && y == 0 && r <= 2) return OptS();
        return OptS(fmtNum(o == "+" ? x + y : o == "-" ? x - y : o == "*" ? x * y : x / y, r));
    }
    if (o == "-" && v.size() == 1) { int r = numRank(l[0]); if (!r) return OptS(); return OptS(fmtNum(-atof(l[0].val.c_str()), r)); }
    if (o == "STR") return OptS("\"" + l[0].val + "\"");
    if (o == "LANG") { if (!l[0].lit) return OptS(); return OptS("\"" + l[0].lang + "\""); }
    if (o == "DATATYPE") { if (!l[0].lit) return OptS(); string d = !l[0].dt.empty() ? l[0].dt : l[0].lang.empty() ? XSD + "string" : "http://www.w3.org/1999/02/22-rdf-syntax-ns#langString"; return OptS("<" + d + ">"); }
    if (o == "ISIRI" || o == "ISURI") return boolT(l[0].iri);
    if (o == "ISLITERAL") return boolT(l[0].lit);
    if (o == "ISNUMERIC") return boolT(numRank(l[0]) > 0);
    auto str = [](const Lit& x) { return x.lit && (x.dt.empty() || x.dt == XSD + "string"); };
    if (o == "UCASE" || o == "LCASE") {
        if (!str(l[0])) return OptS(); string s = l[0].val; for (auto& c : s) c = o == "UCASE" ? toupper(c) : tolower(c);
        return OptS("\"" + s + "\"" + (l[0].lang.empty() ? "" : "@" + l[0].lang) + (l[0].dt.empty() ? "" : "^^<" + l[0].dt + ">"));
    }
    if (o == "CONTAINS" || o == "STRSTARTS") {
        if (!str(l[0]) || !str(l[1]) || (!l[1].lang.empty() && l[1].lang != l[0].lang)) return OptS();
        size_t p = l[0].val.find(l[1].val); return boolT(o == "CONTAINS" ? p != string::npos : p == 0);
    }
    if (o == "LANGMATCHES") {
        if (!str(l[0]) || !str(l[1])) return OptS();
        string x = l[0].val, y = l[1].val; for (auto& c : x) c = tolower(c); for (auto& c : y) c = tolower(c);
        if (y == "*") return boolT(!x.empty());
        return boolT(x == y || (x.size() > y.size() && x.compare(0, y.size(), y) == 0 && x[y.size()] == '-'));
    }
    if (o == "ABS") { int r = numRank(l[0]); if (!r) return OptS(); return OptS(fmtNum(fabs(atof(l[0].val.c_str())), r)); }
    if (o == "YEAR" || o == "MONTH" || o == "DAY" || o == "HOURS" || o == "MINUTES") {
        if (l[0].dt != XSD + "dateTime") return OptS();
        int Y, M, D, h, m; if (sscanf(l[0].val.c_str(), "%d-%d-%dT%d:%d", &Y, &M, &D, &h, &m) != 5) return OptS();
        return OptS(tyLit(num(o == "YEAR" ? Y : o == "MONTH" ? M : o == "DAY" ? D : o == "HOURS" ? h : m), "integer"));
    }
    fprintf(stderr, "evalExpr: %s\n", o.c_str()); abort();
}
inline string fmtNum(double d, int rank) {
    if (rank == 1) return tyLit(num((long long)d), "integer");
    char b[64]; snprintf(b, sizeof b, "%.10g", d); return tyLit(b, rank == 2 ? "decimal" : rank == 3 ? "float" : "double");
}
// terms equal up to the spelling of numbers
inline bool sameTerm(const string& x, const string& y) {
    if (x == y) return true;
    Lit a = parseTerm(x), b = parseTerm(y);
    if (numRank(a) && numRank(b)) return fabs(atof(a.val.c_str()) - atof(b.val.c_str())) <= 1e-5 * std::max(1.0, fabs(atof(a.val.c_str())));
    return false;
}
// ---------------------------------------------------------------- groups and queries
struct Query;
struct Elem;
struct Group { vector<Elem> e; string text() const; };
struct Elem {
    enum K { Triples, Opt, Union, Minus, Filter, BindE, Sub, Braces } k;
    vector<T3> t; vector<Group> g; Expr x; string var; std::shared_ptr<Query> q;
};
struct Agg { string fn; bool distinct = false; string arg, as; };   // fn "" : plain variable `as`; fn "expr": x
struct Proj { string var; string agg; bool distinct = false; string arg; bool isExpr = false; Expr x; };
struct Query {
    bool star = false, distinct = false, ask = false; vector<Proj> proj; Group w; vector<string> groupBy; vector<std::pair<string, bool>> orderBy; int limit = -1, offset = 0;
    string text() const {
        string s;
        if (ask) s = "ASK";
        else { s = "SELECT"; if (distinct) s += " DISTINCT"; if (star) s += " *";
            for (auto& p : proj) {
                if (p.isExpr) s += " (" + p.x.text() + " AS " + p.var + ")";
                else if (p.agg.empty()) s += " " + p.var;
                else s += " (" + p.agg + "(" + (p.distinct ? "DISTINCT " : "") + p.arg + ") AS " + p.var + ")"; } }
        s += " WHERE { " + w.text() + "}";
        if (!groupBy.empty()) { s += " GROUP BY"; for (auto& v : groupBy) s += " " + v; }
        if (!orderBy.empty()) { s += " ORDER BY"; for (auto& v : orderBy) s += v.second ? " DESC(" + v.first + ")" : " ASC(" + v.first + ")"; }
        if (limit >= 0) s += " LIMIT " + num(limit);
        if (offset) s += " OFFSET " + num(offset);
        return s;
    }
};
inline string Group::text() const {
    string s; 
    for (auto& x : e) switch (x.k) {
        case Elem::Triples: s += patStr(x.t); break;
        case Elem::Opt: s += "OPTIONAL { " + x.g[0].text() + "} "; break;
        case Elem::Minus: s += "MINUS { " + x.g[0].text() + "} "; break;
        case Elem::Braces: s += "{ " + x.g[0].text() + "} "; break;
        case Elem::Union: for (size_t i = 0; i < x.g.size(); i++) s += (i ? "UNION { " : "{ ") + x.g[i].text() + "} "; break;
        case Elem::Filter: s += "FILTER ( " + x.x.text() + " ) "; break;
        case Elem::BindE: s += "BIND ( " + x.x.text() + " AS " + x.var + " ) "; break;
        case Elem::Sub: s += "{ " + x.q->text() + " } "; break;
    }
    return s;
}
typedef vector<Bind> Sols;
inline bool compat(const Bind& a, const Bind& b, bool* shared = nullptr) {
    bool sh = false;
    for (auto& x : a) { auto it = b.find(x.first); if (it != b.end()) { sh = true; if (it->second != x.second) return false; } }
    if (shared) *shared = sh; return true;
}
inline Bind merge(const Bind& a, const Bind& b) { Bind r = a; r.insert(b.begin(), b.end()); return r; }
inline Sols join(const Sols& a, const Sols& b) { Sols r; for (auto& x : a) for (auto& y : b) if (compat(x, y)) r.push_back(merge(x, y)); return r; }
inline Sols evalQuery(const Graph& g, const Query& q);
inline Sols evalGroup(const Graph& g, const Group& gr, bool filters = true) {
    Sols r(1);
    for (auto& e : gr.e) switch (e.k) {
        case Elem::Triples: r = join(r, evalBGP(g, e.t)); break;
        case Elem::Braces: r = join(r, evalGroup(g, e.g[0])); break;
        case Elem::Union: { Sols u; for (auto& x : e.g) { Sols s = evalGroup(g, x); u.insert(u.end(), s.begin(), s.end()); } r = join(r, u); break; }
        case Elem::Sub: r = join(r, evalQuery(g, *e.q)); break;
        case Elem::Minus: {
            Sols m = evalGroup(g, e.g[0]), o;
            for (auto& x : r) { bool keep = true; for (auto& y : m) { bool sh; if (compat(x, y, &sh) && sh) { keep = false; break; } } if (keep) o.push_back(x); }
            r = o; break; }
        case Elem::Opt: {
            Sols m = evalGroup(g, e.g[0], false), o;
            for (auto& x : r) {
                bool any = false;
                for (auto& y : m) if (compat(x, y)) {
                    Bind z = merge(x, y); bool ok = true;
                    for (auto& f : e.g[0].e) if (f.k == Elem::Filter && ebv(evalExpr(f.x, z)) != 1) ok = false;
                    if (ok) { any = true; o.push_back(z); }
                }
                if (!any) o.push_back(x);
            }
            r = o; break; }
        case Elem::BindE: for (auto& x : r) { OptS v = evalExpr(e.x, x); if (v.ok) x[e.var] = v.v; } break;
        case Elem::Filter: break;
    }
    if (filters) for (auto& f : gr.e) if (f.k == Elem::Filter) { Sols o; for (auto& x : r) if (ebv(evalExpr(f.x, x)) == 1) o.push_back(x); r = o; }
    return r;
}
inline void groupVars(const Group& g, vector<string>& v) {
    auto add = [&](const string& s) { if (isVar(s) && std::find(v.begin(), v.end(), s) == v.end()) v.push_back(s); };
    for (auto& e : g.e) {
        for (auto& t : e.t) { add(t.s); add(t.p); add(t.o); }
        if (e.k == Elem::BindE) add(e.var);
        if (e.k == Elem::Sub) { if (e.q->star) groupVars(e.q->w, v); else for (auto& p : e.q->proj) add(p.var); }
        if (e.k != Elem::Minus) for (auto& x : e.g) groupVars(x, v);
    }
}
// -1, 0, 1; 2: not defined between these two.  SPARQL 15.1: unbound < IRI < literal.
inline int orderCmp(const OptS& a, const OptS& b) {
    if (!a.ok || !b.ok) return a.ok == b.ok ? 0 : a.ok ? 1 : -1;
    Lit x = parseTerm(a.v), y = parseTerm(b.v);
    if (x.iri != y.iri) return x.iri ? -1 : 1;
    if (x.iri) { int k = x.val.compare(y.val); return k < 0 ? -1 : k > 0; }
    OptS lt = evalExpr(Expr("<", {Expr(a.v), Expr(b.v)}), Bind()), gt = evalExpr(Expr(">", {Expr(a.v), Expr(b.v)}), Bind());
    if (!lt.ok || !gt.ok) return a.v == b.v ? 0 : 2;
    return ebv(lt) == 1 ? -1 : ebv(gt) == 1 ? 1 : 0;
}
inline OptS aggregate(const Proj& p, const Sols& grp) {
    if (p.agg == "COUNT" && p.arg == "*") {
        if (p.distinct) { std::set<Bind> s(grp.begin(), grp.end()); return OptS(tyLit(num(s.size()), "integer")); }
        return OptS(tyLit(num(grp.size()), "integer"));
    }
    vector<string> v; for (auto& b : grp) { auto it = b.find(p.arg); if (it != b.end()) v.push_back(it->second); }
    if (p.distinct) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
    if (p.agg == "COUNT") return OptS(tyLit(num(v.size()), "integer"));
    if (p.agg == "SUM" || p.agg == "AVG") {
        double s = 0; int r = 1; for (auto& x : v) { Lit l = parseTerm(x); if (!numRank(l)) return OptS(); r = std::max(r, numRank(l)); s += atof(l.val.c_str()); }
        if (p.agg == "SUM") return OptS(fmtNum(s, r));
        if (v.empty()) return OptS(tyLit("0", "integer"));
        return OptS(fmtNum(s / v.size(), std::max(r, 2)));
    }
    if (p.agg == "MIN" || p.agg == "MAX") {
        OptS best; for (auto& x : v) if (!best.ok || orderCmp(OptS(x), best) == (p.agg == "MIN" ? -1 : 1)) best = OptS(x); return best; }
    abort();
}
// solutions restricted to the projection, in no particular order, before LIMIT/OFFSET (ORDER BY checked by the caller)
inline Sols evalUnordered(const Graph& g, const Query& q) {
    Sols w = evalGroup(g, q.w);
    bool agg = !q.groupBy.empty(); for (auto& p : q.proj) if (!p.agg.empty()) agg = true;
    Sols out;
    if (agg) {
        std::map<vector<OptS>, Sols, std::function<bool(const vector<OptS>&, const vector<OptS>&)>> groups([](const vector<OptS>& a, const vector<OptS>& b) {
            for (size_t i = 0; i < a.size(); i++) { if (a[i].ok != b[i].ok) return a[i].ok < b[i].ok; if (a[i].v != b[i].v) return a[i].v < b[i].v; } return false; });
        if (q.groupBy.empty()) groups[{}];
        for (auto& b : w) { vector<OptS> k; for (auto& v : q.groupBy) { auto it = b.find(v); k.push_back(it == b.end() ? OptS() : OptS(it->second)); } groups[k].push_back(b); }
        for (auto& kv : groups) {
            Bind r;
            for (auto& p : q.proj) {
                if (p.agg.empty()) { for (size_t i = 0; i < q.groupBy.size(); i++) if (q.groupBy[i] == p.var && kv.first[i].ok) r[p.var] = kv.first[i].v; }
                else { OptS v = aggregate(p, kv.second); if (v.ok) r[p.var] = v.v; }
            }
            out.push_back(r);
        }
    } else {
        if (q.star) out = w;
        else for (auto& b : w) {
            Bind r; 
            for (auto& p : q.proj) { if (p.isExpr) { OptS v = evalExpr(p.x, b); if (v.ok) r[p.var] = v.v; } else { auto it = b.find(p.var); if (it != b.end()) r[p.var] = it->second; } }
            out.push_back(r);
        }
    }
    if (q.distinct) { std::set<Bind> s(out.begin(), out.end()); out.assign(s.begin(), s.end()); }
    return out;
}
inline Sols evalQuery(const Graph& g, const Query& q) {   // subqueries: LIMIT only where the result does not depend on the choice
    return evalUnordered(g, q);
}
inline vector<string> outVars(const Query& q) { vector<string> v; if (q.star) groupVars(q.w, v); else for (auto& p : q.proj) v.push_back(p.var); return v; }

// runs q on db and compares; "" when the answer is right
inline string checkQ(Database* db, const Graph& g, const Query& q, Res* keep = nullptr, bool strictHead = false, const string& as = "") {
    string text = as.empty() ? q.text() : as;   // as: another way to write q
    Res r = ask(db, text);
    if (keep) *keep = r;
    if (r.threw) return "query: " + text + " threw " + r.err;
    if (r.code != -100) return "query: " + text + " returned code " + num(r.code);
    if (q.ask) {
        bool want = !evalGroup(g, q.w).empty(); string got = r.rows.size() == 1 && r.rows[0].size() == 1 ? r.rows[0][0] : "?";
        return got == boolT(want).v ? "" : "query: " + text + "\n  expected " + (want ? "true" : "false") + " got " + got;
    }
    vector<string> vars = outVars(q);
    vector<string> rv = r.vars;
    // the columns of an empty SELECT * are checked in the "known" mode only
    if (q.star && !strictHead && r.rows.empty()) { bool sub = true; for (auto& v : rv) if (std::find(vars.begin(), vars.end(), v) == vars.end()) sub = false; if (sub) { Sols all = evalUnordered(g, q); size_t n = all.size(); if (n <= (size_t)q.offset || q.limit == 0) return ""; } }
    { auto a = rv, b = vars; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) { string s; for (auto& v : rv) s += v + " "; string w; for (auto& v : vars) w += v + " "; return "query: " + text + "\n  the columns are " + s + ", expected " + w; } }
    Sols all = evalUnordered(g, q);
    Rows want; for (auto& b : all) { vector<string> row; for (auto& v : rv) { auto it = b.find(v); row.push_back(it == b.end() ? "" : it->second); } want.push_back(row); }
    size_t n = all.size(), lo = std::min<size_t>(n, q.offset), hi = q.limit < 0 ? n : std::min<size_t>(n, lo + q.limit);
    auto ctx = [&]() { return "query: " + text + "\n  expected " + num(hi - lo) + (hi - lo < n ? " of the" : "") + " rows: " + rowsStr(sorted(want)) + "\n  got " + num(r.rows.size()) + " rows: " + rowsStr(r.rows); };
    if (r.rows.size() != hi - lo) return ctx();
    // every returned row is one of the expected, with multiplicity
    Rows left = want;
    for (auto& row : r.rows) {
        bool f = false;
        for (size_t i = 0; i < left.size(); i++) { bool eq = true; for (size_t c = 0; c < row.size(); c++) if (!sameTerm(row[c], left[i][c])) { eq = false; break; } if (eq) { left.erase(left.begin() + i); f = true; break; } }
        if (!f) return ctx();
    }
    // order: consecutive rows (on projected keys only), and nothing left out that must come before the last or after the first
    if (!q.orderBy.empty()) {
        vector<int> col; for (auto& o : q.orderBy) { auto it = std::find(rv.begin(), rv.end(), o.first); if (it == rv.end()) return ""; col.push_back(it - rv.begin()); }
        auto cmp = [&](const vector<string>& a, const vector<string>& b) {
            for (size_t i = 0; i < col.size(); i++) {
                OptS x = a[col[i]].empty() ? OptS() : OptS(a[col[i]]), y = b[col[i]].empty() ? OptS() : OptS(b[col[i]]);
                int c = orderCmp(x, y); if (c == 2) return 0; if (q.orderBy[i].second) c = -c; if (c) return c;
            }
            return 0;
        };
        for (size_t i = 0; i + 1 < r.rows.size(); i++) for (size_t j = i + 1; j < r.rows.size(); j++) if (cmp(r.rows[i], r.rows[j]) > 0) return "rows " + num(i) + " and " + num(j) + " are out of order\n" + ctx();
        if (hi - lo < n) {   // the page [lo, hi) of the sorted whole: how many rows may precede each
            for (size_t i = 0; i < r.rows.size(); i++) {
                size_t less = 0, more = 0; for (auto& w : want) { int c = cmp(w, r.rows[i]); less += c < 0; more += c > 0; }
                size_t pos = lo + i; if (less > pos || more > n - 1 - pos) return "row " + num(i) + " is not on this page of the ordered answer\n" + ctx();
            }
        }
    }
    return "";
}
// building blocks
inline Elem T(vector<T3> t) { Elem e; e.k = Elem::Triples; e.t = t; return e; }
inline Elem Opt(vector<Elem> x) { Elem e; e.k = Elem::Opt; e.g = {Group{x}}; return e; }
inline Elem Min(vector<Elem> x) { Elem e; e.k = Elem::Minus; e.g = {Group{x}}; return e; }
inline Elem Br(vector<Elem> x) { Elem e; e.k = Elem::Braces; e.g = {Group{x}}; return e; }
inline Elem Un(vector<vector<Elem>> x) { Elem e; e.k = Elem::Union; for (auto& y : x) e.g.push_back(Group{y}); return e; }
inline Elem Fil(Expr x) { Elem e; e.k = Elem::Filter; e.x = x; return e; }
inline Elem Bnd(Expr x, string v) { Elem e; e.k = Elem::BindE; e.x = x; e.var = v; return e; }
inline Elem SubQ(Query q) { Elem e; e.k = Elem::Sub; e.q = std::make_shared<Query>(q); return e; }
inline Query sel(vector<string> v, vector<Elem> w) { Query q; for (auto& x : v) { Proj p; p.var = x; q.proj.push_back(p); } q.w.e = w; return q; }
} // namespace gs
