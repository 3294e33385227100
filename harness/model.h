// Reference model of an RDF graph and of basic graph patterns: a set of triples and nested loops.
#pragma once
#include "gs.h"
namespace gs {
typedef std::map<string, string> Bind;
inline bool isVar(const string& t) { return t[0] == '?'; }
inline void matchBGP(const vector<T3>& g, const vector<T3>& pats, size_t i, Bind& b, vector<Bind>& out) {
    if (i == pats.size()) { out.push_back(b); return; }
    const T3& p = pats[i];
    for (const T3& t : g) {
        vector<string> added; bool ok = true;
        auto m = [&](const string& pt, const string& v) {
            if (!isVar(pt)) return pt == v;
            auto it = b.find(pt); if (it != b.end()) return it->second == v;
            b[pt] = v; added.push_back(pt); return true;
        };
        ok = m(p.s, t.s) && m(p.p, t.p) && m(p.o, t.o);
        if (ok) matchBGP(g, pats, i + 1, b, out);
        for (auto& a : added) b.erase(a);
    }
}
inline vector<Bind> evalBGP(const Graph& g, const vector<T3>& pats) {
    vector<T3> v(g.begin(), g.end()); vector<Bind> out; Bind b; matchBGP(v, pats, 0, b, out); return out;
}
inline T3 inst(const T3& t, const Bind& b) {
    auto f = [&](const string& x) { auto it = b.find(x); return it == b.end() ? x : it->second; };
    return T3{f(t.s), f(t.p), f(t.o)};
}
inline string patStr(const vector<T3>& v) { string s; for (auto& t : v) s += t.s + " " + t.p + " " + t.o + " . "; return s; }

struct Op {   // an update
    enum K { Ins, Del, DelWhere, InsClause, DelClause, Modify, FileIns, FileDel, Reopen, Save } k;
    vector<T3> del, ins, where; string extra;
    string text() const {
        switch (k) {
        case Ins: return "INSERT DATA { " + patStr(ins) + "}";
        case Del: return "DELETE DATA { " + patStr(del) + "}";
        case DelWhere: return "DELETE WHERE { " + patStr(where) + "}";
        case InsClause: return "INSERT { " + patStr(ins) + "} WHERE { " + patStr(where) + "}";
        case DelClause: return "DELETE { " + patStr(del) + "} WHERE { " + patStr(where) + "}";
        case Modify: return "DELETE { " + patStr(del) + "} INSERT { " + patStr(ins) + "} WHERE { " + patStr(where) + "}";
        case FileIns: return "batch-insert-file [ " + patStr(ins) + "]";
        case FileDel: return "batch-remove-file [ " + patStr(del) + "]";
        case Reopen: return "close and reopen";
        case Save: return "save (checkpoint)";
        }
        return "";
    }
    // applies to the model; returns the number of triples that change, -1 when not compared
    int apply(Graph& g) const {
        int n = 0;
        switch (k) {
        case Ins: case FileIns: for (auto& t : ins) n += g.insert(t).second; break;
        case Del: case FileDel: for (auto& t : del) n += g.erase(t); break;
        case Reopen: case Save: return -1;
        default: {
            vector<Bind> b = evalBGP(g, where); Graph d, i;
            for (auto& x : b) { for (auto& t : (k == DelWhere ? where : del)) d.insert(inst(t, x)); for (auto& t : ins) i.insert(inst(t, x)); }
            for (auto& t : d) n += g.erase(t);
            if (k == Modify) n = -1;
            for (auto& t : i) { int c = g.insert(t).second; if (k != Modify) n += c; }
        } }
        return n;
    }
};

// The answers of every access path on db, compared with g.  Returns "" or what differs.
inline string diffRows(const string& q, const Rows& got, const Rows& want) {
    if (got == want) return "";
    return "query: " + q + "\n  expected " + num(want.size()) + " rows: " + rowsStr(want) + "\n  got      " + num(got.size()) + " rows: " + rowsStr(got);
}
inline string checkQuery(Database* db, const Graph& g, const vector<T3>& pats, const vector<string>& vars) {
    string q = "SELECT"; for (auto& v : vars) q += " " + v; q += " WHERE { " + patStr(pats) + "}";
    Res r = ask(db, q);
    if (r.threw) return "query: " + q + " threw " + r.err;
    if (r.code != -100) return "query: " + q + " returned code " + num(r.code);
    Rows want; for (auto& b : evalBGP(g, pats)) { vector<string> row; for (auto& v : vars) row.push_back(b.at(v)); want.push_back(row); }
    return diffRows(q, sorted(r.rows), sorted(want));
}
inline string checkAll3(Database* db, const Graph& g) { return checkQuery(db, g, {{"?s", "?p", "?o"}}, {"?s", "?p", "?o"}); }
// every lookup shape: single terms from the lists, pairs and whole triples from the graph and from `also` (triples that may be gone)
inline string checkAccess(Database* db, const Graph& g, const vector<string>& subs, const vector<string>& preds, const vector<string>& objs, const Graph& also, long& n) {
    string e = checkAll3(db, g); n++;
    auto go = [&](const T3& p) {
        if (!e.empty()) return;
        vector<string> v; for (const string* x : {&p.s, &p.p, &p.o}) if (isVar(*x)) v.push_back(*x);
        n++;
        e = checkQuery(db, g, {p}, v);
    };
    for (auto& s : subs) go({s, "?p", "?o"});
    for (auto& p : preds) go({"?s", p, "?o"});
    for (auto& o : objs) go({"?s", "?p", o});
    Graph u = g; u.insert(also.begin(), also.end());
    Graph sp, po, so; for (auto& t : u) { sp.insert({t.s, t.p, "?o"}); po.insert({"?s", t.p, t.o}); so.insert({t.s, "?p", t.o}); }
    for (auto* x : {&sp, &po, &so}) for (auto& t : *x) go(t);
    if (e.empty()) for (auto& t : u) {
        string q = "ASK { " + t.str() + " . }"; Res r = ask(db, q); n++;
        string want = g.count(t) ? "true" : "false";
        string got = r.rows.size() == 1 && r.rows[0].size() ? r.rows[0][0] : "?" + num(r.rows.size());
        if (got.find(want) == string::npos) return "query: " + q + " expected " + want + " got " + got + (r.threw ? " threw " + r.err : "");
    }
    return e;
}
inline Op mkIns(vector<T3> t) { Op o; o.k = Op::Ins; o.ins = t; return o; }
inline Op mkDel(vector<T3> t) { Op o; o.k = Op::Del; o.del = t; return o; }
inline Op mkDelWhere(vector<T3> w) { Op o; o.k = Op::DelWhere; o.where = w; return o; }
inline Op mkInsC(vector<T3> i, vector<T3> w) { Op o; o.k = Op::InsClause; o.ins = i; o.where = w; return o; }
inline Op mkDelC(vector<T3> d, vector<T3> w) { Op o; o.k = Op::DelClause; o.del = d; o.where = w; return o; }
inline Op mkMod(vector<T3> d, vector<T3> i, vector<T3> w) { Op o; o.k = Op::Modify; o.del = d; o.ins = i; o.where = w; return o; }
inline Op mkFI(vector<T3> t) { Op o; o.k = Op::FileIns; o.ins = t; return o; }
inline Op mkFD(vector<T3> t) { Op o; o.k = Op::FileDel; o.del = t; return o; }
inline Op mkReopen() { Op o; o.k = Op::Reopen; return o; }
inline Op mkSave() { Op o; o.k = Op::Save; return o; }
} // namespace gs
