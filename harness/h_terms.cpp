// C08: terms keep their identity from RDF text and SPARQL text through the store to export.
#include "model.h"
using namespace gs;

// ------------------------------------------------------------------ contents and their spellings
struct Ch { string raw, ech, u, U; bool rawShort; };   // rawShort: may stand raw in a short string (quotes apart)
static vector<Ch> CH = {
    {"a", "", "\\u0061", "\\U00000061", true}, {" ", "", "\\u0020", "", true}, {"\"", "\\\"", "\\u0022", "", true}, {"'", "\\'", "\\u0027", "", true},
    {"\\", "\\\\", "\\u005C", "\\U0000005c", false}, {"\n", "\\n", "\\u000A", "", false}, {"\t", "\\t", "\\u0009", "", true}, {"\r", "\\r", "\\u000d", "", false},
    {"\xc3\xa9", "", "\\u00e9", "\\U000000E9", true}, {"\xe2\x82\xac", "", "\\u20AC", "", true}, {"\xf0\x9f\x98\x80", "", "", "\\U0001F600", true},
    {"^", "", "", "", true}, {"@", "", "", "", true}, {"<", "", "", "", true}, {">", "", "", "", true}, {".", "", "", "", true}, {"#", "", "", "", true}, {"\b", "\\b", "", "", true}, {"\f", "\\f", "", "", true} };
static const char* QU[] = {"\"", "'", "\"\"\"", "'''"};
static const vector<std::pair<string, string>> SUF = {{"", ""}, {"@en", "@en"}, {"@en-US", "@en-US"}, {"^^<http://t/dt>", "^^<http://t/dt>"}, {"^^e:dt", "^^<http://e/dt>"}, {"^^e:string", "^^<http://e/string>"}};
// the spelling of content (indices into CH) with way w[i] (0 raw, 1 echar, 2 \u, 3 \U) in quotes q; false when it is not legal
static bool spell(const vector<int>& c, const vector<int>& w, int q, bool sparql, string& out) {
    string Q = QU[q]; bool lng = Q.size() == 3; out = Q; int run = 0;
    for (size_t i = 0; i < c.size(); i++) {
        const Ch& x = CH[c[i]]; const string& t = w[i] == 0 ? x.raw : w[i] == 1 ? x.ech : w[i] == 2 ? x.u : x.U;
        if (t.empty()) return false;
        if (sparql && w[i] > 1) return false;
        if (w[i] == 0) {
            if (x.raw == "\\") return false;
            if (!lng && !x.rawShort) return false;
            if (x.raw[0] == Q[0]) { if (!lng || ++run > 2) return false; if (i + 1 == c.size()) return false; } else run = 0;
        } else run = 0;
        out += t;
    }
    out += Q; return true;
}
static string content(const vector<int>& c) { string s; for (int i : c) s += CH[i].raw; return s; }
static const string PRE = "@prefix e: <http://e/> .\n@prefix : <http://d/> .\n";

// ------------------------------------------------------------------ the real parser
static bool fromFile(RDFParser& p, vector<T3>& out, string& err, int group) {
    vector<TripleWithObjType> arr(group);
    for (int rounds = 0; rounds < 100000; rounds++) {
        int n = 0; p.parseFile(arr.data(), n);
        if (!n) return true;
        for (int i = 0; i < n; i++) {
            string o = arr[i].getObject(); bool lit = o.size() && o[0] == '"';
            if (lit != arr[i].isObjLiteral()) err = "the object " + o + " is marked as the wrong kind";
            out.push_back({arr[i].getSubject(), arr[i].getPredicate(), o});
        }
    }
    err = "the parser does not come to an end"; return false;
}
static vector<T3> parseText(const string& t, string& err, int group = 40) {
    std::ostringstream sink; std::streambuf* old = std::cout.rdbuf(sink.rdbuf());
    vector<T3> out; RDFParser::TRIPLE_NUM_PER_GROUP = group;
    spit("doc.ttl", t); std::ifstream in("doc.ttl");
    try { RDFParser p(in); fromFile(p, out, err, group); } catch (const std::exception& e) { err = e.what(); } catch (...) { err = "threw"; }
    std::cout.rdbuf(old);
    string log = sink.str(); size_t i = log.find("rror");
    if (err.empty() && i != string::npos) err = "the parser reports an error: " + log.substr(i > 60 ? i - 60 : 0, 220);
    return out;
}
static vector<T3> parseStr(const string& t, string& err) {
    std::ostringstream sink; std::streambuf* old = std::cout.rdbuf(sink.rdbuf());
    vector<T3> out; RDFParser::TRIPLE_NUM_PER_GROUP = 60; TripleWithObjType arr[60]; int n = 0;
    try { RDFParser p; p.parseString(t, arr, n); for (int i = 0; i < n; i++) out.push_back({arr[i].getSubject(), arr[i].getPredicate(), arr[i].getObject()}); } catch (const std::exception& e) { err = e.what(); } catch (...) { err = "threw"; }
    std::cout.rdbuf(old);
    string log = sink.str(); size_t i = log.find("rror");
    if (err.empty() && i != string::npos) err = "the parser reports an error: " + log.substr(i > 60 ? i - 60 : 0, 220);
    return out;
}
static string show(const vector<T3>& v) { string s; for (auto& t : v) s += "   " + t.str() + "\n"; return s; }
// equal up to the names of generated blank nodes (<_:@k> in want, <_:_k> in got): colour refinement, which is complete for the
// tree-shaped nodes that brackets and collections make
static vector<T3> canon(vector<T3> v, const string& prefix) {
    std::map<string, string> col; for (auto& t : v) for (const string* x : {&t.s, &t.o}) if (x->compare(0, prefix.size(), prefix) == 0) col[*x] = "_";
    if (col.size()) for (int round = 0; round < 8; round++) {
        std::map<string, vector<string>> e; auto c = [&](const string& x) { auto it = col.find(x); return it == col.end() ? x : it->second; };
        for (auto& t : v) { if (col.count(t.s)) e[t.s].push_back(">" + t.p + " " + c(t.o)); if (col.count(t.o)) e[t.o].push_back("<" + t.p + " " + c(t.s)); }
        for (auto& x : e) { std::sort(x.second.begin(), x.second.end()); string k; for (auto& y : x.second) k += y + "\n"; x.second = {"_" + num((long long)(std::hash<string>()(k) >> 1))}; }
        for (auto& x : e) col[x.first] = x.second[0];
    }
    for (auto& t : v) { if (col.count(t.s)) t.s = col[t.s]; if (col.count(t.o)) t.o = col[t.o]; }
    std::sort(v.begin(), v.end());
    return v;
}
static bool isoEq(const vector<T3>& got, const vector<T3>& want) {
    if (got.size() != want.size()) return false;
    std::set<string> a, b; for (auto& t : want) for (const string* x : {&t.s, &t.o}) if (x->compare(0, 4, "<_:@") == 0) a.insert(*x);
    for (auto& t : got) for (const string* x : {&t.s, &t.o}) if (x->compare(0, 4, "<_:_") == 0) b.insert(*x);
    return a.size() == b.size() && canon(got, "<_:_") == canon(want, "<_:@");
}

// ------------------------------------------------------------------ Turtle documents
struct Frag { vector<string> tok; string val; vector<T3> extra; };   // tokens, the node it denotes, triples it adds
static int GEN;
static string gen() { return "<_:@" + num(GEN++) + ">"; }
static const string XS = "^^<http://www.w3.org/2001/XMLSchema#", RDFN = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";
typedef std::function<Frag()> FragF;
static Frag atom(const string& t, const string& v) { return {{t}, v, {}}; }
static Frag bracket(vector<std::pair<Frag, vector<Frag>>> po) {
    Frag f; f.val = gen(); f.tok.push_back("["); bool first = true;
    for (auto& x : po) { if (!first) f.tok.push_back(";"); first = false; f.tok.insert(f.tok.end(), x.first.tok.begin(), x.first.tok.end()); for (size_t i = 0; i < x.second.size(); i++) { if (i) f.tok.push_back(","); auto& o = x.second[i]; f.tok.insert(f.tok.end(), o.tok.begin(), o.tok.end()); f.extra.insert(f.extra.end(), o.extra.begin(), o.extra.end()); f.extra.push_back({f.val, x.first.val, o.val}); } }
    f.tok.push_back("]"); return f;
}
static Frag coll(vector<Frag> el) {
    Frag f; f.tok.push_back("("); string prev; f.val = "<" + RDFN + "nil>";
    for (size_t i = 0; i < el.size(); i++) {
        string n = gen(); if (!i) f.val = n; else f.extra.push_back({prev, "<" + RDFN + "rest>", n});
        f.tok.insert(f.tok.end(), el[i].tok.begin(), el[i].tok.end()); f.extra.insert(f.extra.end(), el[i].extra.begin(), el[i].extra.end());
        f.extra.push_back({n, "<" + RDFN + "first>", el[i].val}); prev = n;
    }
    if (el.size()) f.extra.push_back({prev, "<" + RDFN + "rest>", "<" + RDFN + "nil>"});
    f.tok.push_back(")"); return f;
}
static vector<FragF> subjF() {
    return {[] { return atom("<http://t/a>", "<http://t/a>"); }, [] { return atom("e:a", "<http://e/a>"); }, [] { return atom(":a-1", "<http://d/a-1>"); }, [] { return atom("_:x", "<_:x>"); },
            [] { return bracket({}); }, [] { return bracket({{atom("<q>", "<q>"), {atom("<c>", "<c>"), atom("'k'", "\"k\"")}}}); }, [] { return coll({atom("<c>", "<c>"), atom("7", "\"7\"" + XS + "integer>")}); } };
}
static vector<FragF> predF() { return {[] { return atom("<p>", "<p>"); }, [] { return atom("a", "<" + RDFN + "type>"); }, [] { return atom("e:p_2", "<http://e/p_2>"); }, [] { return atom(":p", "<http://d/p>"); }}; }
static vector<FragF> objF() {
    return {[] { return atom("<b>", "<b>"); }, [] { return atom("e:b", "<http://e/b>"); }, [] { return atom(":b9", "<http://d/b9>"); }, [] { return atom("e:", "<http://e/>"); }, [] { return atom("e:42", "<http://e/42>"); }, [] { return atom("_:x", "<_:x>"); }, [] { return atom("_:y1", "<_:y1>"); },
            [] { return atom("\"l\"", "\"l\""); }, [] { return atom("\"\"", "\"\""); }, [] { return atom("''", "\"\""); }, [] { return atom("\"l\"@en", "\"l\"@en"); }, [] { return atom("\"\"@en-GB", "\"\"@en-GB"); }, [] { return atom("\"l\"^^<dt>", "\"l\"^^<dt>"); }, [] { return atom("\"l\"^^e:dt", "\"l\"^^<http://e/dt>"); }, [] { return atom("\"l\"^^:dt", "\"l\"^^<http://d/dt>"); },
            [] { return atom("\"5\"^^<http://www.w3.org/2001/XMLSchema#integer>", "\"5\"" + XS + "integer>"); }, [] { return atom("\"z\"^^<http://www.w3.org/2001/XMLSchema#string>", "\"z\"" + XS + "string>"); }, [] { return atom("\"-8\"^^<http://www.w3.org/2001/XMLSchema#byte>", "\"-8\"" + XS + "byte>"); }, [] { return atom("\"1.5\"^^<http://www.w3.org/2001/XMLSchema#float>", "\"1.5\"" + XS + "float>"); }, [] { return atom("\"2020-01-01T00:00:00\"^^<http://www.w3.org/2001/XMLSchema#dateTime>", "\"2020-01-01T00:00:00\"" + XS + "dateTime>"); },
            [] { return atom("5", "\"5\"" + XS + "integer>"); }, [] { return atom("-05", "\"-05\"" + XS + "integer>"); }, [] { return atom("+5", "\"+5\"" + XS + "integer>"); }, [] { return atom("1.50", "\"1.50\"" + XS + "decimal>"); }, [] { return atom(".5", "\".5\"" + XS + "decimal>"); }, [] { return atom("-1.5e3", "\"-1.5e3\"" + XS + "double>"); }, [] { return atom("1E+2", "\"1E+2\"" + XS + "double>"); }, [] { return atom("5.e1", "\"5.e1\"" + XS + "double>"); },
            [] { return atom("true", "\"true\"" + XS + "boolean>"); }, [] { return atom("false", "\"false\"" + XS + "boolean>"); }, [] { return atom("'l'", "\"l\""); }, [] { return atom("\"\"\"l\n\"m\"\"\"\"", ""); }, [] { return atom("'''l\n''m'''@fr", "\"l\n''m\"@fr"); }, [] { return atom("\"a\\\"b\"", "\"a\"b\""); },
            [] { return bracket({}); }, [] { return bracket({{atom("<q>", "<q>"), {atom("5", "\"5\"" + XS + "integer>")}}}); }, [] { return bracket({{atom("a", "<" + RDFN + "type>"), {bracket({{atom("e:r", "<http://e/r>"), {atom("\"x\"", "\"x\"")}}}), atom("_:x", "<_:x>")}}, {atom("<q>", "<q>"), {atom("true", "\"true\"" + XS + "boolean>")}}}); },
            [] { return coll({}); }, [] { return coll({atom("<c>", "<c>"), atom("5", "\"5\"" + XS + "integer>")}); }, [] { return coll({bracket({}), coll({atom("1.5", "\"1.5\"" + XS + "decimal>")})}); } };
}
// tokens joined with separator style w: 0 blank, 1 newline, 2 tab, 3 comment, 4 as little as possible, 5 carriage return and newline
static string join(const vector<string>& tok, int w) {
    static const char* SEP[] = {" ", "\n", "\t\t", " # c \" < .\n", " ", "\r\n"}; string s;
    for (size_t i = 0; i < tok.size(); i++) {
        if (i) {
            bool tight = false;
            if (w == 4) { string a = tok[i - 1], b = tok[i]; char x = a.back(), y = b[0]; tight = strchr(",;[]().", y) && b.size() == 1; if (strchr(">\"',;[]()", x) && !isalnum((unsigned char)x)) tight = true; if (a.find("@") != string::npos && !(strchr(",;[]().", y) && b.size() == 1)) tight = false; }
            if (!tight) s += SEP[w];
        }
        s += tok[i];
    }
    return s;
}
static void put(Frag& st, const Frag& x) { st.tok.insert(st.tok.end(), x.tok.begin(), x.tok.end()); st.extra.insert(st.extra.end(), x.extra.begin(), x.extra.end()); }
// one statement: subject, then (predicate, objects) pairs; trail: extra semicolons
static Frag statement(FragF s, const vector<std::pair<FragF, vector<FragF>>>& po, int semi) {
    Frag st; Frag S = s(); put(st, S);
    for (size_t i = 0; i < po.size(); i++) {
        if (i) for (int k = 0; k <= (semi > 1 ? 1 : 0); k++) st.tok.push_back(";");
        Frag P = po[i].first(); put(st, P);
        for (size_t j = 0; j < po[i].second.size(); j++) { if (j) st.tok.push_back(","); Frag O = po[i].second[j](); put(st, O); st.extra.push_back({S.val, P.val, O.val}); }
    }
    for (int k = 0; k < semi; k++) st.tok.push_back(";");
    st.tok.push_back("."); return st;
}
static void checkDoc(Worker& W, const string& doc, const vector<T3>& want, int group, const string& what) {
    string sig = what; W.sh->execs++; W.sh->states++;
    string err; vector<T3> got = group ? parseText(doc, err, group) : parseStr(doc, err);
    W.outcome(num(got.size()) + (got.size() ? got[0].o : ""));
    W.sh->transitions += got.size();
    if (!err.empty() || !isoEq(got, want)) W.fail(sig, (err.empty() ? "the triples are not those of the document" : err) + "\ndocument" + (group ? " (file, " + num(group) + " triples at a time)" : " (string)") + ":\n" + doc + "\nexpected:\n" + show(want) + "got:\n" + show(got));
}

// ------------------------------------------------------------------ the store
static string sparqlOf(const string& t) {   // a legal SPARQL spelling of a stored literal, or the term itself
    if (t[0] != '"') return t;
    size_t q = t.rfind('"'); string s = "\"";
    for (size_t i = 1; i < q; i++) switch (t[i]) { case '"': s += "\\\""; break; case '\\': s += "\\\\"; break; case '\n': s += "\\n"; break; case '\r': s += "\\r"; break; default: s += t[i]; }
    return s + t.substr(q);
}
static string exportDB(Database* db) { FILE* f = fopen("exp.nt", "w"); db->export_db(f); fclose(f); return slurp("exp.nt"); }
static bool askTrue(Database* db, const string& q, string& e) {
    Res r = ask(db, q); if (r.threw) { e = q + " threw " + r.err; return false; }
    return r.rows.size() == 1 && r.rows[0].size() && r.rows[0][0].find("true") != string::npos;
}
// all terms of g through the whole system; bySparql: inserted with INSERT DATA, byFile: batch insert, else built
static void storeCheck(Worker& W, const string& sig, const Graph& g, int way, const std::function<string(const string&)>& ntSpell) {
    W.at(sig); W.sh->states++; W.sh->execs++;
    string text; for (auto& t : g) text += ntSpell(t.s) + " " + ntSpell(t.p) + " " + ntSpell(t.o) + " .\n";
    if (exists(dbDir("t"))) rmTree(W.dir + "/" + dbDir("t"));
    Database* db; string e;
    RDFParser::TRIPLE_NUM_PER_GROUP = 50000;
    auto bad = [&](const string& m) { W.fail(sig, m); };
    if (way == 0) { if (!buildDB("t", text)) return bad("the build fails"); db = openDB("t"); }
    else { if (!buildDB("t", "<z> <z> <z> .\n")) return bad("the build fails"); db = openDB("t"); ask(db, "DELETE DATA { <z> <z> <z> }", true); }
    if (!db) return bad("the database does not load");
    if (way == 1) { spit("u.nt", text); db->batch_insert("u.nt"); }
    if (way == 2) for (auto& t : g) { string q = "INSERT DATA { " + sparqlOf(t.s) + " " + sparqlOf(t.p) + " " + sparqlOf(t.o) + " }"; Res r = ask(db, q, true); W.sh->transitions++; if (r.threw || r.code != 1) { bad(q + (r.threw ? " threw " + r.err : " returned " + num(r.code))); delete db; return; } }
    auto all = [&](const string& when) {
        Res r = ask(db, "SELECT ?s ?p ?o WHERE { ?s ?p ?o }"); Rows want; for (auto& t : g) want.push_back({t.s, t.p, t.o});
        string d = diffRows("SELECT ?s ?p ?o WHERE { ?s ?p ?o } " + when, sorted(r.rows), sorted(want));
        if (d.empty() && db->getTripleNum() != g.size()) d = "the triple count " + when + " is " + num(db->getTripleNum()) + ", expected " + num(g.size());
        return d;
    };
    auto lookups = [&](const string& when) {
        string e = all(when); long n = 0;
        for (auto& t : g) {
            if (!e.empty()) return e;
            string s = sparqlOf(t.s), p = sparqlOf(t.p), o = sparqlOf(t.o); W.sh->transitions += 3; W.beat();
            string q = "ASK { " + s + " " + p + " " + o + " }";
            if (!askTrue(db, q, e) && e.empty()) e = q + " is false " + when;
            Rows w; for (auto& u : g) if (u.o == t.o) w.push_back({u.s});
            q = "SELECT ?s WHERE { ?s " + p + " " + o + " }"; w.clear(); for (auto& u : g) if (u.o == t.o && u.p == t.p) w.push_back({u.s});
            Res r = ask(db, q); if (e.empty()) e = r.threw ? q + " threw " + r.err : diffRows(q + " " + when, sorted(r.rows), sorted(w));
            q = "SELECT ?o WHERE { " + s + " ?p ?o FILTER(?o = " + o + ") }"; w.clear(); for (auto& u : g) if (u.o == t.o && u.s == t.s) w.push_back({u.o});
            // comparing with = is the business of C05 except for identity: the term equals itself when its type is comparable
            if (t.o[0] != '"' || t.o.back() == '"' || t.o.find("\"@") != string::npos) { r = ask(db, q); if (e.empty()) e = r.threw ? q + " threw " + r.err : diffRows(q + " " + when, sorted(r.rows), sorted(w)); }
            if (++n > 400) break;
        }
        return e;
    };
    e = lookups("at first");
    string ex; if (e.empty()) { ex = exportDB(db); string pe; Graph back; for (auto& t : parseText(ex, pe, 5000)) back.insert(t); if (!pe.empty() || back != g) { e = "the exported file does not say what is stored: " + pe; Graph miss, more; for (auto& t : g) if (!back.count(t)) miss.insert(t); for (auto& t : back) if (!g.count(t)) more.insert(t); e += "\nmissing:\n" + ntg(miss).substr(0, 600) + "\nin excess:\n" + ntg(more).substr(0, 600); } }
    RDFParser::TRIPLE_NUM_PER_GROUP = 50000;
    if (e.empty()) { db->save(); delete db; db = openDB("t"); if (!db) return bad("the database does not reopen"); e = lookups("after reopening"); }
    if (e.empty()) {   // inserting again changes nothing; deleting takes exactly the triple
        spit("u.nt", ex); db->batch_insert("u.nt"); e = all("after inserting the exported file again");
        Graph left = g; int k = 0;
        for (auto& t : g) { if (!e.empty()) break; if (k++ % 3) continue; string q = "DELETE DATA { " + sparqlOf(t.s) + " " + sparqlOf(t.p) + " " + sparqlOf(t.o) + " }"; Res r = ask(db, q, true); W.sh->transitions++; W.beat(); left.erase(t); if (r.threw || r.code != 1) e = q + (r.threw ? " threw " + r.err : " returned " + num(r.code)); }
        if (e.empty()) { Res r = ask(db, "SELECT ?s ?p ?o WHERE { ?s ?p ?o }"); Rows want; for (auto& t : left) want.push_back({t.s, t.p, t.o}); e = diffRows("SELECT ?s ?p ?o WHERE { ?s ?p ?o } after the deletions", sorted(r.rows), sorted(want)); }
        if (e.empty()) { string rest; for (auto& t : left) rest += ntSpell(t.s) + " " + ntSpell(t.p) + " " + ntSpell(t.o) + " .\n"; spit("u.nt", rest); db->batch_remove("u.nt"); Res r = ask(db, "SELECT ?s ?p ?o WHERE { ?s ?p ?o }"); e = diffRows("SELECT ?s ?p ?o WHERE { ?s ?p ?o } after the batch removal of the rest", sorted(r.rows), {}); }
    }
    delete db;
    W.outcome(text);
    if (!e.empty()) bad(e.substr(0, 5000));
}
static string ntU(const string& t) {   // \u spelling of everything that has one
    if (t[0] != '"') return t;
    size_t q = t.rfind('"'); string s = "\"";
    for (size_t i = 1; i < q;) { int best = -1; for (size_t k = 0; k < CH.size(); k++) if (t.compare(i, CH[k].raw.size(), CH[k].raw) == 0) best = k; if (best < 0) { s += t[i++]; continue; } const Ch& c = CH[best]; s += !c.u.empty() ? c.u : !c.U.empty() ? c.U : !c.ech.empty() ? c.ech : c.raw; i += c.raw.size(); }
    return s + t.substr(q);
}

int main(int argc, char** argv) {
    Explorer X("C08", argc, argv);
    bool th = X.argThorough(); X.hang = 60;
    auto init = [&](Worker& W) { libInit(); };
    {   // every content up to a length, in every spelling, every kind of quotes, every suffix
        int n = CH.size(), L = 3;
        vector<vector<int>> cs = {{}}; for (int l = 0, from = 0; l < L; l++) { int to = cs.size(); for (int i = from; i < to; i++) for (int k = 0; k < n; k++) { auto c = cs[i]; c.push_back(k); cs.push_back(c); } from = to; }

        X.run("literals", cs.size(), init, [&](Worker& W, long t) {
            const auto& c = cs[t]; string v = content(c); vector<int> w(c.size(), 0); W.at("content " + num(t)); string sp; int docs = 0;
            string doc = PRE; vector<T3> want;
            while (true) {
                for (int q = 0; q < 4; q++) if (spell(c, w, q, false, sp)) for (auto& s : SUF) { string sub = "<s" + num(want.size()) + ">"; doc += sub + " <p> " + sp + s.first + (want.size() % 3 ? " .\n" : ".\n"); want.push_back({sub, "<p>", "\"" + v + "\"" + s.second}); }
                size_t i = 0; while (i < w.size() && ++w[i] > 3) w[i++] = 0;
                if (i == w.size()) break;
            }
            W.sh->execs += want.size(); (void)docs;
            string err; vector<T3> got = parseText(doc, err, 5000); W.outcome(v); W.sh->states++; W.sh->transitions += want.size();
            if (!err.empty() || got != want) {
                size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
                string line; { std::stringstream ss(doc); string l; size_t p = doc.find(i < want.size() ? "\n" + want[i].s + " " : "\n"); line = doc.substr(p == string::npos ? 0 : p + 1, 80); }
                W.fail("literal content " + num(t), (err.empty() ? "" : err + "\n") + "the document\n" + line + "\nshould give " + (i < want.size() ? want[i].str() : "nothing more") + "\nbut gives   " + (i < got.size() ? got[i].str() : "nothing more"));
            }
        });
    }
    auto S = subjF(), P = predF(), O = objF();
    O.erase(O.begin() + 31);   // (a content ending in a quote has no long spelling)
    {   // single statements: all shapes
        long nS = S.size(), nO = O.size();
        X.run("statements", nS * nO, init, [&](Worker& W, long t) {
            FragF s = S[t / nO], o = O[t % nO]; W.at("statements " + num(t));
            auto go = [&](const vector<std::pair<FragF, vector<FragF>>>& po, int semi, const string& id) {
                for (int w = 0; w < 6; w++) {
                    GEN = 0; Frag f = statement(s, po, semi); string doc = PRE + join(f.tok, w);
                    for (int nl = 0; nl < 2; nl++) { checkDoc(W, doc + (nl ? "\n" : ""), f.extra, (w + nl) % 3 == 0 ? 0 : (w + nl) % 3 == 1 ? 1 : 30, "statement " + num(t) + " " + id + " separators " + num(w) + (nl ? " newline" : " no newline")); W.beat(); }
                }
            };
            for (size_t p = 0; p < P.size(); p++) { go({{P[p], {o}}}, 0, "p" + num(p)); go({{P[p], {o}}}, 1, "p" + num(p) + ";"); go({{P[p], {o}}}, 2, "p" + num(p) + ";;"); }
            for (size_t k = 0; k < O.size(); k++) { go({{P[0], {o, O[k]}}}, 0, "oo" + num(k)); if (th || (k + t) % 3 == 0) { go({{P[2], {O[k]}}, {P[1], {o}}}, k % 3, "po po" + num(k)); go({{P[3], {o, O[k]}}, {P[0], {O[k], o, o}}}, k % 2, "poo pooo" + num(k)); } }
            if (t % 37 == 0) { GEN = 0; W.sample(join(statement(s, {{P[0], {o}}}, 0).tok, 0)); }
        });
        // two statements: the second must not depend on the first
        X.run("pairs", nO * nO, init, [&](Worker& W, long t) {
            W.at("pair " + num(t));
            for (size_t s = 0; s < (th ? S.size() : 3); s++) for (int w = 0; w < (th ? 6 : 2); w++) {
                GEN = 0; Frag a = statement(S[(s * 3 + t) % S.size()], {{P[0], {O[t / nO]}}}, 0), b = statement(S[s], {{P[1], {O[t % nO]}}}, 0);
                string doc = PRE + join(a.tok, w ? 4 : 0) + (w ? "\n" : " ") + (w % 2 ? "@prefix e: <http://f/> .\n@prefix e: <http://e/>.\n" : "") + join(b.tok, w ? 4 : 0) + "\n";
                vector<T3> want = a.extra; want.insert(want.end(), b.extra.begin(), b.extra.end());
                checkDoc(W, doc, want, w % 2 ? 1 : 30, "pair " + num(t) + " " + num(s) + " " + num(w)); W.beat();
            }
        });
    }
    {   // every alignment of a document with the read buffer, with and without a final newline, any group size
        GEN = 0; vector<Frag> fs; string body; vector<T3> want;
        for (size_t i = 0; i < O.size(); i++) { Frag f = statement(S[i % S.size()], {{P[i % P.size()], {O[i], O[(i * 7 + 3) % O.size()]}}}, i % 3); (void)f; }
        auto mk = [&](int from, int count, string& doc, vector<T3>& w) { GEN = 0; for (int i = from; i < from + count; i++) { Frag f = statement(S[i % S.size()], {{P[i % P.size()], {O[i % O.size()], O[(i * 7 + 3) % O.size()]}}}, i % 2); doc += join(f.tok, i % 2 ? 4 : 0) + "\n"; w.insert(w.end(), f.extra.begin(), f.extra.end()); } };
        int step = th ? 1 : 1; (void)step;
        X.run("alignment", 1060, init, [&](Worker& W, long t) {
            W.at("alignment " + num(t));
            for (int from = 0; from < (th ? 40 : 8); from++) for (int nl = 0; nl < 2; nl++) {
                string doc = "#" + string(t, 'x') + "\n" + PRE; vector<T3> w; mk(from * 5, 2, doc, w); if (!nl) doc.pop_back();
                
                checkDoc(W, doc, w, 1 + (t + from) % 3, "alignment " + num(t) + " from " + num(from) + (nl ? " newline" : " no newline")); W.beat();
            }
        });
    }
    {   // every spelling of a literal in every position of queries and updates
        int n = CH.size(); vector<vector<int>> cs = {{}}; for (int l = 0, from = 0; l < (th ? 3 : 2); l++) { int to = cs.size(); for (int i = from; i < to; i++) for (int k = 0; k < n; k++) { auto c = cs[i]; c.push_back(k); cs.push_back(c); } from = to; }
        const size_t PER = th ? 64 : 24; long nb = (cs.size() + PER - 1) / PER;
        const string P = "PREFIX e: <http://e/> PREFIX : <http://d/> ";
        const vector<string> SFX = {"", "@en", "@en-US", "^^<http://t/dt>", "^^e:dt", "^^:dt"}, SV = {"", "@en", "@en-US", "^^<http://t/dt>", "^^<http://e/dt>", "^^<http://d/dt>"};
        X.run("queries", nb, init, [&, nb](Worker& W, long b) {
            W.at("queries " + num(b)); Graph g; vector<vector<int>> mine;
            for (size_t i = b * PER; i < std::min<size_t>((b + 1) * PER, cs.size()); i++) mine.push_back(cs[i]);
            for (size_t i = 0; i < mine.size(); i++) for (size_t k = 0; k < SV.size(); k++) g.insert({"<s" + num(i) + "_" + num(k) + ">", "<p>", "\"" + content(mine[i]) + "\"" + SV[k]});
            string text = "<z> <w> <z> .\n"; for (auto& t : g) text += t.s + " " + t.p + " " + sparqlOf(t.o) + " .\n";
            if (exists(dbDir("t"))) rmTree(W.dir + "/" + dbDir("t"));
            Database* db = buildDB("t", text) ? openDB("t") : nullptr; if (!db) { W.fail("queries " + num(b), "the database does not load"); return; }
            string prev;
            for (size_t i = 0; i < mine.size(); i++) {
                const auto& c = mine[i]; vector<int> w(c.size(), 0); string sp;
                while (true) {
                    for (int q = 0; q < 4; q++) if (spell(c, w, q, true, sp)) for (size_t k = 0; k < SV.size(); k++) {
                        string lit = sp + SFX[k], val = "\"" + content(c) + "\"" + SV[k], me = "<s" + num(i) + "_" + num(k) + ">", e; W.sh->states++; W.beat();
                        auto sel = [&](const string& q, Rows want, bool u = false) { if (!e.empty()) return; W.sh->execs++; W.sh->transitions++; Res r = ask(db, P + q, u); if (r.threw) e = q + " threw " + r.err; else if (u) { if (r.code != 1) e = q + " returned " + num(r.code) + ", expected 1"; } else e = diffRows(q, sorted(r.rows), sorted(want)); };
                        sel("SELECT ?s WHERE { ?s <p> " + lit + " }", {{me}});
                        sel("SELECT ?s WHERE { ?s ?p " + lit + " ; <p> ?o }", {{me}});
                        if (k < 3) sel("SELECT ?s WHERE { ?s <p> ?o FILTER(?o = " + lit + ") }", {{me}});
                        if (k < 3) sel("SELECT ?s WHERE { <z> <w> ?z . ?s <p> ?o FILTER(?o = " + lit + " && ?z = <z>) }", {{me}});
                        sel("INSERT DATA { <x> <q> " + lit + " . }", {}, true);
                        sel("SELECT ?o WHERE { <x> <q> ?o }", {{val}});
                        sel("INSERT { ?s <r> " + lit + " } WHERE { ?s <q> " + lit + " }", {}, true);
                        sel("SELECT ?s ?o WHERE { ?s <r> ?o }", {{"<x>", val}});
                        sel("DELETE { ?s <r> " + lit + " } WHERE { ?s <q> ?o }", {}, true);
                        sel("DELETE WHERE { ?s <q> " + lit + " }", {}, true);
                        sel("SELECT ?s ?o WHERE { ?s <q> ?o }", {}); sel("SELECT ?s ?o WHERE { ?s <r> ?o }", {});
                        sel("INSERT DATA { <x> <q> " + lit + " }", {}, true); sel("DELETE DATA { <x> <q> " + lit + " }", {}, true); sel("SELECT ?o WHERE { <x> <q> ?o }", {});
                        W.outcome(val);
                        if (!e.empty()) { W.fail("query literal " + num(b * PER + i) + " quotes " + num(q) + " suffix " + num(k), e); if (exists(dbDir("t"))) { delete db; rmTree(W.dir + "/" + dbDir("t")); db = buildDB("t", text) ? openDB("t") : nullptr; if (!db) return; } }
                    }
                    size_t j = 0; while (j < w.size() && ++w[j] > 1) w[j++] = 0;
                    if (j == w.size()) break;
                }
            }
            if (b % 5 == 0) W.sample(ntg(g).substr(0, 200));
            delete db;
        });
    }
    {   // a genuine defect that a test of the repository fixes in place: a listed known finding
        X.run("known", 1, init, [&](Worker& W, long) {
            string sig = "known datatype prefix in FILTER"; W.at(sig); W.sh->execs++; W.sh->states++; W.sh->transitions++;
            if (exists(dbDir("t"))) rmTree(W.dir + "/" + dbDir("t"));
            buildDB("t", "<a> <p> \"5\"^^<http://www.w3.org/2001/XMLSchema#integer> .\n"); Database* db = openDB("t"); if (!db) { W.fail("known", "the database does not load"); return; }
            string q = "PREFIX x: <http://www.w3.org/2001/XMLSchema#> SELECT ?s WHERE { ?s <p> ?o FILTER(?o < \"7\"^^x:integer) }"; Res r = ask(db, q); string e = r.threw ? "threw " + r.err : diffRows(q, r.rows, {{"<a>"}});
            if (!e.empty()) W.fail(sig, e); delete db;
        });
    }
    {   // the store: literals
        int n = CH.size(); vector<string> terms; const char* K[] = {"", "@en", "^^<http://t/dt>", "^^<http://www.w3.org/2001/XMLSchema#string>"};
        vector<vector<int>> cs = {{}}; for (int l = 0, from = 0; l < (th ? 3 : 2); l++) { int to = cs.size(); for (int i = from; i < to; i++) for (int k = 0; k < n; k++) { auto c = cs[i]; c.push_back(k); cs.push_back(c); } from = to; }
        for (auto& c : cs) for (auto k : K) terms.push_back("\"" + content(c) + "\"" + k);
        const long B = 32; long nb = (terms.size() + B - 1) / B;
        auto raw = [](const string& t) { return sparqlOf(t); };
        X.run("store", nb * 3, init, [&, nb](Worker& W, long t) {
            int way = t % 3; Graph g; long b = t / 3; int k = 0;
            for (long i = b * B; i < std::min<long>((b + 1) * B, terms.size()); i++) g.insert({"<s" + num(k++ % 5) + ">", "<p>", terms[i]});
            storeCheck(W, "literals " + num(b) + " way " + num(way), g, way, b % 2 ? std::function<string(const string&)>(ntU) : std::function<string(const string&)>(raw));
            if (b % 11 == 0) W.sample(ntg(g).substr(0, 300));
        });
    }
    {   // the store: IRIs in every position
        string A = "a/#?:%.-~&;,'()@*!=+$_[]"; vector<string> ch; for (char c : A) ch.push_back(string(1, c)); ch.push_back("\xc3\xa9"); ch.push_back("\xf0\x9f\x98\x80");
        vector<string> iris = {"<http://example.org/a/b?c=d&e=f#g>", "<urn:x:y>", "<mailto:a@b.c>", "<_:b>"};
        for (auto& x : ch) { iris.push_back("<" + x + ">"); iris.push_back("<x" + x + ">"); for (auto& y : ch) if (th || y == "a" || x == "?" || x == "_" || x == ":" || x == ".") iris.push_back("<" + x + y + ">"); }
        std::sort(iris.begin(), iris.end()); iris.erase(std::unique(iris.begin(), iris.end()), iris.end());
        const long B = 16; long nb = (iris.size() + B - 1) / B;
        X.run("iris", nb * 9, init, [&, nb](Worker& W, long t) {
            int way = t % 3, pos = t / 3 % 3; long b = t / 9; Graph g;
            for (long i = b * B; i < std::min<long>((b + 1) * B, iris.size()); i++) { const string& x = iris[i]; g.insert(pos == 0 ? T3{x, "<p>", "<o>"} : pos == 1 ? T3{"<s>", x, "<o>"} : T3{"<s>", "<p>", x}); }
            storeCheck(W, "iris " + num(b) + " position " + num(pos) + " way " + num(way), g, way, [](const string& x) { return x; });
        });
    }
    {   // the store: lengths, around the sizes of buffers and blocks
        vector<long> len; for (long i = 0; i < 70; i++) len.push_back(i); for (long m : {127, 255, 511, 1023, 2047, 4095, 8191, 16383, 32767, 65535}) for (long d = -3; d <= 3; d++) len.push_back(m + d); if (th) for (long i = 70; i < 1200; i++) len.push_back(i); for (long m : {100000, 300000, 1000000}) len.push_back(m);
        X.run("lengths", len.size() * 2, init, [&](Worker& W, long t) {
            long n = len[t / 2]; string fill; for (long i = 0; i < n; i++) fill += char('a' + (i * 7 + n) % 26);
            Graph g; g.insert({"<s>", "<p>", "\"" + fill + "\""}); g.insert({"<u" + fill + ">", "<p>", "\"" + fill + "\"@en"}); g.insert({"<s>", "<p" + fill + ">", "<u" + fill + ">"}); g.insert({"<s>", "<p>", "\"k\""});
            storeCheck(W, "length " + num(n) + " way " + num(t % 2 ? 2 : 0), g, t % 2 ? 2 : 0, [](const string& x) { return x; });
        });
    }
    X.rule = "Every spelling of every short literal (in files, and in every position of queries and updates), every statement shape and buffer alignment of a Turtle grammar through the real parser; every short literal and IRI and every listed length through build, batch insert or INSERT DATA, lookups, export, reopening, reinsertion and removal on the real database.";
    X.boundsText = th ? "literals: length 3 over 19 characters, 4 quotings, 4 spellings per character, 6 suffixes; statements: 8 subjects x 4 predicates x 40 objects, two predicates, three objects; all buffer offsets; store: length 3" : "literals: length 2 (3 over the delicate ones); statements with up to two predicates and three objects; all buffer offsets; store: length 2";
    return X.finish();
}
