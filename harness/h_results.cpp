// C09: the serialized forms of a result (JSON, tab-separated text, file output) say exactly what the result is.
#include "model.h"
using namespace gs;

#include <dlfcn.h>
// "too little memory": the size test of Stream reads /proc/meminfo; without it results are kept in temporary files
static bool LOWMEM = false;
extern "C" FILE* fopen(const char* name, const char* how) {
    static FILE* (*real)(const char*, const char*) = (FILE* (*)(const char*, const char*))dlsym(RTLD_NEXT, "fopen");
    if (LOWMEM && !strcmp(name, "/proc/meminfo")) return NULL;
    return real(name, how);
}
// names of temporary files contain the time: it never stands still
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { static long t = 1700000000000L; t++; tv->tv_sec = t / 1000; tv->tv_usec = t % 1000 * 1000; return 0; }
extern "C" FILE* fopen64(const char* name, const char* how) { return fopen(name, how); }

static const char* CH[] = {"a", " ", "\"", "'", "\\", "\n", "\t", "\r", "\xc3\xa9", "\xf0\x9f\x98\x80", "^", "@", "<", ">", ".", "/", "{", ",", "\x01"};
static const char* KIND[] = {"", "@en", "@de-AT", "^^<http://t/dt>", "^^<http://www.w3.org/2001/XMLSchema#string>", "^^<http://www.w3.org/2001/XMLSchema#decimal>"};

static string sparqlOf(const string& t) {
    if (t[0] != '"') return t;
    size_t q = t.rfind('"'); string s = "\"";
    for (size_t i = 1; i < q; i++) switch (t[i]) { case '"': s += "\\\""; break; case '\\': s += "\\\\"; break; case '\n': s += "\\n"; break; case '\r': s += "\\r"; break; default: s += t[i]; }
    return s + t.substr(q);
}
// a JSON result document back into rows of terms
static string fromJSON(const string& text, vector<string>& vars, Rows& rows) {
    rapidjson::Document d; d.Parse(text.c_str());
    if (d.HasParseError()) return "the JSON document does not parse";
    if (!d.IsObject() || !d.HasMember("head") || !d["head"].HasMember("vars") || !d.HasMember("results") || !d["results"].HasMember("bindings")) return "the JSON document lacks head.vars or results.bindings";
    for (auto& v : d["head"]["vars"].GetArray()) vars.push_back("?" + string(v.GetString()));
    for (auto& b : d["results"]["bindings"].GetArray()) {
        vector<string> row(vars.size()); size_t seen = 0;
        for (size_t i = 0; i < vars.size(); i++) {
            auto it = b.FindMember(vars[i].c_str() + 1); if (it == b.MemberEnd()) continue; seen++;
            auto& o = it->value; if (!o.HasMember("type") || !o.HasMember("value")) return "a binding lacks type or value";
            string ty = o["type"].GetString(), v(o["value"].GetString(), o["value"].GetStringLength());
            if (ty == "uri") row[i] = "<" + v + ">";
            else if (ty == "literal" || ty == "typed-literal") row[i] = "\"" + v + "\"" + (o.HasMember("lang") ? string("@") + o["lang"].GetString() : "") + (o.HasMember("datatype") ? string("^^<") + o["datatype"].GetString() + ">" : "");
            else return "a binding has the type " + ty;
            if ((ty == "typed-literal") != o.HasMember("datatype")) return "a binding of type " + ty + (ty == "literal" ? " has" : " lacks") + " a datatype";
        }
        if (seen != b.MemberCount()) return "a binding names a variable that is not in head.vars";
        rows.push_back(row);
    }
    return "";
}
// tab-separated text back into rows
static string fromTSV(const string& text, vector<string>& vars, Rows& rows) {
    if (text == "[empty result]\n") return "";
    vector<string> lines; { size_t p = 0, q; while ((q = text.find('\n', p)) != string::npos) { lines.push_back(text.substr(p, q - p)); p = q + 1; } if (p != text.size()) return "the text does not end with a newline"; }
    for (size_t i = 0; i < lines.size(); i++) {
        vector<string> c(1); for (char x : lines[i]) { if (x == '\t') c.push_back(""); else c.back() += x; }
        if (!i) { vars = c; continue; }
        if (c.size() != vars.size()) return "line " + num(i) + " has " + num(c.size()) + " columns: " + lines[i];
        for (auto& x : c) if (x.size() && x[0] == '"') {
            string y = "\""; size_t k = 1; for (; k < x.size() && x[k] != '"'; k++) { if (x[k] == '\\') { k++; y += x[k] == 'n' ? '\n' : x[k] == 'r' ? '\r' : x[k] == 't' ? '\t' : x[k]; } else y += x[k]; }
            x = y + x.substr(k);
        }
        rows.push_back(c);
    }
    return "";
}
static Database* DB; static Graph G; static string CURDB;
static void check(Worker& W, const string& sig, const string& q, const vector<string>& wv, Rows want, bool ordered, int lo, int hi) {
    W.at(sig + "\n" + q); W.sh->execs++; W.sh->states++;
    string e;
    auto cmp = [&](const string& what, const vector<string>& vars, Rows rows) {
        W.sh->transitions++;
        if (!e.empty()) return;
        if (!(rows.empty() && vars.empty()) && !wv.empty() && vars != wv) { e = what + ": the variables are"; for (auto& v : vars) e += " " + v; return; }
        if (ordered && rows != want) e = what + ": " + diffRows(q, rows, want);
        if (!ordered) { if (lo == 0 && hi < 0) e = diffRows(q, sorted(rows), sorted(want)); else {   // a page: the right number of rows, each of them a row of the whole
            long n = std::max<long>(0, (long)want.size() - lo); if (hi >= 0) n = std::min<long>(n, hi); if ((long)rows.size() != n) e = "expected " + num(n) + " rows, got " + num(rows.size()); Rows s = sorted(want); for (auto& r : rows) { auto it = std::find(s.begin(), s.end(), r); if (it == s.end()) { e = "a row that is not in the answer: " + rowsStr({r}); break; } s.erase(it); } }
            if (!e.empty()) e = what + ": " + e; }
    };
    for (int first = 0; first < 4 && e.empty(); first++) {   // each form first, then all of them again on the same result
        FILE* f = tmpfile(); ResultSet rs; int code = 0;
        try { code = DB->query(q, rs, first == 3 ? f : NULL, true, false, nullptr); } catch (const std::exception& x) { e = string("threw ") + x.what(); }
        if (e.empty() && code != -100) e = "returned " + num(code);
        for (int k = 0; k < 4 && e.empty(); k++) {
            int form = (first + k) % 4; if (form == 3 && k) continue; vector<string> v; Rows r;
            string again = k ? " (after another form of the same result)" : "";
            if (form == 0) { e = fromJSON(rs.to_JSON(), v, r); cmp("JSON" + again, v, r); }
            if (form == 1) { e = fromTSV(rs.to_str(), v, r); cmp("text" + again, v, r); }
            if (form == 2 || form == 3) {
                if (form == 2) { fclose(f); f = tmpfile(); rs.output(f); }
                fflush(f); rewind(f); string t; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); 
                e = fromTSV(t, v, r); cmp(form == 2 ? "file output" + again : "output of the query itself", v, r);
            }
        }
        fclose(f);
    }
    W.outcome(rowsStr(want));
    if (!e.empty()) W.fail(sig, "query: " + q + "\n" + e);
}

int main(int argc, char** argv) {
    Explorer X("C09", argc, argv);
    bool th = X.argThorough();
    vector<string> terms = {"<http://example.org/a?b=c#d>", "<x>", "\"\"", "\"\"@en", "\"1.5\"^^<http://www.w3.org/2001/XMLSchema#decimal>", "\"true\"^^<http://www.w3.org/2001/XMLSchema#boolean>", "\"a\"^^<x>\"", "\"^^<x>\"@en", "\"a\"@en\"", "\"a\"@en\"^^<http://t/dt>", "\"<x>\"", "\"?x\"", "\"a\"^^<http://t/x>\"^^<http://t/dt>", "\"^^<http://t/x>\"^^<http://t/dt>", "\"<br />\"^^<http://t/dt>", "\"@\"", "\"a@b.c\"", "\"a@b.c\"^^<http://t/dt>"};
    int n = sizeof CH / sizeof *CH; vector<string> cs; for (int i = 0; i < n; i++) { cs.push_back(CH[i]); for (int j = 0; j < n; j++) { cs.push_back(string(CH[i]) + CH[j]); if (th) for (int k = 0; k < n; k++) cs.push_back(string(CH[i]) + CH[j] + CH[k]); } }
    for (auto& c : cs) for (auto k : KIND) terms.push_back("\"" + c + "\"" + k);
    const long B = 8; long nb = (terms.size() + B - 1) / B;
    auto init = [&](Worker& W) { libInit(); mkdir(".tmp", 0755); };
    auto setup = [&](Worker& W, const Graph& g) {
        if (exists(dbDir("t"))) rmTree(W.dir + "/" + dbDir("t"));
        string text; for (auto& t : g) text += t.s + " " + t.p + " " + sparqlOf(t.o) + " .\n";
        buildDB("t", text); DB = openDB("t"); G = g;
    };
    for (int low = 0; low < 2; low++) X.run(low ? "terms-disk" : "terms", nb, init, [&, low](Worker& W, long b) {
        LOWMEM = low;
        Graph g; int k = 0; vector<string> used;
        for (long i = b * B; i < std::min<long>((b + 1) * B, terms.size()); i++) { g.insert({"<s" + num(k) + ">", "<p>", terms[i]}); if (k % 2) g.insert({"<s" + num(k) + ">", "<q>", terms[i]}); used.push_back(terms[i]); k++; }
        setup(W, g); if (!DB) { W.fail("terms " + num(b), "the database does not load"); return; }
        Rows so, son, o; for (size_t i = 0; i < used.size(); i++) { so.push_back({"<s" + num(i) + ">", used[i]}); son.push_back({"<s" + num(i) + ">", used[i], i % 2 ? used[i] : ""}); o.push_back({used[i]}); }
        string id = string(low ? "terms-disk " : "terms ") + num(b) + " ";
        check(W, id + "two", "SELECT ?s ?o WHERE { ?s <p> ?o }", {"?s", "?o"}, so, false, 0, -1);
        check(W, id + "one", "SELECT ?o WHERE { ?s <p> ?o }", {"?o"}, o, false, 0, -1);
        check(W, id + "optional", "SELECT ?s ?o ?n WHERE { ?s <p> ?o OPTIONAL { ?s <q> ?n } }", {"?s", "?o", "?n"}, son, false, 0, -1);
        check(W, id + "order", "SELECT ?s ?o WHERE { ?s <p> ?o } ORDER BY ?s", {"?s", "?o"}, so, true, 0, -1);
        check(W, id + "bind", "SELECT ?s ?v WHERE { ?s <p> ?o BIND(?o AS ?v) }", {"?s", "?v"}, so, false, 0, -1);
        if (b % 97 == 0) W.sample(ntg(g).substr(0, 400));
        delete DB;
    });
    {   // pages: every offset and limit, ordered or not, rows 0..5, unbound columns
        for (int low = 0; low < 3; low++) X.run(low == 2 ? "pages-merge" : low ? "pages-disk" : "pages", 6 * 6, init, [&, low](Worker& W, long t) {
            LOWMEM = low; Stream::BASE_MEMORY_LIMIT = low == 2 ? 60 : 1u << 30;
            int rows = t / 6, shape = t % 6; Graph g; g.insert({"<z>", "<z>", "<z>"}); Rows w;
            for (int i = 0; i < rows; i++) { string s = "<s" + num(i) + ">", o = i % 2 ? "\"x\ty\"@en" : "\"l\n" + num(i) + "\""; g.insert({s, "<p>", o}); if (i % 2) g.insert({s, "<q>", "\"q\""}); w.push_back(shape == 2 ? vector<string>{s, o, i % 2 ? "\"q\"" : ""} : shape == 3 ? vector<string>{i % 2 ? "\"q\"" : "", s} : shape == 4 ? vector<string>{o, o, s} : shape == 5 ? vector<string>{"", s, "", o} : vector<string>{s, o}); }
            setup(W, g); if (!DB) { W.fail(string(low ? "pages-disk " : "pages ") + num(t), "the database does not load"); return; }
            for (int ord = 0; ord < 3; ord++) for (int dist = 0; dist < 2; dist++) for (int off = 0; off <= rows + 2; off++) for (int lim = -1; lim <= rows + 2; lim++) {
                string q = string("SELECT ") + (dist ? "DISTINCT " : "") + (shape == 0 ? "?s ?o" : shape == 1 ? "*" : shape == 2 ? "?s ?o ?n" : shape == 3 ? "?n ?s" : shape == 5 ? "?u ?s ?w ?o" : "?o ?o ?s"); if (shape == 4) q = string("SELECT ") + (dist ? "DISTINCT " : "") + "?o ?v ?s";
                q += " WHERE { ?s <p> ?o"; if (shape == 2 || shape == 3) q += " OPTIONAL { ?s <q> ?n }"; if (shape == 4) q += " BIND(?o AS ?v)"; q += " }";
                if (ord) q += ord == 1 ? " ORDER BY ?s" : " ORDER BY DESC(?s)"; if (off) q += " OFFSET " + num(off); if (lim >= 0) q += " LIMIT " + num(lim);
                vector<string> wv = shape < 2 ? vector<string>{"?s", "?o"} : shape == 2 ? vector<string>{"?s", "?o", "?n"} : shape == 3 ? vector<string>{"?n", "?s"} : shape == 5 ? vector<string>{"?u", "?s", "?w", "?o"} : vector<string>{"?o", "?v", "?s"};
                Rows x = w; if (ord == 2) std::reverse(x.begin(), x.end());
                if (ord) { Rows y; for (int i = off; i < (int)x.size() && (lim < 0 || i < off + lim); i++) y.push_back(x[i]); check(W, string(low ? "pages-disk " : "pages ") + num(t) + " " + q, q, wv, y, true, 0, -1); }
                else check(W, string(low ? "pages-disk " : "pages ") + num(t) + " " + q, q, wv, x, false, off, lim);
            }
            for (auto* q : {"ASK { ?s <p> ?o }", "ASK { ?s <p> \"none\" }"}) check(W, string(low ? "pages-disk " : "pages ") + num(t) + " " + q, q, {}, {{string(rows && strstr(q, "?o") ? "\"true\"" : "\"false\"") + "^^<http://www.w3.org/2001/XMLSchema#boolean>"}}, true, 0, -1);
            check(W, string(low ? "pages-disk " : "pages ") + num(t) + " count", "SELECT (COUNT(?s) AS ?c) WHERE { ?s <p> ?o }", {"?c"}, {{"\"" + num(rows) + "\"^^<http://www.w3.org/2001/XMLSchema#integer>"}}, true, 0, -1);
            delete DB;
        });
    }
    {   // the stream of sorted records alone: every sequence of up to 6 (7) records, every run size, read twice and in part
        static const char* V[] = {"", "<a>", "<b>", "\"2\"^^<http://www.w3.org/2001/XMLSchema#integer>", "\"10\"^^<http://www.w3.org/2001/XMLSchema#integer>"}; const int NV = 5;   // in SPARQL order
        int N = th ? 7 : 6;
        X.run("stream", NV * NV * NV, init, [&](Worker& W, long t) {
            LOWMEM = true; Rows none;
            for (int n = 1; n <= N; n++) {
                long rest = 1; for (int i = 3; i < n; i++) rest *= NV;
                if (n < 3 && t >= pow(NV, n)) continue;
                for (long x = 0; x < rest; x++) {
                    vector<int> a; long y = t; for (int i = 0; i < std::min(n, 3); i++) { a.push_back(y % NV); y /= NV; } y = x; for (int i = 3; i < n; i++) { a.push_back(y % NV); y /= NV; }
                    string sig = "stream"; for (int v : a) sig += " " + num(v);
                    for (int desc = 0; desc < 2; desc++) for (unsigned lim : {1u, 45u, 100u, 1u << 30}) {
                        W.at(sig); W.sh->execs++; Stream::BASE_MEMORY_LIMIT = lim; if (x % 1024 == 0) W.beat();
                        vector<TYPE_ENTITY_LITERAL_ID> keys = {0}; vector<bool> ds = {(bool)desc}; vector<pair<int, int>> want; for (int i = 0; i < n; i++) want.push_back({a[i], i});
                        std::stable_sort(want.begin(), want.end(), [&](const pair<int, int>& p, const pair<int, int>& q) { return desc ? p.first > q.first : p.first < q.first; });
                        Stream st(keys, ds, n, 2, true); for (int i = 0; i < n; i++) { string r = "\"r" + num(i) + "\""; st.write(V[a[i]], strlen(V[a[i]])); st.write(r.c_str(), r.size()); }
                        st.setEnd(); string e;
                        for (int pass = 0; pass < 3 && e.empty(); pass++) {
                            vector<string> got; std::set<string> rows; int m = pass == 1 ? n / 2 : n;
                            for (int i = 0; i < m; i++) { const Bstr* b = st.read(); W.sh->transitions++; if (!b) { e = "reading ends after " + num(i) + " records"; break; } string k(b[0].getStr(), b[0].getLen()), r(b[1].getStr(), b[1].getLen());
                                if (k != V[want[i].first]) { e = "record " + num(i) + " has the key " + k + " instead of " + V[want[i].first]; break; }
                                int j = r.size() > 3 ? atoi(r.c_str() + 2) : -1; if (j < 0 || j >= n || V[a[j]] != k || !rows.insert(r).second) { e = "record " + num(i) + " is " + k + " " + r; break; } }
                            if (!e.empty()) e = "pass " + num(pass) + ": " + e; st.setEnd();
                        }
                        if (!e.empty()) { W.fail(sig + (desc ? " descending" : ""), "memory limit " + num(lim) + ": " + e); return; }
                    }
                    W.sh->states++;
                }
            }
        });
    }
    X.rule = "Results with every listed term, size, page, order and unbound pattern, serialized by the real code in every order of the forms, parsed back and compared.";
    X.boundsText = th ? "literals: contents up to length 3 over 19 characters in 6 kinds; results of up to 5 rows and 4 columns with every offset and limit, in memory, on disk and merged; sorted streams of up to 7 records" : "literals: contents up to length 2 over 19 characters in 6 kinds; results of up to 5 rows and 4 columns with every offset and limit, in memory, on disk and merged; sorted streams of up to 6 records";
    return X.finish();
}
