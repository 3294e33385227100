// C12: every index file behaves as a map, for every sequence of operations, value length, cache size and reopening.
#include "gs.h"
#include <array>
#include "Database/Txn_manager.h"
using namespace gs;

// ---- the three kinds of index file behind one interface; keys are numbers, values are byte strings
struct Store {
    virtual ~Store() {}
    virtual bool ins(unsigned k, const string& v) = 0;
    virtual bool mod(unsigned k, const string& v) = 0;
    virtual bool rem(unsigned k) = 0;
    virtual bool get(unsigned k, string& v) = 0;
    virtual void save() = 0;
    virtual void open(bool build) = 0;
    void reopen() { save(); close(); open(false); }
    virtual void close() = 0;
};
template <class A, class L> struct ArrStore : Store {
    A* a = 0; unsigned long long cache; unsigned keys;
    ArrStore(unsigned long long c, unsigned k) : cache(c), keys(k) {}
    ~ArrStore() { delete a; }
    static char* dup(const string& v) { char* p = new char[v.size() + 1]; memcpy(p, v.data(), v.size()); return p; }
    bool ins(unsigned k, const string& v) { char* p = dup(v); return a->insert(k, p, (L)v.size()); }   // a refused value leaks here, which does not matter
    bool mod(unsigned k, const string& v) { return a->modify(k, dup(v), (L)v.size()); }
    bool rem(unsigned k) { return a->remove(k); }
    bool get(unsigned k, string& v) { char* p = 0; L n = 0; bool r = a->search(k, p, n); if (r && p) v.assign(p, n); if (r) delete[] p; return r; }
    void save() { a->save(); }
    void open(bool build) { a = new A(".", "arr", build ? "build" : "open", cache, keys); }
    void close() { delete a; a = 0; }
};
struct TreeStore : Store {
    SITree* t = 0; unsigned long long cache; std::function<string(unsigned)> key;
    TreeStore(unsigned long long c, std::function<string(unsigned)> f) : cache(c), key(f) {}
    ~TreeStore() { delete t; }
    static unsigned v2n(const string& v) { return (unsigned)atol(v.c_str()); }
    bool ins(unsigned k, const string& v) { string s = key(k); char* p = new char[s.size() + 1]; memcpy(p, s.data(), s.size()); return t->Insert(p, s.size(), v2n(v)); }
    bool mod(unsigned k, const string& v) { string s = key(k); return t->Modify(s.data(), s.size(), v2n(v)); }
    bool rem(unsigned k) { string s = key(k); return t->Remove(s.data(), s.size()); }
    bool get(unsigned k, string& v) { string s = key(k); unsigned x = 0; bool r = t->Search(s.data(), s.size(), &x); if (r) v = num(x); return r; }
    void save() { t->Save(); }
    void open(bool build) { t = new SITree(".", "tree", build ? "build" : "open", cache); }
    void close() { delete t; t = 0; }
};

static string show(const string& v) { return v.size() <= 24 ? "'" + v + "'" : num(v.size()) + " bytes '" + v.substr(0, 12) + "..." + v.substr(v.size() - 6) + "'"; }
static string value(int stamp, size_t len) {   // different for every stamp, at every offset
    string v(len, ' '); unsigned x = 2654435761u * (stamp + 1);
    for (size_t i = 0; i < len; i++) { x = x * 1664525u + 1013904223u; v[i] = 33 + (x >> 24) % 90; }
    return v;
}
static string checkKey(Store& s, const std::map<unsigned, string>& m, unsigned k) {
    string v; bool r = s.get(k, v); auto it = m.find(k);
    if (r != (it != m.end())) return "key " + num(k) + (r ? " is found with " + show(v) + " but was never stored or was removed" : " is not found, expected " + show(it->second));
    if (r && v != it->second) return "key " + num(k) + " gives " + show(v) + ", expected " + show(it->second);
    return "";
}

// ---- operation alphabets
struct SOp { char k; unsigned key; size_t len; };   // w write (insert/modify), r remove, b refused operation, g search, S save, R reopen
static string text(const SOp& o) {
    switch (o.k) { case 'w': return "put(" + num(o.key) + "," + num(o.len) + ")"; case 'r': return "remove(" + num(o.key) + ")"; case 'g': return "get(" + num(o.key) + ")";
        case 'S': return "save"; case 'R': return "reopen"; } return "?";
}
static string apply(Store& s, std::map<unsigned, string>& m, const SOp& o, int stamp, bool tree) {
    bool has = m.count(o.key), r;
    switch (o.k) {
    case 'w': {
        string v = tree ? num(stamp + 7) : value(stamp, o.len);
        if (has) { if (s.ins(o.key, v)) return "insert of the existing key " + num(o.key) + " is accepted"; if (!s.mod(o.key, v)) return "modification of key " + num(o.key) + " is refused"; }
        else { if (s.mod(o.key, v)) return "modification of the absent key " + num(o.key) + " is accepted"; if (!s.ins(o.key, v)) return "insertion of key " + num(o.key) + " is refused"; }
        m[o.key] = v; return "";
    }
    case 'r': r = s.rem(o.key); if (r != has) return "removal of the " + string(has ? "existing" : "absent") + " key " + num(o.key) + " reports " + num(r); m.erase(o.key); return "";
    case 'g': return checkKey(s, m, o.key);
    case 'S': s.save(); return "";
    case 'R': s.reopen(); return "";
    }
    return "";
}

typedef std::function<Store*()> Maker;
static void clean() { for (const char* f : {"arr_IVfile", "arr_ISfile", "arr_FreeBlockList", "arr_ValueFile", "tree"}) unlink(f); }

// a sequence that starts with `pre` (not checked in between) and continues with `h`
static void runSeq(Worker& W, const string& tag, const Maker& mk, bool tree, const vector<SOp>& pre, const vector<SOp>& h, const vector<unsigned>& keys, std::map<unsigned, string>* m0 = 0) {
    string sig = tag + ":"; for (auto& o : h) sig += " " + text(o);
    W.at(sig);
    clean();
    std::unique_ptr<Store> s(mk()); s->open(true);
    std::map<unsigned, string> m; string e; int stamp = 0;
    W.sh->execs++;
    for (auto& o : pre) { e = apply(*s, m, o, stamp++, tree); if (!e.empty()) { W.fail(tag + ": prefix " + text(o), e); return; } }
    for (auto& o : h) {
        e = apply(*s, m, o, stamp++, tree); W.sh->transitions++;
        if (!e.empty()) { e = "at " + text(o) + ": " + e; break; }
    }
    if (e.empty()) for (unsigned k : keys) { e = checkKey(*s, m, k); if (!e.empty()) { e = "at the end: " + e; break; } }
    if (e.empty()) { s->reopen(); for (unsigned k : keys) { e = checkKey(*s, m, k); if (!e.empty()) { e = "after reopening: " + e; break; } } }
    if (!e.empty()) W.fail(sig, sig + "\n  " + e);
    string o; for (auto& x : m) o += num(x.first) + "=" + num(x.second.size()) + ","; W.outcome(tag + o);
}

int main(int argc, char** argv) {
    Explorer X("C12", argc, argv);
    bool th = X.argThorough();
    auto init = [&](Worker& W) { libInit(5000); };
    auto seqSpace = [&](const string& mode, const string& tag, const Maker& mk, bool tree, const vector<SOp>& pre, const vector<SOp>& ops, int depth, const vector<unsigned>& keys, bool symmetric) {
        int sd = std::min(depth, 3); long total = 1; for (int i = 0; i < sd; i++) total *= ops.size();
        X.run(mode, total, init, [&, depth, sd](Worker& W, long t) {
            vector<SOp> h; long x = t; for (int i = 0; i < sd; i++) { h.insert(h.begin(), ops[x % ops.size()]); x /= ops.size(); }
            auto ok = [&](const vector<SOp>& v) {   // keys are interchangeable: a new one must be the next unused one
                if (!symmetric) return true;
                unsigned used = 0; for (auto& o : v) if (o.k == 'w' || o.k == 'r' || o.k == 'g') { if (o.key > used) return false; if (o.key == used) used++; }
                return true;
            };
            if (!ok(h)) return;
            W.sh->states++;
            std::function<void(int)> rec = [&](int d) {
                if (d == 0) { runSeq(W, tag, mk, tree, pre, h, keys); W.beat(); return; }
                for (auto& o : ops) {
                    if ((o.k == 'S' || o.k == 'R') && h.size() && h.back().k == o.k) continue;
                    h.push_back(o); if (ok(h)) rec(d - 1); h.pop_back();
                }
            };
            rec(depth - sd);
            if (t % 331 == 0) { string s = tag + ":"; for (auto& o : h) s += " " + text(o); W.sample(s); }
        });
    };
    {   // whole sessions: four keys, each session keeps, removes or writes each of them in a value of one or two blocks, then saves and reopens; at last new keys come
        Maker iv = [] { return new ArrStore<IVArray, unsigned long>(1100, 0); }, is = [] { return new ArrStore<ISArray, unsigned>(1100, 0); };
        const size_t L1 = 20, L2 = 300; int S = th ? 3 : 2; long total = S == 3 ? 65536 : 256;
        for (int kind = 0; kind < 2; kind++) for (int reopen = th ? 0 : 1; reopen < 2; reopen++) X.run(string("sessions-") + (kind ? "strings" : "values") + (reopen ? "" : "-save"), total, init, [&, kind, reopen](Worker& W, long t) {
            W.sh->states++;
            for (int last = 0; last < 256; last++) {
                vector<SOp> h; for (unsigned k = 0; k < 4; k++) h.push_back({'w', k, k == 2 ? L2 : L1});
                SOp end = {reopen ? 'R' : 'S', 0, 0}; h.push_back(end);
                long x = t; for (int i = 0; i < S; i++) { int c = i == S - 1 ? last : x % 256; x /= 256; for (unsigned k = 0; k < 4; k++, c /= 4) { if (c % 4 == 1) h.push_back({'r', k, 0}); if (c % 4 >= 2) h.push_back({'w', k, c % 4 == 2 ? L1 : L2}); } h.push_back(end); }
                h.push_back({'R', 0, 0}); h.push_back({'w', 4, L1}); h.push_back({'w', 5, L2}); h.push_back({'R', 0, 0});
                runSeq(W, kind ? "strings, sessions" : "value lists, sessions", kind ? is : iv, false, {}, h, {0, 1, 2, 3, 4, 5}); W.beat();
            }
        });
    }
    {   // value lists and strings: 244 bytes of data fit a block; the cache holds about one large value
        vector<SOp> ops; for (unsigned k = 0; k < 3; k++) { for (size_t l : {20, 300, 1000}) ops.push_back({'w', k, l}); ops.push_back({'r', k, 0}); }
        ops.push_back({'S', 0, 0}); ops.push_back({'R', 0, 0});
        Maker iv = [] { return new ArrStore<IVArray, unsigned long>(1100, 0); }, is = [] { return new ArrStore<ISArray, unsigned>(1100, 0); };
        seqSpace("values", "value lists, small cache", iv, false, {}, ops, th ? 6 : 5, {0, 1, 2}, true);
        seqSpace("strings", "strings, small cache", is, false, {}, ops, th ? 6 : 5, {0, 1, 2}, true);
        vector<SOp> g = ops; for (unsigned k = 0; k < 3; k++) g.push_back({'g', k, 0});
        Maker iv2 = [] { return new ArrStore<IVArray, unsigned long>(1 << 20, 0); }, is2 = [] { return new ArrStore<ISArray, unsigned>(1 << 20, 0); };
        seqSpace("values-g", "value lists with reads", iv, false, {}, g, th ? 5 : 4, {0, 1, 2}, true);
        seqSpace("strings-g", "strings with reads", is, false, {}, g, th ? 5 : 4, {0, 1, 2}, true);
        seqSpace("values-big", "value lists, large cache", iv2, false, {}, g, th ? 5 : 4, {0, 1, 2}, true);
        // very long lists are not cached
        vector<SOp> l; for (unsigned k = 0; k < 2; k++) { for (size_t n : {100, 1000000, 1000001}) l.push_back({'w', k, n}); l.push_back({'r', k, 0}); l.push_back({'g', k, 0}); }
        l.push_back({'R', 0, 0});
        Maker iv3 = [] { return new ArrStore<IVArray, unsigned long>(1 << 23, 0); };
        seqSpace("values-long", "long value lists", iv3, false, {}, l, th ? 4 : 3, {0, 1}, true);
    }
    {   // growth of the arrays: every key as the one that makes it grow, and every value length around the block size
        long n = th ? 8300 : 4200;
        X.run("growth", 3 * n, init, [&](Worker& W, long t) {
            int kind = t % 3; unsigned k = t / 3; 
            Maker mk; unsigned fits = kind == 2 ? 1500 : 0;
            if (kind == 1) mk = [=] { return new ArrStore<ISArray, unsigned>(1 << 20, fits); }; else mk = [=] { return new ArrStore<IVArray, unsigned long>(1 << 20, fits); };
            W.sh->states++;
            runSeq(W, string(kind == 1 ? "strings" : "value lists") + " built for " + num(fits) + " keys", mk, false, {}, {{'w', 3, 40}, {'w', k == 3 ? 4 : k, 60}, {'w', 3, 70}, {'r', k == 3 ? 4 : k, 0}, {'w', k, 50}}, {0, 3, k, k + 1, k > 0 ? k - 1 : 0, 1023, 1024, 2047, 2048});
        });
        X.run("lengths", 2 * 1300, init, [&](Worker& W, long t) {
            size_t len = 1 + t / 2; Maker mk;
            if (t % 2) mk = [] { return new ArrStore<ISArray, unsigned>(4000, 0); }; else mk = [] { return new ArrStore<IVArray, unsigned long>(4000, 0); };
            W.sh->states++;
            runSeq(W, t % 2 ? "strings" : "value lists", mk, false, {}, {{'w', 0, len}, {'w', 1, 9}, {'R', 0, 0}, {'w', 1, len}, {'w', 2, len + 1}, {'S', 0, 0}, {'r', 0, 0}, {'w', 0, len + 2}, {'R', 0, 0}, {'r', 1, 0}, {'w', 3, len}}, {0, 1, 2, 3});
        });
    }
    {   // the same at the level of a database: terms get numbers until the one that makes an index grow is used
        vector<int> cnt; for (int k = 1018; k < 1030; k++) cnt.push_back(k); for (int k = 2040; k < 2054; k++) cnt.push_back(k);
        if (th) { for (int k = 4090; k < 4100; k++) cnt.push_back(k); for (int k = 8186; k < 8196; k++) cnt.push_back(k); }
        X.run("db-growth", cnt.size() * 3, init, [&](Worker& W, long t) {
            int n = cnt[t / 3], how = t % 3;   // the subject is inserted by an update, in a transaction, or as a predicate's first use
            string sig = "database with " + num(n) + " objects, then " + (how == 0 ? "an update" : how == 1 ? "a transaction" : "a file") + " that makes the last one a subject";
            W.at(sig); W.sh->states++; W.sh->execs++;
            rmTree(W.dir + "/" + dbDir("gdb")); if (!buildDB("gdb", "<a> <p> <b> .\n")) { W.fail(sig, "build fails"); return; }
            Database* db = openDB("gdb"); string nts, last, e; Graph g = {{"<a>", "<p>", "<b>"}};
            for (int i = 0; i < n; i++) { last = "<o" + num(i) + ">"; g.insert({"<a>", "<p>", last}); nts += "<a> <p> " + last + " .\n"; }
            spit("u.nt", nts); db->batch_insert("u.nt"); W.beat();
            T3 x = {last, "<q>", "\"v\""}; g.insert(x); string q = "INSERT DATA { " + x.str() + " . }";
            if (how == 0) { Res r = ask(db, q, true); if (r.threw || r.code != 1) e = "the update reports " + num(r.code) + " " + r.err; }
            if (how == 1) { Txn_manager TM(db, "gdb"); txn_id_t id = TM.Begin(IsolationLevelType::SNAPSHOT); string res; int c = TM.Query(id, q, res); if (c < 0) e = "the update in a transaction reports " + num(c); if (TM.Commit(id)) e += " the commit fails"; TM.Checkpoint(); }
            if (how == 2) { spit("u.nt", x.str() + " .\n"); if (db->batch_insert("u.nt") != 1) e = "the file update reports another number than 1"; }
            auto chk = [&](const string& when) {
                if (!e.empty()) return;
                Graph got; Res r = ask(db, "SELECT ?s ?p ?o WHERE { ?s ?p ?o . }"); for (auto& w : r.rows) got.insert({w[0], w[1], w[2]});
                if (got != g) e = when + ": all triples: " + num(got.size()) + " instead of " + num(g.size());
                r = ask(db, "SELECT ?p ?o WHERE { " + last + " ?p ?o . }"); if (e.empty() && (r.rows.size() != 1 || r.rows[0] != vector<string>{"<q>", "\"v\""})) e = when + ": the triples of " + last + ": " + rowsStr(r.rows);
            };
            chk("before reopening"); delete db; db = openDB("gdb"); chk("after reopening"); delete db;
            if (!e.empty()) W.fail(sig, sig + "\n  " + e);
            W.outcome(sig); if (t % 9 == 0) W.sample(sig);
        });
    }
    // ---- the string tree: a leaf or inner node holds up to 125 keys
    auto shortKey = [](unsigned k) { char b[16]; snprintf(b, sizeof b, "<k%05u>", k); return string(b); };
    auto mixedKey = [](unsigned k) { char b[16]; snprintf(b, sizeof b, "%05u", k); return string(b) + string(k % 7 == 3 ? 5000 : k % 5, 'x') + (k % 11 == 0 ? string(1, '\xc3') : ""); };
    {   // all short sequences from trees whose nodes are about to split, to merge or to borrow
        vector<unsigned> bases = {0, 1, 61, 62, 63, 124, 125, 126, 187, 188, 249};
        for (unsigned n : bases) {
            vector<SOp> pre; for (unsigned i = 0; i < n; i++) pre.push_back({'w', 10 + 10 * i, 0});
            vector<SOp> ops; auto K = [&](unsigned i) { return 10 + 10 * i; };
            std::set<unsigned> in = {0, 1, n / 2, n - 1, 61, 62, 63}; std::set<unsigned> out = {5, K(61) + 5, K(62) + 5, K(n) + 5};
            for (unsigned i : in) if (i < n) ops.push_back({'r', K(i), 0});
            for (unsigned k : out) ops.push_back({'w', k, 0});
            if (n) ops.push_back({'w', K(n / 2), 0});
            ops.push_back({'R', 0, 0});
            vector<unsigned> keys; for (unsigned i = 0; i < n + 2; i++) { keys.push_back(K(i)); keys.push_back(K(i) + 5); } keys.push_back(5);
            Maker mk = [=] { return new TreeStore(1 << 24, shortKey); };
            seqSpace("tree" + num(n), "tree of " + num(n) + " keys", mk, true, pre, ops, th ? 4 : 3, keys, false);
        }
    }
    {   // whole lives of trees: size x insertion order x removal order x key kind x buffer, all keys checked throughout
        vector<unsigned> sizes = {1, 2, 62, 63, 124, 125, 126, 127, 187, 188, 189, 250, 251, 252, 313, 400, 700}; if (th) for (unsigned n : {1000, 2000}) sizes.push_back(n);
        vector<unsigned> huge = {8200}; 
        auto order = [](unsigned n, int kind) {
            vector<unsigned> v; 
            if (kind == 0) for (unsigned i = 0; i < n; i++) v.push_back(i);
            if (kind == 1) for (unsigned i = n; i--;) v.push_back(i);
            if (kind == 2) for (unsigned i = 0; i < n; i++) v.push_back(i % 2 ? n / 2 + i / 2 + (n % 2) : (n % 2 ? n / 2 : n / 2 - 1) - i / 2);   // middle out
            if (kind == 3) for (unsigned i = 0; i < n; i++) v.push_back(i % 2 ? n - 1 - i / 2 : i / 2);                                           // outside in
            if (kind == 4) for (unsigned s = 0; s < 3; s++) for (unsigned i = s; i < n; i += 3) v.push_back(i);
            if (kind == 5) { unsigned st = 37; while (std::__gcd(st, n) != 1) st++; for (unsigned i = 0; i < n; i++) v.push_back((unsigned)((unsigned long)i * st % n)); }
            std::set<unsigned> chk(v.begin(), v.end()); if (chk.size() != n || *chk.rbegin() != n - 1) abort();
            return v;
        };
        auto life = [&](Worker& W, unsigned n, int io, int ro, int kk, int buf, int when) {
            string sig = "tree life: n=" + num(n) + " insert-order=" + num(io) + " remove-order=" + num(ro) + " keys=" + (kk ? "mixed" : "short") + " buffer=" + (buf ? "small" : "large") + " reopen=" + num(when);
            W.at(sig); clean();
            std::function<string(unsigned)> key = shortKey; if (kk) key = mixedKey;
            // a small buffer holds a few nodes only
            unsigned long long cap = 1 << 26; if (buf) cap = kk ? 2500000 : n > 2000 ? 400000 : 22000;
            TreeStore s(cap, key); s.open(true); W.sh->execs++;
            std::map<unsigned, string> m; string e; int stamp = 0;
            auto all = [&]() { for (unsigned i = 0; i <= n && e.empty(); i++) e = checkKey(s, m, i); };
            unsigned step = n <= 130 ? 1 : n <= 400 ? 17 : n <= 2000 ? 61 : 1009;
            vector<unsigned> a = order(n, io), b = order(n, ro);
            for (size_t i = 0; i < a.size() && e.empty(); i++) {
                e = apply(s, m, {'w', a[i], 0}, stamp++, true); W.sh->transitions++;
                if (e.empty() && i % step == step - 1) all();
                if (e.empty() && when && i == n * when / 4) { s.reopen(); all(); }
            }
            if (e.empty()) { if (when == 3) s.save(); else s.reopen(); all(); }
            for (size_t i = 0; i < b.size() && e.empty(); i++) {
                e = apply(s, m, {'r', b[i], 0}, stamp++, true); W.sh->transitions++;
                if (e.empty() && i % step == step - 1) all();
                if (e.empty() && when && i == n * when / 4) { s.reopen(); all(); }
                if (e.empty() && i % 5 == 4 && io == 5) { e = apply(s, m, {'w', b[i - 2], 0}, stamp++, true); if (e.empty()) e = apply(s, m, {'r', b[i - 2], 0}, stamp++, true); }
            }
            if (e.empty()) { s.reopen(); all(); }
            for (size_t i = 0; i < a.size() && e.empty() && i < 140; i++) e = apply(s, m, {'w', a[i], 0}, stamp++, true);   // a tree that was emptied is usable
            if (e.empty()) { s.reopen(); all(); }
            if (!e.empty()) W.fail(sig, sig + "\n  " + e);
            W.outcome(sig); W.beat();
        };
        vector<std::array<int, 6>> cs;
        for (unsigned n : sizes) for (int io = 0; io < 6; io++) for (int ro = 0; ro < 6; ro++) for (int kk = 0; kk < 2; kk++) for (int buf = 0; buf < 2; buf++) for (int w = 0; w < 4; w++) {
            if (kk && (n > 400 || (!th && (io + ro + w) % 3))) continue;
            if (!th && n > 300 && (io + ro + w) % 2) continue;
            cs.push_back({(int)n, io, ro, kk, buf, w});
        }
        if (th) for (unsigned n : huge) for (int io = 0; io < 6; io++) for (int ro = 0; ro < 6; ro++) for (int buf = 0; buf < 2; buf++) cs.push_back({(int)n, io, ro, 0, buf, 2});
        else for (int x : {0, 1, 4, 5}) { cs.push_back({8200, x, x, 0, 0, 0}); cs.push_back({8200, 0, x, 0, 1, 2}); }
        X.run("tree-life", cs.size(), init, [&](Worker& W, long t) { auto& c = cs[t]; W.sh->states++; life(W, c[0], c[1], c[2], c[3], c[4], c[5]); });
    }
    X.rule = "Every sequence of put, remove, get, save and reopen over three keys and three value lengths, on the real index files with a cache that holds about one value (and with a large one), every key as the one that makes an array grow, every value length up to 1300 bytes, every short sequence from trees about to split or merge, and whole lives of trees by size, insertion order, removal order, buffer and reopening point: all results are compared with a map. Distinct outcomes are distinct final contents.";
    X.boundsText = th ? "depth 6 (5 with reads, 4 long lists), trees: depth 4, up to 8200 keys; two sessions of 256 choices" : "depth 5 (4 with reads, 3 long lists), trees: depth 3, up to 8200 keys; two sessions of 256 choices";
    return X.finish();
}
