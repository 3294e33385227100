// C15: the three logs of the server, page by page
struct LEnt { string a, b, c, d; };
static const int NPAGES[] = {1, 2, 3, 10};
static string TODAY;
template <class L> static string pageErr(const string& h, const vector<string>& want, int page, int size, int rp, int rs, const L& got, int totalSize, int totalPage) {
    long n = want.size(); int sz = size < 1 ? 10 : size, pg = page < 1 ? 1 : page;
    (void)rp; (void)rs;
    if (totalSize != n) return h + ": the total is " + num(totalSize) + ", " + num(n) + " were written";
    if (totalPage != (n + sz - 1) / sz) return h + ": the number of pages is " + num(totalPage);
    vector<string> w; for (long i = n - (long)sz * (pg - 1) - 1; i >= 0 && (long)w.size() < sz; i--) w.push_back(want[i]);
    if (got.size() != w.size()) return h + ": the page has " + num(got.size()) + " entries instead of " + num(w.size());
    for (size_t i = 0; i < w.size(); i++) if (got[i] != w[i]) return h + ": entry " + num(i) + " is " + Explorer::esc(got[i].substr(0, 200)) + " instead of " + Explorer::esc(w[i].substr(0, 200));
    return "";
}
// which: 0 access, 1 query, 2 transaction; reads every page of sizes 1,2,3,10 and the defaults, and one page too many
static string readAll(Worker& W, int which, const vector<string>& want) {
    for (int size : {0, 1, 2, 3, 10}) {
        int sz = size < 1 ? 10 : size; int pages = (want.size() + sz - 1) / sz;
        for (int page = size ? 1 : 0; page <= pages + 1; page++) {
            string h = string(which == 0 ? "access" : which == 1 ? "query" : "transaction") + " log, page " + num(page) + " of size " + num(size); W.at(h);
            int pg = page, s2 = size; vector<string> got; int ts = -1, tp = -1; bool threw = false;
            try {
                if (which == 0) { DBAccessLogs l; S->get_access_log(TODAY, pg, s2, &l); ts = l.getTotalSize(); tp = l.getTotalPage(); for (auto& e : l.getAccessLogInfoList()) got.push_back(e.getIP() + "|" + e.getOperation() + "|" + num(e.getCode()) + "|" + e.getMsg()); }
                else if (which == 1) { DBQueryLogs l; S->get_query_log(TODAY, pg, s2, &l); ts = l.getTotalSize(); tp = l.getTotalPage(); for (auto& e : l.getQueryLogInfoList()) got.push_back(e.getRemoteIP() + "|" + e.getSparql() + "|" + num(e.getAnsNum()) + "|" + e.getFormat() + "|" + e.getFileName() + "|" + num(e.getStatusCode()) + "|" + num((long)e.getQueryTime())); }
                else { TransactionLogs l; S->get_transactionlog(pg, s2, &l); ts = l.getTotalSize(); tp = l.getTotalPage(); for (auto& e : l.getTransactionLogInfoList()) got.push_back(e.getDbName() + "|" + e.getTID() + "|" + e.getUser() + "|" + e.getState() + "|" + e.getBeginTime() + "|" + e.getEndTime()); }
            } catch (std::invalid_argument&) { threw = true; }
            W.sh->states++;
            bool past = page > std::max(pages, 1) || (page > pages && pages > 0);
            if (past && pages) { if (!threw) return h + ": a page after the last is answered"; continue; }
            if (past) continue;
            if (threw) return h + ": refused";
            string e = pageErr(h, want, page, size, pg, s2, got, ts, tp); if (e.size()) return e;
        }
    }
    return "";
}
static string big(int n) { string s = "select * where { ?s ?p \""; while ((int)s.size() < n - 3) s += (char)('a' + s.size() % 26); return s + "\" }"; }
static const char* TXT[] = {"select ?s where {?s ?p ?o.}", "insert data { <a> <b> \"q\\\"u\\\\o\\n\". }", "\xe4\xb8\xad {,}[,],", "line\nbreak\ttab", "", ","};
static string sparqlText(int k) { if (k < 6) return TXT[k]; static const int len[] = {1000, 1023, 1024, 1025, 1100, 2047, 5000, 70000}; return big(len[k - 6]); }
static const int NTXT = 14;
static void initLogs(Worker& W) { initAdmin(W); spit("conf.ini", slurp("/repo/conf.ini")); TODAY = Util().get_date_day(); }
static void fresh() { reset(BASE); system("rm -f logs/ipaccess/*.log logs/endpoint/*.log logs/transaction.json"); if (!start()) abort(); TODAY = Util().get_date_day(); }
static void queryLogs(Worker& W, const vector<int>& texts) {
    fresh(); vector<string> want; string h = "queries of the lengths"; 
    for (int k : texts) { string t = sparqlText(k); h += " " + num((long)t.size());
        DBQueryLogInfo q("2026-01-01 00:00:00:000", "1.2.3." + num(k), t, 5 + k, "json", "f" + num(k), 0, 7 + k, "d1"); S->write_query_log(&q); W.sh->transitions++;
        want.push_back("1.2.3." + num(k) + "|" + t + "|" + num(5 + k) + "|json|f" + num(k) + "|0|" + num(7 + k)); }
    W.at(h); string e; try { e = readAll(W, 1, want); } catch (std::exception& x) { e = x.what(); }
    if (e.size()) W.fail(h + ": " + e, h + "\n" + e);
    W.outcome(h); W.sh->execs++;
}
static void accessLogs(Worker& W, const vector<int>& texts) {
    fresh(); vector<string> want; string h = "messages of the lengths"; 
    for (int k : texts) { string t = sparqlText(k); h += " " + num((long)t.size());
        S->write_access_log("op" + num(k), "1.2.3." + num(k), k, t); W.sh->transitions++;
        string u; for (char c : t) if (c != '\n') u += c;
        want.push_back("1.2.3." + num(k) + "|op" + num(k) + "|" + num(k) + "|" + u); }
    W.at(h); string e; try { e = readAll(W, 0, want); } catch (std::exception& x) { e = x.what(); }
    if (e.size()) W.fail(h + ": " + e, h + "\n" + e);
    W.outcome(h); W.sh->execs++;
}
// operations: begin (3 slots in turn), commit/rollback/abort of slot 0..2, end of all that run, restart, look
static void txnLogs(Worker& W, long t, int depth) {
    fresh(); struct R { string db, tid, user, st, b, e; }; vector<R> rs; string h; int seq = 0;
    for (int i = 0; i <= depth; i++, t /= 12) {
        int o = t % 12; string op;
        if (i == depth) op = "";
        else if (o < 2) { seq++; string l = o ? string(300, 'n') : "u"; rs.push_back({"d" + num(o + 1), num(100 + seq), l, "RUNNING", num(1000 + seq), "INF"}); op = "begin " + rs.back().tid; S->add_transactionlog(rs.back().db, l, rs.back().tid, rs.back().b); }
        else if (o < 10) { int k = (o - 2) / 3; const char* st[] = {"COMMITED", "ROLLBACK", "ABORTED"}; string s = st[(o - 2) % 3]; if (o >= 8) { k = 2; s = st[(o - 8) * 2]; } string tid = num(101 + k), end = num(2000 + i); op = s + " " + tid; S->update_transactionlog(tid, s, end);
            for (auto& r : rs) if (r.tid == tid && r.st == "RUNNING") { r.st = s; r.e = end; } }
        else if (o == 10) { op = "end all"; S->abort_transactionlog(3000 + i); for (auto& r : rs) if (r.st == "RUNNING") { r.st = "ROLLBACK"; r.e = num(3000 + i); } }
        else { op = "restart"; killServer(); start(); }
        h += "; " + op; W.sh->transitions++; W.at(h);
        vector<string> want; for (auto& r : rs) want.push_back(r.db + "|" + r.tid + "|" + r.user + "|" + r.st + "|" + r.b + "|" + r.e);
        string e; try { e = readAll(W, 2, want); } catch (std::exception& x) { e = x.what(); }
        if (e.size()) { W.fail(h + ": " + e, h + "\n" + e); return; }
        W.outcome(h);
    }
    W.sh->execs++;
}
static int mainLogs(Explorer& X, bool th) {
    X.rule = "distinct histories of entries; every page of every page size is read for each and compared with what was written";
    X.run("query-one", NTXT, initLogs, [&](Worker& W, long t) { queryLogs(W, {(int)t}); });
    X.run("query-two", NTXT * NTXT, initLogs, [&](Worker& W, long t) { queryLogs(W, {(int)(t / NTXT), (int)(t % NTXT)}); });
    X.run("query-many", NTXT * 14, initLogs, [&](Worker& W, long t) { vector<int> v(t % 14 + 2, 0); v[(t / 14) % v.size()] = t / 14; queryLogs(W, v); });
    if (th) X.run("query-three", 1L * NTXT * NTXT * NTXT, initLogs, [&](Worker& W, long t) { queryLogs(W, {(int)(t / NTXT / NTXT), (int)(t / NTXT % NTXT), (int)(t % NTXT)}); });
    X.run("access-two", NTXT * NTXT, initLogs, [&](Worker& W, long t) { accessLogs(W, {(int)(t / NTXT), (int)(t % NTXT)}); });
    X.run("access-many", NTXT * 14, initLogs, [&](Worker& W, long t) { vector<int> v(t % 14 + 2, 0); v[(t / 14) % v.size()] = t / 14; accessLogs(W, v); });
    int depth = th ? 4 : 3; long n = 1; for (int i = 0; i < depth; i++) n *= 12;
    X.run("transactions", n, initLogs, [&](Worker& W, long t) { txnLogs(W, t, depth); });
    X.boundsText = "query and access logs: all pairs" + string(th ? " and triples" : "") + " of 14 texts (control characters, quotes, lengths around 1024 and up to 70000) and up to 15 entries with one of them at any place; transaction log: all sequences of " + num(depth) + " of 12 operations (begin, three ways to end each of three transactions, end all, restart); every page of sizes 1, 2, 3, 10 and the default after every step, and one page too many";
    return X.finish();
}
