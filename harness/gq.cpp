// Developer tool: gq FILE.nt 'query' ... : builds a scratch database and prints the answer of each query/update.
#include "gs.h"
using namespace gs;
int main(int argc, char** argv) {
    string root = scratchRoot();
    string in = slurp(argv[1]);
    setupRunDir(root + "/w");
    int o = dup(1); if (!getenv("VERIF_NOISE")) { int nul = open("/dev/null", O_RDWR); dup2(nul, 1); dup2(nul, 2); }
    libInit(3);
    if (in.empty()) { Database d("db"); d.BuildEmptyDB(); spit(dbDir("db") + "/success.txt", ""); } else buildDB("db", in);
    Database* db = openDB("db");
    for (int i = 2; i < argc; i++) {
        string q = argv[i];
        if (q == "reopen") { delete db; db = openDB("db"); dprintf(o, "-- reopened %p\n", (void*)db); continue; }
        if (q == "save") { db->save(); continue; }
        if (q.substr(0, 4) == "fi: ") { spit("u.nt", q.substr(4)); dprintf(o, "batch_insert -> %u\n", db->batch_insert("u.nt")); continue; }
        if (q.substr(0, 4) == "fd: ") { spit("u.nt", q.substr(4)); dprintf(o, "batch_remove -> %u\n", db->batch_remove("u.nt")); continue; }
        bool upd = q.find("INSERT") != string::npos || q.find("DELETE") != string::npos;
        alarm(20);
        Res r = ask(db, q, upd);
        alarm(0);
        dprintf(o, "%s\n   code %d%s vars", q.c_str(), r.code, r.threw ? (" threw " + r.err).c_str() : "");
        for (auto& v : r.vars) dprintf(o, " %s", v.c_str());
        dprintf(o, "\n   %zu rows %s  [triples %llu]\n", r.rows.size(), rowsStr(r.rows).c_str(), (unsigned long long)db->getTripleNum());
    }
    delete db;
    rmTree(root);
}
