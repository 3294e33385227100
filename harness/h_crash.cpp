// C06: what a save, a close or a build has stored survives the death of the process at any later point before the next
// save.  The process that runs a history is stopped before each system call that changes a file (ptrace), and the
// directory is opened again in the state it has then.
#include "model.h"
#include <sys/ptrace.h>
#include <sys/user.h>
#include <sys/syscall.h>
using namespace gs;

static vector<string> INIT; static vector<Graph> INITG;
static void addInit(vector<T3> t) { INIT.push_back(nt(t)); INITG.push_back(Graph(t.begin(), t.end())); }

static size_t hashTree(const string& d, size_t h = 1469598103934665603ull) {
    vector<string> names; DIR* dd = opendir(d.c_str()); if (!dd) return h;
    while (struct dirent* e = readdir(dd)) names.push_back(e->d_name);
    closedir(dd); std::sort(names.begin(), names.end());
    for (auto& n : names) {
        if (n == "." || n == "..") continue;
        string f = d + "/" + n; struct stat st; if (lstat(f.c_str(), &st)) continue;
        h = (h ^ std::hash<string>()(n)) * 1099511628211ull;
        if (S_ISDIR(st.st_mode)) h = hashTree(f, h); else h = (h ^ std::hash<string>()(slurp(f))) * 1099511628211ull;
    }
    return h;
}
static bool changesFiles(long nr, const struct user_regs_struct& r) {
    switch (nr) {
    case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev: case SYS_ftruncate: case SYS_truncate: case SYS_rename: case SYS_renameat: case SYS_renameat2:
    case SYS_unlink: case SYS_unlinkat: case SYS_rmdir: case SYS_mkdir: case SYS_creat: case SYS_fallocate: return !(nr == SYS_write && r.rdi <= 2);
    case SYS_open: return (r.rsi & (O_TRUNC | O_CREAT)) != 0;
    case SYS_openat: return (r.rdx & (O_TRUNC | O_CREAT)) != 0;
    }
    return false;
}
static const string a = "<a>", b = "<b>", p = "<p>", q = "<q>", l = "\"x\"", n5 = "\"5\"^^<http://www.w3.org/2001/XMLSchema#integer>", en = "\"x\"@en";
static const vector<string> S = {a, b, "<c>", p}, PR = {p, q, "<r>"}, O = {a, b, "<c>", l, en, n5, p};

// in a process of its own: opens the database in directory `name` and compares it with g, then uses it further
static string verify(const string& name, const Graph& g, bool further) {
    int fd[2]; if (pipe(fd)) abort();
    pid_t c = fork();
    if (c == 0) {
        close(fd[0]); string e; 
        alarm(8);
        Database* db = openDB(name);
        if (!db) e = "the database does not load";
        long n = 0;
        if (e.empty()) e = checkAccess(db, g, S, PR, O, Graph(), n);
        if (e.empty() && db->getTripleNum() != g.size()) e = "the triple count is " + num(db->getTripleNum()) + ", expected " + num(g.size());
        if (e.empty() && further) {   // still usable: an update and a reopening
            Graph h = g; 
            for (const Op& op : {mkIns({{a, "<new1>", "\"new\""}, {"<new2>", p, b}}), mkDelWhere({{a, p, "?y"}}), mkIns({{"<new3>", p, "\"new4\""}, {"<c>", q, b}})}) {
                op.apply(h); Res r = ask(db, op.text(), true); if (r.threw || r.code < 0) e = op.text() + " fails afterwards: " + num(r.code) + " " + r.err;
            }
            if (e.empty()) { e = checkAll3(db, h); if (!e.empty()) e = "after three further updates: " + e; }
            delete db; db = nullptr;
            if (e.empty()) { db = openDB(name); if (!db) e = "the database does not load after further updates"; }
            if (e.empty()) { e = checkAll3(db, h); if (!e.empty()) e = "after three further updates and a reopening: " + e; }
        }
        string m = e.substr(0, 3000) + "\x01"; if (write(fd[1], m.data(), m.size())) {}
        _exit(0);
    }
    close(fd[1]); string m; char buf[4096]; ssize_t k; while ((k = read(fd[0], buf, sizeof buf)) > 0) m.append(buf, k);
    close(fd[0]); int st; waitpid(c, &st, 0);
    if (m.empty() || m.back() != '\x01') return string("the process that opens the database ") + (WIFSIGNALED(st) ? string("is killed by ") + strsignal(WTERMSIG(st)) : "exits with " + num(WEXITSTATUS(st)));
    m.pop_back(); return m;
}
static std::set<std::pair<size_t, string>> memo;
static bool crashPoint(Worker& W, const string& sig, const string& full, const string& where, const string& name, const Graph& saved, bool further) {
    W.sh->transitions++; W.beat();
    size_t h = hashTree(dbDir(name)); string key = ntg(saved);
    if (!memo.insert({h, key}).second) return true;
    if (memo.size() > 400000) memo.clear();
    W.sh->states++;
    W.outcome(num((long long)h) + key);
    rmTree(W.dir + "/" + dbDir("crash")); copyTree(W.dir + "/" + dbDir(name), W.dir + "/" + dbDir("crash"));
    string e = verify("crash", saved, further);
    if (!e.empty()) { W.fail(sig + " @" + where, full + "\n  the process dies " + where + "\n  the last saved graph is " + ntg(saved) + "\n  after reopening: " + e); return false; }
    return true;
}
static string doOp(Database*& db, const Op& op, const string& name) {
    if (op.k == Op::Reopen) { delete db; db = openDB(name); return db ? "" : "does not reopen"; }
    if (op.k == Op::Save) { db->save(); return ""; }
    if (op.k == Op::FileIns) { spit("u.nt", nt(op.ins)); db->batch_insert("u.nt"); return ""; }
    if (op.k == Op::FileDel) { spit("u.nt", nt(op.del)); db->batch_remove("u.nt"); return ""; }
    Res r = ask(db, op.text(), true); return r.threw ? r.err : r.code < 0 ? "code " + num(r.code) : "";
}
static void killAll(pid_t c) {   // its traced threads have to be reaped before it
    kill(c, SIGKILL); int st; pid_t t;
    while ((t = waitpid(-1, &st, __WALL)) > 0) if (t == c && (WIFEXITED(st) || WIFSIGNALED(st))) return;
}
static void runHist(Worker& W, int init, const vector<Op>& ops, const vector<int>& h) {
    string full = "initial graph (built, loaded): " + ntg(INITG[init]); string sig = "init" + num(init) + ":";
    for (int x : h) { full += "\n  " + ops[x].text(); sig += " " + ops[x].text() + ";"; }
    W.at(sig); W.sh->execs++;
    string name = "db";
    rmTree(W.dir + "/" + dbDir(name)); copyTree(W.dir + "/" + dbDir("init" + num(init)), W.dir + "/" + dbDir(name));
    Graph g = INITG[init], saved = g;
    for (size_t k = 0; k + 1 < h.size(); k++) { ops[h[k]].apply(g); if (ops[h[k]].k == Op::Save || ops[h[k]].k == Op::Reopen) saved = g; }
    const Op& last = ops[h.back()];
    bool stores = last.k == Op::Save || last.k == Op::Reopen;
    pid_t c = fork();
    if (c == 0) {
        Database* db = openDB(name); if (!db) _exit(41);
        for (size_t k = 0; k + 1 < h.size(); k++) if (!doOp(db, ops[h[k]], name).empty()) _exit(42);
        if (ptrace(PTRACE_TRACEME, 0, 0, 0)) _exit(43);
        raise(SIGSTOP);
        string e = doOp(db, last, name);
        raise(SIGUSR1);
        _exit(e.empty() ? 0 : 44);
    }
    int st; auto dead = [&](const string& why) { killAll(c); W.fail(sig, full + "\n  " + why); };
    if (waitpid(c, &st, 0) < 0 || !WIFSTOPPED(st)) { W.fail(sig, full + "\n  the history does not run: exit status " + num(WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st))); return; }
    // an operation that stores is not stopped in between
    auto go = stores ? PTRACE_CONT : PTRACE_SYSCALL;
    ptrace(PTRACE_SETOPTIONS, c, 0, PTRACE_O_TRACESYSGOOD | (stores ? 0 : PTRACE_O_TRACECLONE) | PTRACE_O_EXITKILL);
    std::map<pid_t, bool> in; int nth = 0;
    ptrace(go, c, 0, 0);
    while (true) {
        pid_t t = waitpid(-1, &st, __WALL);
        if (t < 0) break;
        if (WIFEXITED(st) || WIFSIGNALED(st)) {
            if (t != c) continue;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
            W.fail(sig, full + "\n  the last operation fails: " + num(WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st))); return;
        }
        int sg = WSTOPSIG(st), deliver = 0;
        if (sg == (SIGTRAP | 0x80)) {
            in[t] = !in[t];
            if (in[t] && !stores) {
                struct user_regs_struct r; ptrace(PTRACE_GETREGS, t, 0, &r);
                if (changesFiles(r.orig_rax, r)) { nth++; if (!crashPoint(W, sig, full, "before file change " + num(nth) + " of the last operation", name, saved, false)) { dead(""); return; } }
            }
        } else if (sg == SIGUSR1) {   // the operation is complete
            last.apply(g); if (stores) saved = g;
            crashPoint(W, sig, full, "after the last operation", name, saved, true);
            killAll(c); return;
        } else if (sg == SIGSTOP || sg == SIGTRAP) { } else deliver = sg;
        ptrace(go, t, 0, deliver);
    }
}
int main(int argc, char** argv) {
    Explorer X("C06", argc, argv);
    bool th = X.argThorough(); X.hang = 30;
    addInit({{a, p, b}});
    addInit({{a, p, b}, {a, p, a}, {a, q, l}, {b, p, b}, {b, q, l}, {b, q, n5}});
    addInit({});
    auto init = [&](Worker& W) {
        libInit(3);
        for (size_t i = 0; i < INIT.size(); i++) {
            string nm = "init" + num(i);
            if (INIT[i].empty()) { Database d(nm); d.BuildEmptyDB(); spit(dbDir(nm) + "/success.txt", ""); }
            else buildDB(nm, INIT[i]);
        }
    };
    auto space = [&](const string& mode, const vector<Op>& ops, int depth, int nInit) {
        long total = 0, per = 1; vector<long> base;
        for (int d = 1; d <= depth; d++) { base.push_back(total); per *= ops.size(); total += nInit * per; }
        X.run(mode, total, init, [&, depth](Worker& W, long t) {
            int d = depth; while (t < base[d - 1]) d--;
            long x = t - base[d - 1]; int in = x % nInit; x /= nInit;
            vector<int> h; for (int i = 0; i < d; i++) { h.insert(h.begin(), x % ops.size()); x /= ops.size(); }
            runHist(W, in, ops, h); W.beat();
            if (t % 997 == 0) { string s = "init" + num(in); for (int c : h) s += "; " + ops[c].text(); W.sample(s); }
        });
    };
    vector<Op> ops = { mkIns({{a, p, a}, {b, "<r>", en}}), mkDel({{a, p, b}}), mkDelWhere({{"?x", q, "?y"}}), mkMod({{"?x", p, "?y"}}, {{"?y", q, "?x"}, {"?x", "<r>", "\"z\""}}, {{"?x", p, "?y"}}),
                       mkIns({{"<c>", "<r>", n5}}), mkFI({{a, p, b}, {"<c>", q, l}, {"<d>", p, b}}), mkSave(), mkReopen() };
    if (th) { ops.push_back(mkFD({{a, p, b}, {"<c>", q, l}, {b, q, l}, {b, p, b}})); ops.push_back(mkIns({{p, p, p}})); }
    space("ops", ops, th ? 4 : 3, 3);
    X.rule = "Every sequence of the listed operations up to the stated depth from each initial database runs in a process that is stopped before every system call of the last operation that changes a file and at its end; the directory as it is then is opened by a fresh process and all 8 lookup shapes, ASK and the triple count are compared with the graph of the last save, close or build; at the end points three further updates and a reopening follow. States are distinct (directory contents, saved graph) pairs.";
    X.boundsText = th ? "depth 4" : "depth 3";
    return X.finish();
}
