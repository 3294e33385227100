// Common machinery of the harnesses: a scratch run directory, an explorer that spreads the cases of a finite space
// over worker processes, and small helpers to drive the real code (built from /repo's working tree).
#pragma once
#include "Util/Util.h"
#include "Database/Database.h"
#include "Parser/RDFParser.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <poll.h>
#include <time.h>
#include <set>
#include <map>
#include <string>
#include <vector>
#include <functional>
#include <atomic>
#include <tuple>
#include <algorithm>
#include <sstream>
#include <fstream>

namespace gs {
using std::string;
using std::vector;

struct T3 {
    string s, p, o;
    bool operator<(const T3& t) const { return std::tie(s, p, o) < std::tie(t.s, t.p, t.o); }
    bool operator==(const T3& t) const { return s == t.s && p == t.p && o == t.o; }
    string str() const { return s + " " + p + " " + o; }
};
typedef std::set<T3> Graph;
typedef vector<vector<string>> Rows;

inline double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
inline string num(long long x) { return std::to_string(x); }

// ---------------------------------------------------------------- files
inline void rmTree(const string& d) {   // only below the scratch root
    if (d.find("/verif_scratch.") == string::npos) { fprintf(stderr, "refusing to remove %s\n", d.c_str()); abort(); }
    DIR* h = opendir(d.c_str());
    if (h) {
        while (struct dirent* e = readdir(h)) {
            string n = e->d_name;
            if (n == "." || n == "..") continue;
            string f = d + "/" + n; struct stat st;
            if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmTree(f); else unlink(f.c_str());
        }
        closedir(h);
        rmdir(d.c_str());
    } else unlink(d.c_str());
}
inline string slurp(const string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
inline void spit(const string& f, const string& t) { std::ofstream o(f, std::ios::binary); o << t; }
inline bool exists(const string& f) { struct stat st; return stat(f.c_str(), &st) == 0; }
inline void copyTree(const string& a, const string& b) {
    mkdir(b.c_str(), 0755);
    DIR* h = opendir(a.c_str()); if (!h) return;
    while (struct dirent* e = readdir(h)) {
        string n = e->d_name; if (n == "." || n == "..") continue;
        string f = a + "/" + n, g = b + "/" + n; struct stat st;
        if (lstat(f.c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) { copyTree(f, g); continue; }
        int in = open(f.c_str(), O_RDONLY), out = open(g.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        off_t left = st.st_size; 
        static char buf[1 << 16]; ssize_t k;
        (void)left;
        while ((k = read(in, buf, sizeof buf)) > 0) if (write(out, buf, k) != k) abort();
        close(in); close(out);
    }
    closedir(h);
}
inline string scratchRoot() {   // memory-backed when there is room: the library syncs often
    const char* where[] = {"/dev/shm", "/tmp"};
    for (const char* w : where) { string t = string(w) + "/verif_scratch.XXXXXX"; if (mkdtemp(&t[0])) return t; }
    abort();
}
inline void setupRunDir(const string& d) {
    mkdir(d.c_str(), 0755);
    const char* cf[] = {"init.conf", "conf.ini", "backup.json", "ipAllow.config", "ipDeny.config", "slog.properties", "slog.stdout.properties"};
    for (const char* f : cf) spit(d + "/" + f, slurp(string("/repo/") + f));
    mkdir((d + "/logs").c_str(), 0755); mkdir((d + "/backups").c_str(), 0755); mkdir((d + "/data").c_str(), 0755);
    mkdir((d + "/bin").c_str(), 0755);
    if (chdir(d.c_str())) abort();
}

// ---------------------------------------------------------------- explorer
struct Shared {
    std::atomic<long> next, done, states, transitions, execs, distinct, fails, skipped;
    std::atomic<long> extra[16];
};
struct Slot { std::atomic<long> task; std::atomic<double> beat; std::atomic<int> pid; char cur[6000]; };

struct Worker {
    int id; Shared* sh; Slot* slot; int out; string dir; bool replay; bool verbose;
    long task = -1;
    vector<string> samples;
    void at(const string& s) { snprintf(slot->cur, sizeof slot->cur, "%s", s.c_str()); slot->beat = wall(); }
    void beat() { slot->beat = wall(); }
    void send(const string& kind, const string& sig, const string& msg) {
        string m = kind + "\x1f" + num(task) + "\x1f" + sig + "\x1f" + msg + "\x1e";
        size_t o = 0; while (o < m.size()) { ssize_t k = write(out, m.data() + o, std::min<size_t>(m.size() - o, 4096)); if (k <= 0) _exit(97); o += k; }
    }
    // sig identifies the failing input (known findings are matched on it)
    void fail(const string& sig, const string& msg) { sh->fails++; send("F", sig, msg); }
    void sample(const string& s) { send("S", "", s); }
    // a distinct observed outcome (hash), collected by the master
    std::set<size_t> seenOut;
    void outcome(const string& s) { size_t h = std::hash<string>()(s); if (seenOut.size() < 2000000 && seenOut.insert(h).second) outbuf.push_back(h); }
    vector<size_t> outbuf;
    void flush() {
        if (outbuf.empty()) return;
        string s; for (size_t h : outbuf) { char b[20]; snprintf(b, sizeof b, "%zx,", h); s += b; if (s.size() > 3000) { send("O", "", s); s.clear(); } }
        if (!s.empty()) send("O", "", s);
        outbuf.clear();
    }
};

struct Explorer {
    string prop; string tier = "quick"; string covfile; string replayfile; string knownfile; string repdir;
    long onlyTask = -1; string onlyMode; int jobs = 8; double deadline = 780, hang = 12; 
    std::map<string, string> known;       // signature -> description
    vector<std::pair<string, string>> meta; // extra coverage keys (json fragments)
    string rule, boundsText;
    vector<string> samples, violations, knownHit; std::map<string, int> vioSigs;
    std::set<size_t> outs;
    long tasksTotal = 0, tasksDone = 0; bool complete = true; 
    std::map<string, long> tot;
    double t0 = wall();
    int maxViolations = 5;
    bool argThorough() const { return tier == "thorough"; }

    Explorer(const string& p, int argc, char** argv) : prop(p) {
        for (int i = 1; i < argc; i++) {
            string a = argv[i];
            auto nx = [&]() { return i + 1 < argc ? string(argv[++i]) : string(); };
            if (a == "--tier") tier = nx(); else if (a == "--cov") covfile = nx(); else if (a == "--known") knownfile = nx();
            else if (a == "--repdir") repdir = nx(); else if (a == "--task") onlyTask = atol(nx().c_str());
            else if (a == "--mode") onlyMode = nx(); else if (a == "--jobs") jobs = atoi(nx().c_str());
            else if (a == "--deadline") deadline = atof(nx().c_str());
            if (tier == "thorough") deadline = 13000;
            if (a == "--all") maxViolations = 1000000;
        }
        std::ifstream k(knownfile); string line;
        while (std::getline(k, line)) {   // finding<TAB>property<TAB>signature<TAB>description
            if (line.compare(0, 8, "finding\t")) continue;
            vector<string> w; std::stringstream ss(line); string x; while (std::getline(ss, x, '\t')) w.push_back(x);
            if (w.size() >= 4 && w[1] == prop) known[w[2]] = w[3];
        }
        signal(SIGPIPE, SIG_IGN);
    }
    static string esc(const string& s) {
        string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; }
        return "\"" + r + "\"";
    }
    int lastW = 0;
    // Runs fn on every task 0..n-1 of `mode` in worker processes; init runs once per worker, in its own run directory.
    void run(const string& mode, long n, std::function<void(Worker&)> init, std::function<void(Worker&, long)> fn, int njobs = 0) {
        if (!onlyMode.empty() && onlyMode != mode) return;
        if (!njobs) njobs = jobs;
        if ((long)njobs > n) njobs = std::max(1L, n);
        if (onlyTask >= 0) njobs = 1;
        string root = scratchRoot();
        Shared* sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        Slot* slots = (Slot*)mmap(0, sizeof(Slot) * njobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (onlyTask >= 0) sh->next = onlyTask;
        long limit = onlyTask >= 0 ? onlyTask + 1 : n;
        vector<int> fds(njobs, -1), pids(njobs, 0); vector<string> buf(njobs); int respawns = 0, startFails = 0;
        auto spawn = [&](int w, long only, long hangX) {
            (void)hangX;
            int pp[2]; if (pipe(pp)) abort();
            slots[w].task = -1; slots[w].beat = wall(); slots[w].cur[0] = 0;
            fflush(stdout); fflush(stderr);
            int pid = fork();
            if (!pid) {
                setpgid(0, 0);
                close(pp[0]);
                Worker W; W.id = w; W.sh = sh; W.slot = &slots[w]; W.out = pp[1]; W.replay = onlyTask >= 0; W.verbose = W.replay;
                W.dir = root + "/w" + num(w) + "." + num(getpid());
                if (!getenv("VERIF_NOISE")) { int nul = open("/dev/null", O_RDWR); dup2(nul, 0); dup2(nul, 1); dup2(nul, 2); close(nul); }
                setupRunDir(W.dir);
                init(W);
                atexit([] { _exit(98); });   // the code under test calls exit() in places
                while (true) {
                    long t = only >= 0 ? only : sh->next.fetch_add(1);
                    if (only < 0 && t >= limit) break;
                    W.task = t; slots[w].task = t; slots[w].beat = wall();
                    fn(W, t);
                    sh->done++;
                    slots[w].task = -1;
                    if (W.outbuf.size() > 200) W.flush();
                    if (only >= 0) break;
                }
                W.flush();
                _exit(0);
            }
            close(pp[1]);
            setpgid(pid, pid);
            fds[w] = pp[0]; pids[w] = pid; slots[w].pid = pid; buf[w].clear();
        };
        struct F { long task; string sig, msg; };
        vector<F> raw; std::set<string> rawSigs;
        bool stop = false;
        auto handle = [&](int w, const string& rec, vector<F>& dst) {
            vector<string> f; size_t p = 0; for (int i = 0; i < 3; i++) { size_t q = rec.find('\x1f', p); if (q == string::npos) break; f.push_back(rec.substr(p, q - p)); p = q + 1; }
            f.push_back(rec.substr(p));
            if (f.size() < 4) return;
            if (f[0] == "S") { if (samples.size() < 24) samples.push_back(f[3]); }
            else if (f[0] == "O") { std::stringstream ss(f[3]); string x; while (std::getline(ss, x, ',')) if (!x.empty()) outs.insert(strtoull(x.c_str(), 0, 16)); }
            else if (f[0] == "F") dst.push_back({atol(f[1].c_str()), f[2], f[3]});
        };
        // reads from worker w; returns false at end of file
        auto drain = [&](int w, vector<F>& dst) {
            char b[65536]; ssize_t k = read(fds[w], b, sizeof b);
            if (k <= 0) return false;
            buf[w].append(b, k); size_t q;
            while ((q = buf[w].find('\x1e')) != string::npos) { handle(w, buf[w].substr(0, q), dst); buf[w].erase(0, q + 1); }
            return true;
        };
        auto reap = [&](int w, bool killed, vector<F>& dst) {
            int st = 0; waitpid(pids[w], &st, 0); kill(-pids[w], SIGKILL); close(fds[w]); fds[w] = -1;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return true;
            string why = killed ? "hangs (no progress for " + num((long)hang) + " s)" : WIFSIGNALED(st) ? string("crashes: ") + strsignal(WTERMSIG(st)) : "the process exits with status " + num(WEXITSTATUS(st));
            string cur = slots[w].cur; string sig = cur.substr(0, cur.find('\n'));
            dst.push_back({(long)slots[w].task, "crash:" + sig, why + "\n" + cur});
            if (slots[w].task >= 0) sh->done++; else startFails++;
            return false;
        };
        auto consider = [&](F f) {
            if (known.count(f.sig)) { if (!vioSigs[f.sig]++) { knownHit.push_back(f.sig); printf("KNOWN-FINDING: property=%s %s [%s]\n", prop.c_str(), known[f.sig].c_str(), f.sig.c_str()); fflush(stdout); } return; }
            if (vioSigs[f.sig]++) return;
            if ((int)violations.size() >= maxViolations) { stop = true; return; }
            // replay alone before reporting
            bool again = onlyTask >= 0 || (f.task < 0 && startFails >= 3);   // the common start of every case fails
            string msg2 = f.msg;
            for (int a = 0; a < 4 && !again && f.task >= 0; a++) {
                vector<F> g; int w = 0;
                // a spare slot: reuse arrays with index njobs-1 only after every worker ended
                spawn(w, f.task, 0);
                bool killed = false;
                while (true) {
                    struct pollfd pf = {fds[w], POLLIN, 0}; poll(&pf, 1, 500);
                    if (pf.revents && !drain(w, g)) break;
                    if (wall() - slots[w].beat > 2 * hang) { kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); killed = true; }
                }
                reap(w, killed, g);
                for (auto& x : g) if (x.sig == f.sig || x.sig.substr(0, 6) == "crash:") { again = true; msg2 = x.msg; break; }
            }
            if (!again && ++notRepeated >= 3) { again = true; msg2 += "\n(in this run only together with the cases before it)"; }
            if (!again) { printf("NOTE: property=%s a failure did not repeat in 4 reruns of its case alone and is not reported: %s\n", prop.c_str(), f.sig.c_str()); vioSigs.erase(f.sig); return; }
            string path = repdir + "/" + prop + "-" + num(violations.size()) + ".txt";
            spit(path, "property " + prop + "\nmode " + mode + "\ntask " + num(f.task) + "\ntier " + tier + "\nsignature " + f.sig + "\n\n" + msg2 + "\n\nRun it again alone: python3 /verif/check.py " + prop + " --tier " + tier + " --mode " + mode + " --task " + num(f.task) + "\n");
            violations.push_back(f.sig);
            printf("VIOLATION property=%s replay=%s\n  %s\n%s\n", prop.c_str(), path.c_str(), f.sig.c_str(), msg2.substr(0, 1500).c_str());
            fflush(stdout);
        };
        for (int w = 0; w < njobs; w++) spawn(w, -1, 0);
        int alive = njobs; vector<bool> killed(njobs, false);
        while (alive > 0) {
            vector<struct pollfd> pf; vector<int> idx;
            for (int w = 0; w < njobs; w++) if (fds[w] >= 0) { pf.push_back({fds[w], POLLIN, 0}); idx.push_back(w); }
            poll(pf.data(), pf.size(), 500);
            for (size_t i = 0; i < pf.size(); i++) {
                int w = idx[i];
                if (pf[i].revents && !drain(w, raw)) {
                    if (!reap(w, killed[w], raw) && respawns++ < 40 && !stop && raw.size() < 200) { killed[w] = false; spawn(w, -1, 0); }
                    else alive--;
                    continue;
                }
                if (fds[w] >= 0 && !killed[w] && wall() - slots[w].beat > hang) { killed[w] = true; kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); }
            }
            // enough distinct new failures: stop exploring
            { std::set<string> ns; for (auto& f : raw) if (!known.count(f.sig)) ns.insert(f.sig); if ((int)ns.size() >= 4 * maxViolations || wall() - t0 > deadline) { if (wall() - t0 > deadline) complete = false; for (int w = 0; w < njobs; w++) if (fds[w] >= 0) sh->next = limit; stop = true; } }
        }
        if (sh->done < limit - (onlyTask >= 0 ? onlyTask : 0)) complete = false;
        if (respawns >= 40) complete = false;
        for (auto& f : raw) { if ((int)violations.size() >= maxViolations) break; consider(f); }
        tasksTotal += n; tasksDone += sh->done;
        tot["states"] += sh->states; tot["transitions"] += sh->transitions; tot["execs"] += sh->execs;
        tot["distinct"] += sh->distinct;
        for (int i = 0; i < 16; i++) if (sh->extra[i]) tot["extra" + num(i)] += sh->extra[i];
        meta.push_back({"mode_" + mode, "{\"cases\": " + num(sh->done) + ", \"executions\": " + num(sh->execs) + ", \"transitions\": " + num(sh->transitions) + ", \"states\": " + num(sh->states) + "}"});
        munmap(sh, sizeof(Shared)); munmap(slots, sizeof(Slot) * njobs);
        rmTree(root);
    }
    int notRepeated = 0;
    int finish(const string& assumption = "") {
        std::ofstream o(covfile.empty() ? "/dev/null" : covfile);
        o << "{\"states\": " << tot["states"] << ", \"transitions\": " << tot["transitions"] << ", \"traces_validated_against_impl\": " << tot["execs"]
          << ", \"evaluations\": " << tot["execs"] << ", \"distinct_nontrivial\": " << outs.size()
          << ", \"cases\": " << tasksDone << ", \"cases_in_space\": " << tasksTotal << ", \"exhaustive\": " << ((complete && onlyTask < 0 && violations.empty()) ? "true" : "false")
          << ", \"rule\": " << esc(rule) << ", \"bounds\": " << esc(boundsText) << ", \"not_repeated\": " << notRepeated << ", \"known_findings_seen\": " << knownHit.size();
        for (auto& m : meta) o << ", " << esc(m.first) << ": " << m.second;
        o << ", \"samples\": [";
        for (size_t i = 0; i < samples.size(); i++) o << (i ? ", " : "") << esc(samples[i].substr(0, 600));
        o << "]}";
        o.close();
        printf("%s: %ld/%ld cases, %ld executions, %ld transitions, %ld states, %zu distinct outcomes, %.1f s%s\n", prop.c_str(), tasksDone, tasksTotal, tot["execs"], tot["transitions"], tot["states"], outs.size(), wall() - t0, complete ? "" : " (NOT complete)");
        if (!violations.empty()) return 1;
        return 0;
    }
};

// ---------------------------------------------------------------- driving the database
inline void libInit(int group = 50000) {
    static Util* u = nullptr; if (!u) u = new Util();
    RDFParser::TRIPLE_NUM_PER_GROUP = group;
}
inline string nt(const vector<T3>& g) { string s; for (auto& t : g) s += t.s + " " + t.p + " " + t.o + " .\n"; return s; }
inline string ntg(const Graph& g) { return nt(vector<T3>(g.begin(), g.end())); }
inline string dbDir(const string& name) { return Util::global_config["db_home"] + "/" + name + Util::global_config["db_suffix"]; }
inline bool buildDB(const string& name, const string& ntText) {
    string f = "in_" + name + ".nt"; spit(f, ntText);
    Socket* s = nullptr; (void)s;
    Database d(name);
    bool ok = d.build(f);
    if (ok) spit(dbDir(name) + "/success.txt", "");
    unlink(f.c_str());
    return ok;
}
inline Database* openDB(const string& name) { Database* d = new Database(name); if (!d->load()) { delete d; return nullptr; } return d; }

struct Res { int code = 0; bool threw = false; string err; vector<string> vars; Rows rows; bool ask = false; };
inline void grab(ResultSet& rs, Res& r) {
    for (int i = 0; i < rs.true_select_var_num && i < rs.select_var_num; i++) r.vars.push_back(rs.var_name[i]);
    long long lo = std::min<long long>(rs.ansNum, rs.output_offset), hi = rs.output_limit < 0 ? (long long)rs.ansNum : std::min<long long>(rs.ansNum, lo + rs.output_limit);
    bool st = rs.checkUseStream();
    if (st) rs.resetStream();
    for (long long i = st ? 0 : lo; i < hi; i++) {
        vector<string> row; const Bstr* b = st ? rs.getOneRecord() : nullptr;
        if (st && !b) break;
        for (int c = 0; c < rs.true_select_var_num; c++) row.push_back(st ? (b[c].getStr() ? string(b[c].getStr()) : string()) : rs.answer ? rs.answer[i][c] : string("<no answer table>"));
        if (i >= lo) r.rows.push_back(row);
    }
}
inline Res ask(Database* db, const string& q, bool update = false, shared_ptr<Transaction> txn = nullptr) {
    Res r; ResultSet rs;
    try { r.code = db->query(q, rs, NULL, true, false, txn); }
    catch (const std::exception& e) { r.threw = true; r.err = e.what(); return r; }
    catch (...) { r.threw = true; r.err = "?"; return r; }
    if (r.code == -100) grab(rs, r);
    return r;
}
inline string rowsStr(const Rows& r) { string s; for (auto& x : r) { s += "("; for (size_t i = 0; i < x.size(); i++) s += (i ? " | " : "") + x[i]; s += ") "; } return s; }
inline Rows sorted(Rows r) { std::sort(r.begin(), r.end()); return r; }
} // namespace gs
