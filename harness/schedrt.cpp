// Scheduler runtime: overrides the pthread functions that order threads; everything is decided by `prefix`.
#include "schedrt.h"
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <sched.h>
#include <time.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <atomic>
#include <map>
#include <malloc.h>
#include <string.h>
#include <new>
#include <set>
namespace sched {
using std::vector;
struct Th { enum S { Ready, Blocked, Join, Done } st = Ready; void* on = 0; int joinOf = -1; std::atomic<int> go; pthread_t pt; std::function<void()> body; void* (*f)(void*) = 0; void* arg = 0; bool lazy = false; Th() : go(0) {} };
static const int MAXT = 64;
static Th* T[MAXT]; static int nT = 0;
static bool on = false; static int cur = -1; static thread_local int me = -1; static thread_local bool inside = false;
static const Prefix* pre; static size_t prei; static int bound_, used; static long clock_; static bool fine_, countAll_; static Trace* tr; static long points;
struct Held { std::map<int, int> by; };
static std::map<void*, Held>* locks; static vector<std::string>* bad;
static std::atomic<int> finished;

static void fwait(std::atomic<int>* a) { while (a->load() == 0) syscall(SYS_futex, (int*)a, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); a->store(0); }
static void fwake(std::atomic<int>* a) { a->store(1); syscall(SYS_futex, (int*)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
static void ended(int status) { tr->status = status; tr->points = points; finished.store(1); syscall(SYS_futex, (int*)&finished, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

static void handTo(int t, bool wait) {
    if (t == me && wait) return;
    cur = t; int self = me;
    fwake(&T[t]->go);
    if (wait) fwait(&T[self]->go);
}
// cur cannot or need not go on: pick who runs next
bool freeMarks = false;
bool recording = false; static std::map<void*, int>* early;   // read/write locks taken before the threads start
static int note(void* l, int d, int r) { if (recording && me < 0 && r == 0) { recording = false; if (!early) early = new std::map<void*, int>(); (*early)[l] += d; recording = true; } return r; }
static void pick(bool curEnabled, bool wait, bool free = false) {
    bool pays = (curEnabled && !free) || countAll_;
    int opts[MAXT], n = 0;
    if (curEnabled) opts[n++] = me;
    for (int i = 0; i < nT; i++) if (i != me && T[i]->st == Th::Ready && !T[i]->lazy) opts[n++] = i;
    if (!n) for (int i = 0; i < nT; i++) if (i != me && T[i]->st == Th::Ready) { opts[n++] = i; T[i]->lazy = false; }
    if (!n) {
        bool all = true; for (int i = 0; i < nT; i++) if (T[i]->st != Th::Done) all = false;
        ended(all ? 1 : 2);
        if (!wait) return;
        for (;;) pause();
    }
    int c = 0;
    if (n > 1 && !(pays && used >= bound_)) {
        int k = tr->n;
        if (k >= MAXD) { ended(3); for (;;) pause(); }
        if (prei < pre->size() && (*pre)[prei].first == k) c = (*pre)[prei++].second;
        if (c >= n) { fprintf(stderr, "sched: the execution does not repeat: decision %d has %d options, not %d\n", k, n, c); ended(4); for (;;) pause(); }
        tr->d[k] = {(unsigned short)n, (unsigned short)c, curEnabled && !free}; tr->n = k + 1;
        if (c && pays) used++;
    }
    handTo(opts[c], wait);
}
static bool active() { return on && me >= 0 && !inside; }
// the locks inside the parser runtime and the logger are not worth a scheduling point: they guard nothing of the database
static bool quiet(void* ret) {
    static std::map<void*, bool>* seen = new std::map<void*, bool>();
    auto it = seen->find(ret); if (it != seen->end()) return it->second;
    Dl_info d; bool q = false;
    if (dladdr(ret, &d) && d.dli_sname) { std::string n = d.dli_sname; q = n.find("antlr") != std::string::npos || n.find("log4cplus") != std::string::npos || n.find("SPARQLLexer") != std::string::npos || n.find("SPARQLParser") != std::string::npos; }
    if (getenv("SCHED_SHOW")) fprintf(stderr, "lock point in %s%s\n", d.dli_sname ? d.dli_sname : "?", q ? " (quiet)" : "");
    return (*seen)[ret] = q;
}
#define ACTIVE (active() && !quiet(__builtin_return_address(0)))
static void point(bool free = false) { points++; if (points > 3000000) { ended(3); for (;;) pause(); } pick(true, true, free); }
void mark() { if (!active()) return; inside = true; point(freeMarks); inside = false; }
bool poison = false;
long tick() { return ++clock_; }
std::vector<std::string> held() {
    vector<std::string> r = *bad; for (auto& l : *locks) for (auto& h : l.second.by) if (h.second > 0) { char b[80]; snprintf(b, sizeof b, "a lock is still held by thread %d (%d times)", h.first, h.second); r.push_back(b); }
    return r;
}
static void wake(void* l) { for (int i = 0; i < nT; i++) if (T[i]->st == Th::Blocked && T[i]->on == l) T[i]->st = Th::Ready; }
static void* entry(void* p) {
    int id = (int)(long)p; me = id;
    fwait(&T[id]->go);
    if (T[id]->f) T[id]->f(T[id]->arg); else T[id]->body();
    T[id]->st = Th::Done;
    for (int i = 0; i < nT; i++) if (T[i]->st == Th::Join && T[i]->joinOf == id) T[i]->st = Th::Ready;
    pick(false, false);
    me = -1; inside = false;
    return 0;
}
#define REAL(n) static auto real = (decltype(&n))dlsym(RTLD_NEXT, #n)
static int realCreate(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) { REAL(pthread_create); return real(t, a, f, x); }
void run(const vector<std::function<void()>>& bodies, const Prefix& prefix, int bound, bool fine, bool countAll, Trace* out) {
    countAll_ = countAll;
    pre = &prefix; prei = 0; clock_ = 0; bound_ = bound; used = 0; fine_ = fine; tr = out; points = 0; nT = 0; tr->n = 0; tr->status = 0; finished.store(0);
    locks = new std::map<void*, Held>(); bad = new vector<std::string>(); if (early) for (auto& x : *early) if (x.second > 0) (*locks)[x.first].by[-1] = x.second;
    for (auto& b : bodies) { T[nT] = new Th(); T[nT]->body = b; nT++; }
    on = true;
    for (int i = 0; i < (int)bodies.size(); i++) realCreate(&T[i]->pt, 0, entry, (void*)(long)i);
    me = -1; pick(false, false);
    while (!finished.load()) syscall(SYS_futex, (int*)&finished, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    on = false;
}
// ---- locks: the real object is used too, so that its state is right for everybody
template <class F> static int lockLoop(void* l, F tryit) {
    point();
    for (;;) {
        int r = tryit();
        if (r != EBUSY && r != EDEADLK) { if (r == 0) (*locks)[l].by[me]++; return r; }
        T[me]->st = Th::Blocked; T[me]->on = l; pick(false, true);
    }
}
template <class F> static int tryOnce(void* l, F tryit) { point(); int r = tryit(); if (r == 0) (*locks)[l].by[me]++; return r; }
// `any`: a lock that may be released by another thread than the one that took it (shared locks kept over calls)
static void release(void* l, const char* what) {
    auto& h = (*locks)[l].by;
    if (h[me] > 0) { h[me]--; return; }
    for (auto& x : h) if (x.second > 0) { x.second--; return; }
    char b[80]; snprintf(b, sizeof b, "a %s is released that nobody holds", what); bad->push_back(b);
}
}
using namespace sched;
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { REAL(pthread_mutex_lock); static auto t = (decltype(&pthread_mutex_trylock))dlsym(RTLD_NEXT, "pthread_mutex_trylock"); if (!ACTIVE) return real(m); inside = true; int r = lockLoop(m, [&] { return t(m); }); inside = false; return r; }
int pthread_mutex_trylock(pthread_mutex_t* m) { REAL(pthread_mutex_trylock); if (!ACTIVE) return real(m); inside = true; int r = tryOnce(m, [&] { return real(m); }); inside = false; return r; }
int pthread_mutex_unlock(pthread_mutex_t* m) { REAL(pthread_mutex_unlock); if (!ACTIVE) return real(m); inside = true; release(m, "mutex"); int r = real(m); wake(m); if (fine_) point(); inside = false; return r; }
int pthread_spin_lock(pthread_spinlock_t* m) { REAL(pthread_spin_lock); static auto t = (decltype(&pthread_spin_trylock))dlsym(RTLD_NEXT, "pthread_spin_trylock"); if (!ACTIVE) return real(m); inside = true; int r = lockLoop((void*)m, [&] { return t(m); }); inside = false; return r; }
int pthread_spin_trylock(pthread_spinlock_t* m) { REAL(pthread_spin_trylock); if (!ACTIVE) return real(m); inside = true; int r = tryOnce((void*)m, [&] { return real(m); }); inside = false; return r; }
int pthread_spin_unlock(pthread_spinlock_t* m) { REAL(pthread_spin_unlock); if (!ACTIVE) return real(m); inside = true; release((void*)m, "spin lock"); int r = real(m); wake((void*)m); if (fine_) point(); inside = false; return r; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { REAL(pthread_rwlock_rdlock); static auto t = (decltype(&pthread_rwlock_tryrdlock))dlsym(RTLD_NEXT, "pthread_rwlock_tryrdlock"); if (!ACTIVE) return note(m, 1, real(m)); inside = true; int r = lockLoop(m, [&] { return t(m); }); inside = false; return r; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { REAL(pthread_rwlock_wrlock); static auto t = (decltype(&pthread_rwlock_trywrlock))dlsym(RTLD_NEXT, "pthread_rwlock_trywrlock"); if (!ACTIVE) return note(m, 1, real(m)); inside = true; int r = lockLoop(m, [&] { return t(m); }); inside = false; return r; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { REAL(pthread_rwlock_tryrdlock); if (!ACTIVE) return note(m, 1, real(m)); inside = true; int r = tryOnce(m, [&] { return real(m); }); inside = false; return r; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { REAL(pthread_rwlock_trywrlock); if (!ACTIVE) return note(m, 1, real(m)); inside = true; int r = tryOnce(m, [&] { return real(m); }); inside = false; return r; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { REAL(pthread_rwlock_unlock); if (!ACTIVE) return note(m, -1, real(m)); inside = true; point(); release(m, "read/write lock"); int r = real(m); wake(m); inside = false; return r; }
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) {
    if (!active() || nT >= MAXT) return realCreate(t, a, f, x);
    inside = true; int id = nT; T[id] = new Th(); T[id]->f = f; T[id]->arg = x;
    int r = realCreate(&T[id]->pt, a, entry, (void*)(long)id); *t = T[id]->pt; nT++;
    point(); inside = false; return r;
}
int pthread_join(pthread_t t, void** v) {
    REAL(pthread_join); if (!active()) return real(t, v);
    inside = true; for (int i = 0; i < nT; i++) if (T[i]->st != Th::Done && pthread_equal(T[i]->pt, t)) { while (T[i]->st != Th::Done) { T[me]->st = Th::Join; T[me]->joinOf = i; pick(false, true); } }
    int r = real(t, v); inside = false; return r;
}
static void lazyYield() { inside = true; points++; T[me]->lazy = true; pick(false, true); T[me]->lazy = false; inside = false; }
int sched_yield() { if (active()) { lazyYield(); return 0; } REAL(sched_yield); return real(); }
int usleep(useconds_t n) { if (active()) { lazyYield(); return 0; } REAL(usleep); return real(n); }
unsigned sleep(unsigned n) { if (active()) { lazyYield(); return 0; } REAL(sleep); return real(n); }
int nanosleep(const struct timespec* a, struct timespec* b) { if (active()) { lazyYield(); return 0; } REAL(nanosleep); return real(a, b); }
__attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc() { if (!fine_ || !active()) return; inside = true; point(); inside = false; }
}

// freed objects are overwritten and kept: a later use of one shows
static void drop(void* p) { if (p && sched::poison && sched::on) { size_t n = malloc_usable_size(p); memset(p, 0xdb, n > 65536 ? 65536 : n); return; } free(p); }
void operator delete(void* p) noexcept { drop(p); }
void operator delete[](void* p) noexcept { drop(p); }
void operator delete(void* p, size_t) noexcept { drop(p); }
void operator delete[](void* p, size_t) noexcept { drop(p); }
