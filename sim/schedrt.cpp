// Runtime of the instrumented sources: the __tsan_* callbacks are the yield
// points of a deterministic scheduler and feed a happens-before check.
#include "simsched.h"
#include <algorithm>
#include <cstdlib>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <iostream>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
namespace sim {
namespace seam {
extern void (*onAlloc)(void *, size_t);
extern void (*onFree)(void *, size_t);
}
static const int MAXT = 4;
static const size_t STACK = 4u << 20;
typedef uint32_t Clk;
struct VC { Clk c[MAXT]; };
struct Cell {
    Clk w[MAXT], r[MAXT];
    uint32_t wpc[MAXT], rpc[MAXT];
    uint8_t wm[MAXT], rm[MAXT];
    uint8_t owner;
};
struct Page { uintptr_t key; Cell * cells; };
enum Kind { READ, WRITE, FUNC, SYNC, KINDS };

struct Th {
    int id = 0;
    sem_t go;
    pthread_t pt;
    bool done = false;
    long idx = 0;             // yield points passed
    VC vc;
    uintptr_t lastPage = ~(uintptr_t) 0;
    Cell * lastCells = nullptr;
    std::vector<std::pair<long, int> > plan;   // explicit: yield point -> thread
    size_t next = 0;
    long spin = 0;
    const volatile void * spinAt = nullptr;
};
static thread_local Th * self = nullptr;
// nothing the runtime does itself counts
struct Inside { bool old; Inside() : old(seam::inSut) { seam::inSut = false; } ~Inside() { seam::inSut = old; } };
static Th * th[MAXT];
static int nth = 0;
static sem_t mainGo;
static SchedReport * rep;
static const std::function<void(int)> * theBody;
static char * stacks = nullptr;
static uintptr_t s0, s1;

// ---- shadow memory
static const size_t HASH = 1u << 17;
static Page * table = nullptr;
static char * bump = nullptr, * bumpEnd = nullptr;
static size_t pagesUsed = 0;
static char * arena(size_t n) {
    if (!bump || bump + n > bumpEnd) {
        size_t chunk = std::max(n, (size_t) 64 << 20);
        bump = (char *) mmap(nullptr, chunk, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (bump == MAP_FAILED) { fprintf(stderr, "SIM: no memory for the shadow\n"); _exit(99); }
        bumpEnd = bump + chunk;
    }
    char * p = bump;
    bump += n;
    return p;
}
static Cell * cellsOf(uintptr_t page, bool create) {
    if (self && self->lastPage == page) return self->lastCells;
    size_t h = (page * 0x9E3779B97F4A7C15ull) >> 47;
    for (;; h = (h + 1) & (HASH - 1)) {
        if (table[h].key == page && table[h].cells) break;
        if (!table[h].cells) {
            if (!create) return nullptr;
            if (++pagesUsed > HASH * 3 / 4) { fprintf(stderr, "SIM: the shadow table is full\n"); _exit(99); }
            table[h].key = page;
            table[h].cells = (Cell *) arena(512 * sizeof(Cell));
            break;
        }
    }
    if (self) { self->lastPage = page; self->lastCells = table[h].cells; }
    return table[h].cells;
}
static std::vector<std::pair<uintptr_t, uintptr_t> > & exempt() { static auto * v = new std::vector<std::pair<uintptr_t, uintptr_t> >(); return *v; }
static uintptr_t exemptLo = ~(uintptr_t) 0, exemptHi = 0;
static uintptr_t exeBase = 0;
static int phdr(struct dl_phdr_info * i, size_t, void * d) {
    int & k = *(int *) d;
    if (k++ == 0) { exeBase = i->dlpi_addr; return 0; }
    for (int j = 0; j < i->dlpi_phnum; j++) if (i->dlpi_phdr[j].p_type == PT_LOAD) {
        uintptr_t a = i->dlpi_addr + i->dlpi_phdr[j].p_vaddr;
        exempt().push_back({a, a + i->dlpi_phdr[j].p_memsz});
    }
    return 0;
}
static void exemptions() {
    if (!exempt().empty()) return;
    int k = 0;
    dl_iterate_phdr(phdr, &k);
    // the standard streams may be used by several threads at once
    exempt().push_back({(uintptr_t) &std::cout, (uintptr_t) (&std::cout + 1)});
    exempt().push_back({(uintptr_t) &std::cerr, (uintptr_t) (&std::cerr + 1)});
    exempt().push_back({(uintptr_t) &std::clog, (uintptr_t) (&std::clog + 1)});
    exempt().push_back({(uintptr_t) &std::cin, (uintptr_t) (&std::cin + 1)});
    for (auto & e : exempt()) { exemptLo = std::min(exemptLo, e.first); exemptHi = std::max(exemptHi, e.second); }
}
static bool isExempt(uintptr_t a) {
    if (a < exemptLo || a >= exemptHi) return false;
    for (auto & e : exempt()) if (a >= e.first && a < e.second) return true;
    return false;
}

// ---- names of places, for the report
static std::string where(uintptr_t pc) {
    Dl_info i;
    if (!dladdr((void *) pc, &i) || !i.dli_sname) { char b[32]; snprintf(b, sizeof b, "+0x%lx", (unsigned long) (pc - exeBase)); return b; }
    int st = 0;
    char * d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
    std::string s = d ? d : i.dli_sname;
    free(d);
    if (s.size() > 160) s = s.substr(0, 160) + "...";
    char b[32];
    snprintf(b, sizeof b, " +0x%lx", (unsigned long) (pc - (uintptr_t) i.dli_saddr));
    return s + b;
}
static std::string what(uintptr_t a) {
    Dl_info i;
    if (dladdr((void *) a, &i) && i.dli_sname && a >= (uintptr_t) i.dli_saddr && a < (uintptr_t) i.dli_saddr + 4096) {
        int st = 0;
        char * d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
        std::string s = d ? d : i.dli_sname;
        free(d);
        return "near " + s;
    }
    return "in an object or static variable";
}
static void race(Th * t, int u, uintptr_t a, bool mine, bool theirs, uintptr_t pc, uint32_t otherPc) {
    if (!rep->race.empty()) return;
    rep->race = "memory " + what(a) + ", " + (mine ? "written" : "read") + " by thread " + std::to_string(t->id) + " in " + where(pc)
        + ", " + (theirs ? "written" : "read") + " by thread " + std::to_string(u) + " in " + where(exeBase + otherPc);
}

// ---- the scheduler
static Rng rng(1);
static double prob[KINDS];
static long budget;
static std::vector<long> changePoints;
static long global;
static bool explicitMode;
static size_t logAt;
static long stuck;

static void logEvent(const char * s, size_t n) {
    if (schedLog && logAt + n + 1 < SCHED_LOG) { memcpy(schedLog + logAt, s, n); logAt += n; schedLog[logAt] = 0; }
}
static void handOver(Th * to) {
    Th * me = self;
    sem_post(&to->go);
    while (sem_wait(&me->go) != 0) {}
}
static int nextAlive(int from) {
    for (int k = 1; k <= nth; k++) { int j = (from + k) % nth; if (j != from && !th[j]->done) return j; }
    return -1;
}
static void preempt(int to) {
    char b[64];
    int n = snprintf(b, sizeof b, "%d:%ld>%d,", self->id, self->idx, to);
    logEvent(b, (size_t) n);
    rep->switches++;
    rep->trace = hashBytes(b, (size_t) n, rep->trace);
    handOver(th[to]);
}
// the thread cannot go on until another one did something
static void blockedHere() {
    Inside in;
    if (++stuck > 100000) {
        if (fatalHook) fatalHook("deadlock", "the simulated threads wait for each other for ever");
        _exit(98);
    }
    rep->blocked++;
    int to = nextAlive(self->id);
    if (to < 0) return;
    handOver(th[to]);
}
static void point(Kind k) {
    Th * t = self;
    t->idx++;
    global++;
    stuck = 0;
    if (explicitMode) {
        if (t->next < t->plan.size() && t->plan[t->next].first <= t->idx) {
            int to = t->plan[t->next].second;
            bool now = t->plan[t->next].first == t->idx;
            t->next++;
            if (now && to >= 0 && to < nth && to != t->id && !th[to]->done) preempt(to);
        }
        return;
    }
    if (budget <= 0) return;
    bool sw = false;
    if (!changePoints.empty()) {
        if (global >= changePoints.back()) { changePoints.pop_back(); sw = true; }
    }
    if (!sw && prob[k] > 0) sw = rng.unit() < prob[k];
    if (!sw) return;
    int alive[MAXT], m = 0;
    for (int j = 0; j < nth; j++) if (j != t->id && !th[j]->done) alive[m++] = j;
    if (!m) return;
    budget--;
    preempt(alive[rng.below((uint64_t) m)]);
}

// ---- memory accesses
static inline void touch(Th * t, uintptr_t a, size_t n, bool write, uintptr_t pc, bool & mine, bool & sharedW) {
    // the bytes of one granule
    Cell & c = cellsOf(a >> 12, true)[(a >> 3) & 511];
    uint8_t m = (uint8_t) (((1u << n) - 1) << (a & 7));
    int me = t->id;
    rep->accesses++;
    for (int u = 0; u < nth; u++) if (u != me) {
        if ((c.wm[u] & m) && c.w[u] > t->vc.c[u]) race(t, u, a, write, true, pc, c.wpc[u]);
        if (write && (c.rm[u] & m) && c.r[u] > t->vc.c[u]) race(t, u, a, write, false, pc, c.rpc[u]);
    }
    Clk now = t->vc.c[me];
    if (write) {
        if (c.w[me] != now) { c.w[me] = now; c.wm[me] = 0; }
        c.wm[me] |= m;
        c.wpc[me] = (uint32_t) (pc - exeBase);
        sharedW |= c.owner != me + 1;
    } else {
        if (c.r[me] != now) { c.r[me] = now; c.rm[me] = 0; }
        c.rm[me] |= m;
        c.rpc[me] = (uint32_t) (pc - exeBase);
    }
    mine &= c.owner == me + 1;
}
static void range(const void * p, size_t n, bool write, uintptr_t pc) {
    Th * t = self;
    if (!t || !seam::inSut || !n) return;
    uintptr_t a = (uintptr_t) p;
    if ((a >= s0 && a < s1) || isExempt(a)) return;
    Inside in;
    bool mine = true, sharedW = false;
    uintptr_t e = a + n;
    while (a < e) {
        size_t k = std::min<size_t>(8 - (a & 7), e - a);
        touch(t, a, k, write, pc, mine, sharedW);
        a += k;
    }
    if (sharedW) rep->sharedWrites++;
    if (!mine) point(write ? WRITE : READ);
}
template<size_t N> static inline void access(void * p, bool write, uintptr_t pc) {
    Th * t = self;
    if (__builtin_expect(!t, 1) || !seam::inSut) return;
    uintptr_t a = (uintptr_t) p;
    if ((a >= s0 && a < s1) || isExempt(a)) return;
    if ((a & 7) + N > 8) { range(p, N, write, pc); return; }
    Inside in;
    bool mine = true, sharedW = false;
    touch(t, a, N, write, pc, mine, sharedW);
    if (sharedW) rep->sharedWrites++;
    if (!mine) point(write ? WRITE : READ);
}
static void clearCells(uintptr_t a, size_t n, uint8_t owner) {
    Inside in;
    if (n > (16u << 20)) n = 16u << 20;
    uintptr_t e = a + n;
    a &= ~(uintptr_t) 7;
    for (; a < e; a += 8) {
        Cell * c = cellsOf(a >> 12, owner != 0);
        if (!c) { a = (a | 4095) - 7; continue; }
        Cell & k = c[(a >> 3) & 511];
        memset(&k, 0, sizeof k);
        k.owner = owner;
    }
}
static void allocated(void * p, size_t n) {
    Th * t = self;
    if (!t) return;
    Inside in;
    clearCells((uintptr_t) p, n, (uint8_t) (t->id + 1));
}
static void released(void * p, size_t n) {
    Th * t = self;
    if (!t) return;
    bool sut = seam::inSut;
    Inside in;
    if (sut && n < (1u << 20)) {
        bool mine = true, sharedW = false;
        uintptr_t a = (uintptr_t) p, e = a + n;
        while (a < e) { size_t k = std::min<size_t>(8 - (a & 7), e - a); touch(t, a, k, true, (uintptr_t) __builtin_return_address(0), mine, sharedW); a += k; }
    }
    clearCells((uintptr_t) p, n, 0);
}

// ---- synchronisation
static std::map<uintptr_t, VC> * syncs;
static void join(VC & a, const VC & b) { for (int i = 0; i < MAXT; i++) a.c[i] = std::max(a.c[i], b.c[i]); }
static void acquire(uintptr_t a) {
    Inside in;
    auto it = syncs->find(a);
    if (it != syncs->end()) join(self->vc, it->second);
}
static void release(uintptr_t a) {
    Inside in;
    VC & v = (*syncs)[a];
    join(v, self->vc);
    self->vc.c[self->id]++;
}
static void syncPoint() { if (seam::inSut) { Inside in; point(SYNC); } }

// ---- running
static void finished() {
    self->done = true;
    int to = nextAlive(self->id);
    if (to >= 0) { rep->forced++; sem_post(&th[to]->go); }
    else sem_post(&mainGo);
}
static void * entry(void * p) {
    Th * t = (Th *) p;
    self = t;
    while (sem_wait(&t->go) != 0) {}
    (*theBody)(t->id);
    seam::inSut = false;
    finished();
    self = nullptr;
    return nullptr;
}
static void newTable() {
    if (table) munmap(table, HASH * sizeof(Page));
    table = (Page *) mmap(nullptr, HASH * sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pagesUsed = 0;
}
static bool runAll(int n, const std::function<void(int)> & body, const VS & schedule, SchedReport & out) {
    if (n > MAXT) return false;
    exemptions();
    newTable();
    std::map<uintptr_t, VC> sy;
    syncs = &sy;
    rep = &out;
    theBody = &body;
    nth = n;
    sem_init(&mainGo, 0, 0);
    if (!stacks) {
        stacks = (char *) mmap(nullptr, STACK * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        s0 = (uintptr_t) stacks;
        s1 = s0 + STACK * MAXT;
    }
    explicitMode = schedule.size() && schedule[0] == "x";
    global = 0;
    stuck = 0;
    budget = 3000;
    changePoints.clear();
    for (auto & p : prob) p = 0;
    int first = 0;
    std::vector<Th> ts((size_t) n);
    for (int i = 0; i < n; i++) {
        ts[(size_t) i].id = i;
        th[i] = &ts[(size_t) i];
        sem_init(&th[i]->go, 0, 0);
        for (auto & c : th[i]->vc.c) c = 0;
        th[i]->vc.c[i] = 1;
    }
    if (explicitMode) {
        if (schedule.size() > 1) for (auto & e : splitStr(schedule[1], ',')) {
            if (e.empty()) continue;
            if (e[0] == 's') { first = atoi(e.c_str() + 2); continue; }
            int a = 0, b = 0;
            long k = 0;
            if (sscanf(e.c_str(), "%d:%ld>%d", &a, &k, &b) == 3 && a >= 0 && a < n) th[a]->plan.push_back({k, b});
        }
        if (first < 0 || first >= n) first = 0;
    } else {
        uint64_t seed = schedule.size() ? strtoull(schedule[0].c_str(), nullptr, 10) : 1;
        rng = Rng(seed);
        VS s = splitStr(schedule.size() > 1 ? schedule[1] : "hot", ':');
        double x = s.size() > 1 ? atof(s[1].c_str()) : 1e-4;
        if (s[0] == "hot") { prob[WRITE] = 0.5; prob[SYNC] = 0.4; prob[FUNC] = 0.002; prob[READ] = 0.0002; }
        else if (s[0] == "uni") { for (auto & p : prob) p = x; prob[SYNC] = std::max(x, 0.1); }
        else if (s[0] == "fun") { prob[FUNC] = x; prob[SYNC] = 0.3; }
        else if (s[0] == "sync") { prob[SYNC] = 0.8; prob[WRITE] = 0.1; }
        else if (s[0] == "few") { for (int k = (int) x; k > 0; k--) changePoints.push_back(rng.logint(1, 3000000)); std::sort(changePoints.rbegin(), changePoints.rend()); prob[SYNC] = 0.05; }
        first = (int) rng.below((uint64_t) n);
    }
    char b[64];
    int len = snprintf(b, sizeof b, "%ss>%d,", logAt ? ";" : "", first);
    logEvent(b, (size_t) len);
    out.trace = hashBytes(b, (size_t) len);
    seam::onAlloc = allocated;
    seam::onFree = released;
    for (int i = 0; i < n; i++) {
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, stacks + STACK * (size_t) i, STACK);
        if (pthread_create(&th[i]->pt, &at, entry, th[i])) { fprintf(stderr, "SIM: pthread_create\n"); _exit(99); }
        pthread_attr_destroy(&at);
    }
    sem_post(&th[first]->go);
    while (sem_wait(&mainGo) != 0) {}
    for (int i = 0; i < n; i++) { pthread_join(th[i]->pt, nullptr); out.candidates += th[i]->idx; sem_destroy(&th[i]->go); }
    sem_destroy(&mainGo);
    seam::onAlloc = nullptr;
    seam::onFree = nullptr;
    nth = 0;
    return true;
}
static struct Install { Install() { runThreads = runAll; } } install;
}
using namespace sim;
#define PC ((uintptr_t) __builtin_return_address(0))
template<class F> static void next(F & f, const char * n) { if (!f) f = (F) dlsym(RTLD_NEXT, n); }
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) { if (self && seam::inSut) { Inside in; point(FUNC); } }
void __tsan_func_exit() {}
#define ACC(n) \
    void __tsan_read##n(void * p) { access<n>(p, false, PC); } \
    void __tsan_write##n(void * p) { access<n>(p, true, PC); } \
    void __tsan_volatile_read##n(void * p) { access<n>(p, false, PC); } \
    void __tsan_volatile_write##n(void * p) { access<n>(p, true, PC); } \
    void __tsan_unaligned_read##n(void * p) { range(p, n, false, PC); } \
    void __tsan_unaligned_write##n(void * p) { range(p, n, true, PC); } \
    void __tsan_unaligned_volatile_read##n(void * p) { range(p, n, false, PC); } \
    void __tsan_unaligned_volatile_write##n(void * p) { range(p, n, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8)
void __tsan_read16(void * p) { range(p, 16, false, PC); }
void __tsan_write16(void * p) { range(p, 16, true, PC); }
void __tsan_unaligned_read16(void * p) { range(p, 16, false, PC); }
void __tsan_unaligned_write16(void * p) { range(p, 16, true, PC); }
void __tsan_read_range(void * p, unsigned long n) { range(p, n, false, PC); }
void __tsan_write_range(void * p, unsigned long n) { range(p, n, true, PC); }
void __tsan_vptr_update(void ** p, void * v) { if (*p != v) access<8>((void *) p, true, PC); }
void __tsan_vptr_read(void ** p) { access<8>((void *) p, false, PC); }

// atomics: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
static inline void before(const volatile void * p, int mo) { if (!self) return; syncPoint(); if (mo >= 3) release((uintptr_t) p); }
static inline void after(const volatile void * p, int mo) { if (!self) return; if (mo == 1 || mo == 2 || mo >= 4) acquire((uintptr_t) p); }
static inline void spinning(const volatile void * p) {
    if (!self || !seam::inSut) return;
    if (self->spinAt != p) { self->spinAt = p; self->spin = 0; }
    if (++self->spin > 200) { self->spin = 0; blockedHere(); }
}
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T * p, int mo) { if (self) { syncPoint(); spinning(p); } T v = __atomic_load_n(p, __ATOMIC_SEQ_CST); after(p, mo == 5 ? 2 : mo); return v; } \
    void __tsan_atomic##bits##_store(volatile T * p, T v, int mo) { before(p, mo); if (self) self->spin = 0; __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T * p, T v, int mo) { before(p, mo); spinning(p); T r = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); after(p, mo); return r; } \
    T __tsan_atomic##bits##_fetch_add(volatile T * p, T v, int mo) { before(p, mo); T r = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); after(p, mo); return r; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T * p, T v, int mo) { before(p, mo); T r = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); after(p, mo); return r; } \
    T __tsan_atomic##bits##_fetch_and(volatile T * p, T v, int mo) { before(p, mo); T r = __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); after(p, mo); return r; } \
    T __tsan_atomic##bits##_fetch_or(volatile T * p, T v, int mo) { before(p, mo); T r = __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); after(p, mo); return r; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T * p, T v, int mo) { before(p, mo); T r = __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); after(p, mo); return r; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T * p, T v, int mo) { before(p, mo); T r = __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); after(p, mo); return r; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T * p, T * e, T v, int mo, int) { before(p, mo); spinning(p); int r = __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); after(p, mo); return r; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T * p, T * e, T v, int mo, int) { before(p, mo); spinning(p); int r = __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); after(p, mo); return r; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T * p, T e, T v, int mo, int) { before(p, mo); spinning(p); __atomic_compare_exchange_n(p, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); after(p, mo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
static char fenceVar;
void __tsan_atomic_thread_fence(int) { if (!self) return; syncPoint(); release((uintptr_t) &fenceVar); acquire((uintptr_t) &fenceVar); }
void __tsan_atomic_signal_fence(int) {}

// functions of the C library called by the instrumented code
void * __real_memcpy(void *, const void *, size_t);
void * __real_memmove(void *, const void *, size_t);
void * __real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
void * __real_malloc(size_t);
void * __real_calloc(size_t, size_t);
void * __real_realloc(void *, size_t);
void * __wrap_memcpy(void * d, const void * s, size_t n) { if (self) { range(s, n, false, PC); range(d, n, true, PC); } return __real_memcpy(d, s, n); }
void * __wrap_memmove(void * d, const void * s, size_t n) { if (self) { range(s, n, false, PC); range(d, n, true, PC); } return __real_memmove(d, s, n); }
void * __wrap_memset(void * d, int c, size_t n) { if (self) range(d, n, true, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(const void * a, const void * b, size_t n) { if (self) { range(a, n, false, PC); range(b, n, false, PC); } return __real_memcmp(a, b, n); }
void * __wrap_malloc(size_t n) { void * p = __real_malloc(n); if (self && p) clearCells((uintptr_t) p, n, (uint8_t) (self->id + 1)); return p; }
void * __wrap_calloc(size_t k, size_t n) { void * p = __real_calloc(k, n); if (self && p) clearCells((uintptr_t) p, k * n, (uint8_t) (self->id + 1)); return p; }
void * __wrap_realloc(void * q, size_t n) { void * p = __real_realloc(q, n); if (self && p) clearCells((uintptr_t) p, n, (uint8_t) (self->id + 1)); return p; }
// red-black trees live in libstdc++
void __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool, void *, void *, void *);
void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, void * x, void * p, void * h) {
    if (self) { range(h, 32, true, PC); range(p, 32, true, PC); }
    __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(left, x, p, h);
}
void * __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void *, void *);
void * __wrap__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void * z, void * h) {
    if (self) { range(h, 32, true, PC); range(z, 32, true, PC); }
    return __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(z, h);
}
const void * __real__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(const void *);
const void * __wrap__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(const void * x) { if (self) range(x, 32, false, PC); return __real__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(x); }
void * __real__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(void *);
void * __wrap__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(void * x) { if (self) range(x, 32, false, PC); return __real__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(x); }

// ---- blocking primitives
static void yielding() { syncPoint(); }
#define LOCK(name, tryname, T) \
    int name(T * m) { \
        static int (*real)(T *); next(real, #name); \
        static int (*tr)(T *); next(tr, #tryname); \
        if (!self) return real(m); \
        yielding(); \
        int r; \
        while ((r = tr(m)) == EBUSY || r == EAGAIN) blockedHere(); \
        stuck = 0; \
        if (r == 0) acquire((uintptr_t) m); \
        return r; \
    } \
    int tryname(T * m) { \
        static int (*tr)(T *); next(tr, #tryname); \
        if (self) yielding(); \
        int r = tr(m); \
        if (self) { if (r == 0) acquire((uintptr_t) m); else { stuck = 0; if (++self->spin > 50) { self->spin = 0; blockedHere(); } } } \
        return r; \
    }
#define UNLOCK(name, T) \
    int name(T * m) { \
        static int (*real)(T *); next(real, #name); \
        if (!self) return real(m); \
        release((uintptr_t) m); \
        int r = real(m); \
        yielding(); \
        return r; \
    }
LOCK(pthread_mutex_lock, pthread_mutex_trylock, pthread_mutex_t)
UNLOCK(pthread_mutex_unlock, pthread_mutex_t)
LOCK(pthread_rwlock_rdlock, pthread_rwlock_tryrdlock, pthread_rwlock_t)
LOCK(pthread_rwlock_wrlock, pthread_rwlock_trywrlock, pthread_rwlock_t)
UNLOCK(pthread_rwlock_unlock, pthread_rwlock_t)
int pthread_spin_lock(pthread_spinlock_t * m) {
    if (self) yielding();
    while (pthread_spin_trylock(m) == EBUSY) { if (self) blockedHere(); else ::sched_yield(); }
    if (self) acquire((uintptr_t) m);
    return 0;
}
int pthread_spin_unlock(pthread_spinlock_t * m) {
    static int (*real)(pthread_spinlock_t *); next(real, "pthread_spin_unlock");
    if (self) release((uintptr_t) m);
    int r = real(m);
    if (self) yielding();
    return r;
}
int sched_yield() { if (self && seam::inSut) blockedHere(); return 0; }
static std::map<uintptr_t, int> * onceState;
int pthread_once(pthread_once_t * o, void (*f)()) {
    static int (*real)(pthread_once_t *, void (*)()); next(real, "pthread_once");
    if (!self) return real(o, f);
    yielding();
    // 2 is the value glibc uses for a finished one
    int * sp;
    {
        Inside in;
        if (!onceState) onceState = new std::map<uintptr_t, int>();
        sp = &(*onceState)[(uintptr_t) o];
    }
    int & st = *sp;
    while (st == 1) blockedHere();
    if (*(volatile int *) o == 2 || st == 2) { acquire((uintptr_t) o); return 0; }
    st = 1;
    try { f(); } catch (...) { st = 0; throw; }
    st = 2;
    release((uintptr_t) o);
    int r = real(o, []() {});
    return r;
}
// local static variables: the first byte says finished, the second one that somebody is at it
int __cxa_guard_acquire(long long * g) {
    volatile char * b = (volatile char *) g;
    if (self) yielding();
    for (;;) {
        if (b[0]) { if (self) acquire((uintptr_t) g); return 0; }
        if (!b[1]) { b[1] = 1; return 1; }
        if (!self) { fprintf(stderr, "SIM: recursive initialisation\n"); abort(); }
        blockedHere();
    }
}
void __cxa_guard_release(long long * g) {
    volatile char * b = (volatile char *) g;
    if (self) release((uintptr_t) g);
    b[1] = 0;
    b[0] = 1;
    if (self) yielding();
}
void __cxa_guard_abort(long long * g) { ((volatile char *) g)[1] = 0; }
void * __cxa_allocate_exception(size_t n) {
    static void * (*real)(size_t); next(real, "__cxa_allocate_exception");
    void * p = real(n);
    if (self) clearCells((uintptr_t) p, n, (uint8_t) (self->id + 1));
    return p;
}
}
