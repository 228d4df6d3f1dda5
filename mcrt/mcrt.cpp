// mcrt - a small stateless model checker for C++ threads.
//
// The code under test is compiled unchanged with -fsanitize=thread; instead of linking the ThreadSanitizer runtime this
// file provides the instrumentation entry points plus the pthread / futex / clock functions.  Every thread is a fiber on
// one OS thread; every atomic access and every synchronisation operation is a scheduling point; plain accesses are fed to
// a vector-clock (C++ happens-before) race detector, so exploring interleavings of the synchronisation operations only is
// sufficient.  Schedules are enumerated exhaustively depth first up to a preemption bound.
#include "mc.h"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <exception>
#include <link.h>
#include <malloc.h>
#include <linux/futex.h>
#include <map>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

extern "C" char __libc_single_threaded;

namespace {
constexpr int    MAXT       = 12;
constexpr size_t STACK_SIZE = 512 * 1024;
using u64                   = uint64_t;
using u32                   = uint32_t;
using u8                    = uint8_t;

inline u64 mix(u64 a, u64 b) {
    u64 x = a ^ (b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2));
    x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33;
    return x;
}

struct VC {
    u32  c[MAXT]{};
    void join(const VC &o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
    void clear() { memset(c, 0, sizeof c); }
};

enum Status : u8 { READY, B_MUTEX, B_RWR, B_RWW, B_COND, B_JOIN, B_FUTEX, B_SLEEP, B_PRED, B_SPIN, B_ONCE, DONE };
const char *statusName[] = { "ready", "waiting for mutex", "waiting for read lock", "waiting for write lock", "waiting on condition variable", "joining", "waiting on atomic/futex", "sleeping", "waiting (harness)", "spinning", "waiting for static init", "done" };

struct WinEnt { uintptr_t a; u32 ver; u32 cnt; };

struct Fiber {
    int                  id = 0;
    void                *sp = nullptr;
    char                *stack = nullptr;
    char                *tls   = nullptr;
    int                  rtDepth = 0;
    int                  err = 0; // errno
    int                  untracked = 0;
    Status               st = DONE;
    uintptr_t            waitObj = 0;
    bool                 hasDeadline = false;
    int64_t              deadline = 0;
    bool                 woken = false, timedOut = false;
    int                  joinTarget = -1;
    const std::function<bool()> *pred = nullptr;
    VC                   vc, pendAcq, relFence;
    u64                  h = 0;
    std::vector<WinEnt>  win;
    bool                 winClock = false;
    int                  yields = 0; // since another thread ran
    bool                 selfYield = false;
    u64                  behind = 0; // after a yield: the threads that have to run first
    int                  forced = 0;
    u32                  quantum = 0;
    u64                  waits   = 0; // how often the thread had to wait (blocked, span, slept, yielded)
    void                *(*fn)(void *) = nullptr;
    void                *arg = nullptr;
    void                *ret = nullptr;
    bool                 detached = false, joined = false;
    std::vector<std::pair<void (*)(void *), void *>> tlsDtors;
    std::vector<std::pair<unsigned, void *>> keys;
    char                 name[64]{};
    cpu_set_t            affinity;
    bool                 affinitySet = false;
    const char          *lastOp = "";
    uintptr_t            lastPc = 0;
};

struct Obj {
    uintptr_t a = 0;
    u32       gen = 0;
    u32       ver = 0;
    VC        vc;
    u64       h = 0, rsum = 0;
    // lock state
    int       owner = -1, count = 0;
    u32       readers = 0; // bitmask
    u64       cnt = 0;     // semaphores
};

struct Gran {
    u32 gen;
    u8  wtid[8];
    u8  wat[8];
    u32 wclk[8];
    u32 rclk[8][MAXT];
};

struct Choice { u8 n, idx; };

// ---- global runtime state ---------------------------------------------------------------------
bool                     gActive = false;
int                      gRt     = 0;
mc::Options              gOpt;
std::vector<Fiber *>     gF;      // allocated fibers (reused)
int                      gN = 0;  // fibers in this execution
Fiber                   *gCur = nullptr;
void                    *gMainSp = nullptr;
u32                      gGen = 0;
int64_t                  gVt  = 0;
u64                      gSteps = 0;
std::vector<Choice>      gChoices;
size_t                   gPos = 0;
bool                     gNoBranch = false;
int                      gBudget = 0;
bool                     gReplay = false;
std::string              gViolation;
bool                     gAbort = false;
u64                      gObjHash = 0; // sum over object hashes
struct SeenState { int8_t budget; u32 run; };
std::unordered_map<u64, SeenState> gSeen;
u32 gRun = 0; // number of the current execution
std::unordered_map<uintptr_t, Gran *> gPages;
uintptr_t                gPageCacheK[256];
Gran                    *gPageCacheV[256];
std::vector<std::string> gTrace;
bool                     gTracing = false;
std::unordered_set<u64>  gTerminal;
u64                      gTransitions = 0;
u64                      gSpinForced = 0;
char                    *gMainTls = nullptr;

struct RT { RT() { ++gRt; } ~RT() { --gRt; } };

// ---- TLS --------------------------------------------------------------------------------------
size_t gTlsSize = 0, gTlsFile = 0; char *gTlsBlock = nullptr; const char *gTlsImage = nullptr;
int phdrCb(struct dl_phdr_info *info, size_t, void *data) {
    auto *first = static_cast<bool *>(data);
    if (!*first) return 0;
    *first = false;
    for (int i = 0; i < info->dlpi_phnum; i++)
        if (info->dlpi_phdr[i].p_type == PT_TLS) {
            auto &p   = info->dlpi_phdr[i];
            gTlsSize  = p.p_memsz;
            gTlsFile  = p.p_filesz;
            gTlsImage = reinterpret_cast<const char *>(info->dlpi_addr + p.p_vaddr);
            size_t al = p.p_align ? p.p_align : 1;
            size_t sz = (p.p_memsz + al - 1) / al * al;
            char  *fs;
            __asm__("mov %%fs:0, %0" : "=r"(fs));
            gTlsBlock = fs - sz;
        }
    return 1;
}

// ---- arena ------------------------------------------------------------------------------------
constexpr size_t    ARENA_T    = 16u << 20;
constexpr size_t    ARENA_SIZE = ARENA_T * MAXT;
char               *gArena     = nullptr;
u8                 *gAState    = nullptr; // per 16 bytes
size_t              gBump[MAXT], gBumpBase[MAXT];
Gran               *gAGran = nullptr;
struct Hdr { u32 size; u32 magic; u64 pad; };
inline bool inArena(const void *p) { auto d = static_cast<const char *>(p) - gArena; return gArena && d >= 0 && size_t(d) < ARENA_SIZE; }

void *arenaAlloc(size_t n, size_t align) {
    int    t = gCur ? gCur->id : 0;
    if (align < 16) align = 16;
    size_t off = gBump[t];
    off        = (off + sizeof(Hdr) + align - 1) / align * align;
    size_t end = off + ((n ? n : 1) + 15) / 16 * 16;
    if (end + 64 > ARENA_T) { fprintf(stderr, "mcrt: arena exhausted\n"); _exit(3); }
    gBump[t]   = end + 16; // red zone
    char *base = gArena + size_t(t) * ARENA_T;
    char *p    = base + off;
    auto *h    = reinterpret_cast<Hdr *>(p - sizeof(Hdr));
    h->size    = u32(n);
    h->magic   = 0xA11C0001;
    memset(gAState + (p - gArena) / 16, 1, (end - off) / 16);
    return p;
}

// ---- object table -----------------------------------------------------------------------------
std::vector<Obj> gObjs;
Obj &obj(uintptr_t a) {
    size_t m = gObjs.size() - 1, i = (a * 0x9E3779B97F4A7C15ULL >> 20) & m;
    for (;; i = (i + 1) & m) {
        Obj &o = gObjs[i];
        if (o.gen != gGen) {
            o      = Obj{};
            o.gen  = gGen;
            o.a    = a;
            return o;
        }
        if (o.a == a) return o;
    }
}
u64 objKey(const Obj &o) { return mix(mix(o.a, o.h), o.rsum); }
void hashEvent(Obj &o, int kind, bool write, u64 val = 0) {
    gObjHash -= objKey(o);
    if (write) {
        u64 e   = mix(mix(gCur->h, mix(o.h, o.rsum)), u64(kind) * 31 + 7 + val * 1315423911ULL);
        gCur->h = e;
        o.h     = e;
        o.rsum  = 0;
    } else {
        u64 e   = mix(mix(gCur->h, o.h), u64(kind) * 31 + 3);
        gCur->h = e;
        o.rsum += mix(e, u64(gCur->id));
    }
    gObjHash += objKey(o);
}

// ---- reporting --------------------------------------------------------------------------------
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void trace(const char *fmt, ...) {
    if (!gTracing) return;
    char    b[512];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    char c[600];
    snprintf(c, sizeof c, "[%6lu] T%d %s", (unsigned long) gSteps, gCur ? gCur->id : -1, b);
    gTrace.push_back(c);
    if (gTrace.size() > 20000) gTrace.erase(gTrace.begin(), gTrace.begin() + 10000);
}

extern "C" void mcrt_switch(void **save, void *to);
__asm__(
        ".text\n.globl mcrt_switch\n.type mcrt_switch,@function\nmcrt_switch:\n"
        "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
        "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
        "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n");

void toMain() { // leave the fiber world (execution finished or violated)
    gCur->rtDepth = gRt;
    void *dummy;
    gRt = 1;
    mcrt_switch(gCur ? &gCur->sp : &dummy, gMainSp);
}

[[noreturn]] void violation(const std::string &msg) {
    RT rt;
    if (!gActive) { fprintf(stderr, "mcrt: failure outside a scenario: %s\n", msg.c_str()); _exit(3); }
    gViolation = msg;
    gAbort     = true;
    trace("VIOLATION %s", msg.c_str());
    toMain();
    abort();
}

// ---- scheduling -------------------------------------------------------------------------------
bool enabled(Fiber *f) {
    switch (f->st) {
    case READY: return true;
    case B_MUTEX: return obj(f->waitObj).owner == -1;
    case B_RWR: return obj(f->waitObj).owner == -1;
    case B_RWW: { auto &o = obj(f->waitObj); return o.owner == -1 && o.readers == 0; }
    case B_COND:
    case B_FUTEX:
    case B_ONCE: return f->woken;
    case B_JOIN: return gF[size_t(f->joinTarget)]->st == DONE;
    case B_PRED: {
        ++gRt;
        bool r = (*f->pred)();
        --gRt;
        return r;
    }
    case B_SPIN:
        for (auto &w : f->win)
            if (obj(w.a).ver != w.ver) return true;
        return false;
    default: return false;
    }
}
bool dueByTime(Fiber *f) { return f->hasDeadline && f->st != DONE && f->st != READY && gVt >= f->deadline; }

void progress(Fiber *f) { f->win.clear(); f->winClock = false; f->forced = 0; }

bool anyDeadline() {
    for (int i = 0; i < gN; i++)
        if (gF[size_t(i)]->st != DONE && gF[size_t(i)]->st != READY && gF[size_t(i)]->hasDeadline) return true;
    return false;
}
int pickChoice(int n) { // DFS choice among n alternatives
    if (n <= 1 || gNoBranch) return 0;
    if (gPos < gChoices.size()) {
        auto &c = gChoices[gPos++];
        if (c.n != n) { fprintf(stderr, "mcrt: nondeterministic replay (choice %zu: %d vs %d alternatives)\n", gPos - 1, c.n, n); _exit(4); }
        return c.idx;
    }
    if (gReplay) { return 0; }
    gChoices.push_back({ u8(n), 0 });
    gPos++;
    return 0;
}

void switchTo(Fiber *to) {
    Fiber *from = gCur;
    if (to == from) return;
    from->rtDepth = gRt;
    if (gTlsSize) {
        memcpy(from->tls, gTlsBlock, gTlsSize);
        memcpy(gTlsBlock, to->tls, gTlsSize);
    }
    from->err = errno;
    errno     = to->err;
    gCur = to;
    gRt  = to->rtDepth;
    mcrt_switch(&from->sp, to->sp);
    // back again (as 'from')
}

u64 stateKey(bool yielding) {
    u64 k = gObjHash;
    for (int i = 0; i < gN; i++) k += mix(mix(u64(i) + 77, gF[size_t(i)]->h), (u64(gF[size_t(i)]->st) * 8 + u64(gF[size_t(i)]->woken)) * 64 + gF[size_t(i)]->behind * 1024);
    return mix(mix(k, u64(gCur->id) * 4 + u64(yielding)), u64(gVt));
}

[[noreturn]] void reportDeadlock() {
    std::string s = "no thread can make progress:";
    for (int i = 0; i < gN; i++) {
        if (gF[size_t(i)]->st == DONE) continue;
        s += " [thread " + std::to_string(i) + " " + statusName[gF[size_t(i)]->st] + "]";
    }
    violation("DEADLOCK/LIVELOCK " + s);
}

void wake(Fiber *f) { // a blocked fiber gets to run
    if (f->st != READY) {
        if (!enabled(f) && f->hasDeadline) f->timedOut = true;
        if (f->st == B_SPIN) { f->win.clear(); f->winClock = false; }
        f->st          = READY;
        f->hasDeadline = false;
    }
    f->quantum = 0;
}

// pick the next fiber to run. cur may be READY (preemption possible) or blocked/done.
void reschedule(bool yielding) {
    if (yielding || (gCur->st != READY && gCur->st != DONE)) gCur->waits++;
    if (gAbort) { toMain(); }
    if (++gSteps > gOpt.maxSteps) {
        if (gOpt.stepLimitIsViolation) violation("step limit exceeded (execution does not terminate)");
        gNoBranch = true;
        if (gSteps > gOpt.maxSteps * 20) violation("step limit exceeded (execution does not terminate)");
    }
    ++gTransitions;
    Fiber *cand[MAXT * 2];
    int    n = 0;
    bool   curOk = gCur->st == READY;
    if (curOk && !yielding && ++gCur->quantum > 400) { yielding = true; }
    int selfAt = -1;
    if (yielding && curOk) {
        gCur->behind = 0;
        for (int i = 0; i < gN; i++)
            if (gF[size_t(i)] != gCur && gF[size_t(i)]->st != DONE) gCur->behind |= u64(1) << i;
    }
    for (int round = 0;; ++round) {
        n      = 0;
        selfAt = -1;
        Fiber *early[MAXT];
        int    ne = 0;
        bool   free_ = !curOk || yielding;
        if (curOk && !yielding) cand[n++] = gCur;
        int  nOther = 0;
        u64  en     = 0;
        for (int i = 0; i < gN; i++) {
            Fiber *f = gF[size_t(i)];
            if (f->st != DONE && (f != gCur || !curOk) && (enabled(f) || dueByTime(f))) en |= u64(1) << i;
        }
        // a thread that yielded comes after the threads it yielded to, unless they all are in the same situation
        bool anyFair = false;
        for (int i = 0; i < gN; i++) if ((en >> i & 1) && !(gF[size_t(i)]->behind & en)) anyFair = true;
        bool canPay = free_ || gBudget > 0;
        for (int k = 1; k <= gN; k++) {
            Fiber *f = gF[size_t((gCur->id + k) % gN)];
            if (f == gCur && (curOk)) continue;
            if (f->st == DONE) continue;
            if (enabled(f) || dueByTime(f)) {
                nOther++;
                if (canPay && (!anyFair || !(f->behind & en))) cand[n++] = f;
            } else if (f->hasDeadline && gOpt.early_timeout && gBudget > 0) early[ne++] = f;
        }
        if (curOk && yielding) {
            // the yielding thread goes on only if nobody else can run; going on although others could costs one preemption.
            // with nothing but sleepers around it may poll a few times before virtual time moves on
            if (nOther == 0 && (gCur->yields <= 2 || !anyDeadline())) cand[n++] = gCur;
            else if (nOther > 0 && gBudget > 0 && !gCur->selfYield) { selfAt = n; cand[n++] = gCur; }
        }
        if (n > 0) {
            for (int i = 0; i < ne; i++) cand[n++] = early[i];
            break;
        }
        // nobody can run: advance virtual time
        int64_t best = INT64_MAX;
        bool    clockSpin = false;
        for (int i = 0; i < gN; i++) {
            Fiber *f = gF[size_t(i)];
            if (f->st != DONE && f->st != READY && f->hasDeadline) best = std::min(best, f->deadline);
            if (f->st == B_SPIN && f->winClock) clockSpin = true;
        }
        if (clockSpin) {
            gVt = std::min(best, gVt + 1000000);
            for (int i = 0; i < gN; i++) {
                Fiber *f = gF[size_t(i)];
                if (f->st == B_SPIN && f->winClock) { f->st = READY; f->win.clear(); f->winClock = false; f->forced++; if (f->forced > 200000) reportDeadlock(); }
            }
            continue;
        }
        if (best != INT64_MAX) { if (best > gVt) gVt = best; continue; }
        // only spinners left: let them re-check a few times (their condition may depend on something we do not track)
        bool any = false;
        for (int i = 0; i < gN; i++) {
            Fiber *f = gF[size_t(i)];
            if (f->st == B_SPIN && f->forced < 40) { f->forced++; f->st = READY; f->win.clear(); any = true; ++gSpinForced; }
        }
        if (any) { curOk = gCur->st == READY; continue; }
        bool allDone = true;
        for (int i = 0; i < gN; i++) if (gF[size_t(i)]->st != DONE) allDone = false;
        if (allDone) { toMain(); abort(); }
        reportDeadlock();
    }
    // happens-before state cache
    if (gOpt.hbCache && !gNoBranch && !gReplay && n > 1 && gPos >= gChoices.size()) {
        u64  key = stateKey(yielding);
        auto it  = gSeen.find(key);
        // two scheduling points of this very execution with nothing in between have the same key: the second is not yet covered
        if (it != gSeen.end() && it->second.budget >= gBudget) gNoBranch = it->second.run != gRun;
        else if (gSeen.size() < 60000000) gSeen[key] = { int8_t(gBudget), gRun };
    }
    int    c  = pickChoice(n);
    Fiber *to = cand[c];
    bool   paid = false;
    if (to != gCur) {
        if (curOk && !yielding) paid = true;
        if (!(enabled(to) || dueByTime(to))) { // early expiry of a timed wait
            paid = true;
            if (to->deadline > gVt) gVt = to->deadline;
        }
    } else if (!curOk && to->hasDeadline && !enabled(to) && !dueByTime(to)) {
        paid = true;
        if (to->deadline > gVt) gVt = to->deadline;
    }
    if (c == selfAt) { paid = true; gCur->selfYield = true; }
    if (paid) gBudget--;
    if (to != gCur) { gCur->yields = 0; gCur->selfYield = false; }
    for (int i = 0; i < gN; i++) gF[size_t(i)]->behind &= ~(u64(1) << to->id);
    if (to->st != READY) wake(to);
    if (to != gCur) gCur->quantum = 0;
    if (gTracing && to != gCur) trace("-> switch to T%d", to->id);
    switchTo(to);
    if (gAbort) { toMain(); }
}

void point(const char *what, uintptr_t pc) {
    gCur->lastOp = what;
    gCur->lastPc = pc;
    reschedule(false);
}
void blockOn(Status s, uintptr_t o) {
    gCur->st      = s;
    gCur->waitObj = o;
    reschedule(false);
}

// ---- spin detection ---------------------------------------------------------------------------
bool noteRead(Obj &o) { // returns true if the thread is spinning
    for (auto &w : gCur->win)
        if (w.a == o.a) {
            if (w.ver == o.ver) return ++w.cnt > u32(gOpt.spinLimit);
            w.ver = o.ver;
            w.cnt = 1;
            return false;
        }
    gCur->win.push_back({ o.a, o.ver, 1 });
    return false;
}
void spinWait() {
    trace("spins");
    gCur->st = B_SPIN;
    reschedule(false);
}

// ---- shadow memory ----------------------------------------------------------------------------
Gran *gran(uintptr_t a) {
    if (inArena(reinterpret_cast<void *>(a))) return gAGran + ((a - reinterpret_cast<uintptr_t>(gArena)) >> 3);
    uintptr_t pg = a >> 12;
    size_t    ci = pg & 255;
    if (gPageCacheK[ci] == pg) return gPageCacheV[ci] + ((a & 4095) >> 3);
    Gran *&p = gPages[pg];
    if (!p) p = static_cast<Gran *>(mmap(nullptr, sizeof(Gran) * 512, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    gPageCacheK[ci] = pg;
    gPageCacheV[ci] = p;
    return p + ((a & 4095) >> 3);
}
std::string hex(uintptr_t a) { char b[32]; snprintf(b, sizeof b, "0x%lx", (unsigned long) a); return b; }
std::string pcs(uintptr_t pc) { return "pc=" + hex(pc); } // linked with -no-pie: addresses are the same in every run

[[noreturn]] void race(const char *what, uintptr_t a, int other, uintptr_t pc) {
    violation(std::string("DATA RACE ") + what + " by thread " + std::to_string(gCur->id) + " (" + pcs(pc) + ") conflicts with an unordered access of thread " + std::to_string(other));
}
void heapCheck(uintptr_t a, size_t n, bool write, uintptr_t pc) {
    if (!gOpt.uaf || !inArena(reinterpret_cast<void *>(a))) return;
    size_t o = a - reinterpret_cast<uintptr_t>(gArena);
    for (size_t g = o >> 4; g <= (o + n - 1) >> 4; g++) {
        if (gAState[g] == 2) violation(std::string(write ? "USE AFTER FREE (write) " : "USE AFTER FREE (read) ") + pcs(pc));
        if (gAState[g] == 0) violation(std::string(write ? "HEAP OUT-OF-BOUNDS write " : "HEAP OUT-OF-BOUNDS read ") + pcs(pc));
    }
}
// kind: 0 plain read, 1 plain write, 2 atomic read, 3 atomic write
void access(uintptr_t a, size_t n, int kind, uintptr_t pc) {
    Fiber *f = gCur;
    if (gOpt.races) {
        int  t   = f->id;
        u32  clk = f->vc.c[t];
        while (n) {
            size_t b0 = a & 7, k = std::min<size_t>(n, 8 - b0);
            Gran  *g = gran(a);
            if (g->gen != gGen) {
                memset(g, 0, sizeof *g);
                memset(g->wtid, 0xff, 8);
                g->gen = gGen;
            }
            for (size_t b = b0; b < b0 + k; b++) {
                u8 w = g->wtid[b];
                if (w != 0xff && w != t && g->wclk[b] > f->vc.c[w] && !(kind >= 2 && g->wat[b])) race(kind & 1 ? "write" : "read", a, w, pc);
                if (kind == 0) {
                    g->rclk[b][t] = clk;
                } else if (kind & 1) {
                    for (int r = 0; r < gN; r++)
                        if (r != t && g->rclk[b][r] > f->vc.c[r]) race("write", a, r, pc);
                    g->wtid[b] = u8(t);
                    g->wclk[b] = clk;
                    g->wat[b]  = kind == 3;
                    memset(g->rclk[b], 0, sizeof g->rclk[b]);
                }
            }
            a += k;
            n -= k;
        }
    }
}
inline bool onOwnStack(uintptr_t a) {
    auto s = reinterpret_cast<uintptr_t>(gCur->stack);
    return a - s < STACK_SIZE;
}
inline void plain(const void *p, size_t n, bool w, uintptr_t pc) {
    if (!gActive || gRt || gCur->untracked) return;
    auto a = reinterpret_cast<uintptr_t>(p);
    if (a - reinterpret_cast<uintptr_t>(gTlsBlock) < gTlsSize) return; // every fiber has its own thread-local block
    if (a - reinterpret_cast<uintptr_t>(&errno) < sizeof errno) return;      // ... and errno
    RT   rt;
    heapCheck(a, n, w, pc);
    access(a, n, w ? 1 : 0, pc);
}

// ---- atomics ----------------------------------------------------------------------------------
inline bool isAcq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
inline bool isRel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
void acquireFrom(Obj &o, int mo) {
    if (isAcq(mo)) gCur->vc.join(o.vc);
    else gCur->pendAcq.join(o.vc);
}
void releaseTo(Obj &o, int mo, bool rmw) {
    VC add = isRel(mo) ? gCur->vc : gCur->relFence;
    if (rmw) o.vc.join(add);
    else o.vc = add;
    if (isRel(mo)) gCur->vc.c[gCur->id]++;
}
struct AtomCtx {
    bool      on;
    uintptr_t a;
    uintptr_t pc;
    AtomCtx(const volatile void *p, size_t n, const char *what, uintptr_t pc_)
        : on(gActive && !gRt && !gCur->untracked), a(reinterpret_cast<uintptr_t>(p)), pc(pc_) {
        if (!on) return;
        ++gRt;
        point(what, pc);
        heapCheck(a, n, false, pc);
    }
    ~AtomCtx() { if (on) --gRt; }
};
template<typename T>
T aLoad(const volatile T *p, int mo, uintptr_t pc) {
    AtomCtx c(p, sizeof(T), "load", pc);
    if (!c.on) return *p;
    for (;;) {
        Obj &o = obj(c.a);
        access(c.a, sizeof(T), 2, pc);
        acquireFrom(o, mo);
        hashEvent(o, 1, false);
        trace("atomic load %lx = %lld (mo %d) %s", (unsigned long) c.a, (long long) *p, mo, gTracing ? pcs(pc).c_str() : "");
        T    v    = *p;
        bool spin = noteRead(o);
        if (spin) spinWait();
        else return v;
        // re-read after the wait: the value returned is the one current now (a later iteration of the loop)
    }
}
template<typename T>
void wrote(Obj &o, T, bool) { o.ver++; progress(gCur); }
template<typename T>
void aStore(volatile T *p, T v, int mo, uintptr_t pc) {
    AtomCtx c(p, sizeof(T), "store", pc);
    if (!c.on) { *p = v; return; }
    Obj &o = obj(c.a);
    access(c.a, sizeof(T), 3, pc);
    releaseTo(o, mo, false);
    *p = v;
    hashEvent(o, 2, true, u64(v));
    wrote(o, v, true);
    trace("atomic store %lx := %lld (mo %d) %s", (unsigned long) c.a, (long long) v, mo, gTracing ? pcs(pc).c_str() : "");
}
template<typename T, typename F>
T aRmw(volatile T *p, int mo, uintptr_t pc, int kind, F f) {
    AtomCtx c(p, sizeof(T), "rmw", pc);
    if (!c.on) { T old = *p; *p = f(old); return old; }
    for (;;) {
        Obj &o   = obj(c.a);
        T    old = *p, nv = f(old);
        if (old == nv && noteRead(o)) { spinWait(); continue; }
        access(c.a, sizeof(T), 3, pc);
        acquireFrom(o, mo);
        releaseTo(o, mo, true);
        *p = nv;
        hashEvent(o, kind, true, u64(nv));
        if (old != nv) wrote(o, nv, true);
        trace("atomic rmw %lx %lld -> %lld (mo %d) %s", (unsigned long) c.a, (long long) old, (long long) nv, mo, gTracing ? pcs(pc).c_str() : "");
        return old;
    }
}
template<typename T>
bool aCas(volatile T *p, T *e, T d, int mo, int fmo, uintptr_t pc) {
    AtomCtx c(p, sizeof(T), "cas", pc);
    if (!c.on) { if (*p == *e) { *p = d; return true; } *e = *p; return false; }
    for (;;) {
        Obj &o   = obj(c.a);
        T    old = *p;
        if (old == *e) {
            access(c.a, sizeof(T), 3, pc);
            acquireFrom(o, mo);
            releaseTo(o, mo, true);
            *p = d;
            hashEvent(o, 5, true, u64(d));
            wrote(o, d, true);
            trace("atomic cas ok %lx %lld -> %lld (mo %d) %s", (unsigned long) c.a, (long long) old, (long long) d, mo, gTracing ? pcs(pc).c_str() : "");
            return true;
        }
        access(c.a, sizeof(T), 2, pc);
        acquireFrom(o, fmo);
        hashEvent(o, 6, false);
        trace("atomic cas failed %lx is %lld expected %lld %s", (unsigned long) c.a, (long long) old, (long long) *e, gTracing ? pcs(pc).c_str() : "");
        if (noteRead(o)) { spinWait(); continue; }
        *e = old;
        return false;
    }
}

// ---- threads ----------------------------------------------------------------------------------
void fiberEntry() {
    Fiber *f = gCur;
    gRt      = 0;
    try {
        f->ret = f->fn(f->arg);
    } catch (...) {
        ++gRt;
        std::string w = "unknown";
        try { throw; } catch (const std::exception &e) { w = e.what(); } catch (...) {}
        violation("exception left a thread: " + w);
    }
    while (!f->tlsDtors.empty()) {
        auto [d, o] = f->tlsDtors.back();
        f->tlsDtors.pop_back();
        d(o);
    }
    ++gRt;
    trace("thread ends");
    f->st = DONE;
    f->vc.c[f->id]++;
    Obj &o = obj(reinterpret_cast<uintptr_t>(f) + 1);
    hashEvent(o, 9, true);
    progress(f);
    reschedule(false);
    abort();
}
Fiber *newFiber() {
    if (gN >= MAXT) { fprintf(stderr, "mcrt: too many threads\n"); _exit(3); }
    if (size_t(gN) == gF.size()) {
        auto *f  = new Fiber;
        // fixed addresses: libstdc++'s atomic shared_ptr functions choose their mutex by hashing addresses, some of them on the stack
        const auto at = reinterpret_cast<void *>(0x6f0000000000ULL + size_t(gN) * 2 * 1024 * 1024);
        f->stack = static_cast<char *>(mmap(at, STACK_SIZE + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0));
        if (f->stack == MAP_FAILED) { fprintf(stderr, "mcrt: cannot map a stack\n"); _exit(3); }
        mprotect(f->stack, 4096, PROT_NONE);
        f->stack += 4096;
        f->tls = static_cast<char *>(malloc(gTlsSize + 16));
        gF.push_back(f);
    }
    Fiber *f   = gF[size_t(gN)];
    char *stk = f->stack, *tls = f->tls;
    auto   win = std::move(f->win);
    win.clear();
    *f       = Fiber{};
    f->win   = std::move(win);
    f->stack = stk;
    f->tls   = tls;
    f->id    = gN++;
    f->st    = READY;
    f->vc.c[f->id] = 1;
    if (gTlsSize) {
        memset(tls, 0, gTlsSize);
        memcpy(tls, gTlsImage, gTlsFile);
    }
    auto *sp = reinterpret_cast<void **>(stk + STACK_SIZE - 64);
    sp       = reinterpret_cast<void **>(reinterpret_cast<uintptr_t>(sp) & ~uintptr_t(15));
    *--sp    = nullptr;
    *--sp    = reinterpret_cast<void *>(&fiberEntry);
    for (int i = 0; i < 6; i++) *--sp = nullptr;
    f->sp      = sp;
    f->rtDepth = 0;
    return f;
}
void *bodyTramp(void *p) {
    (*static_cast<std::function<void()> *>(p))();
    return nullptr;
}

void runOnce(std::function<void()> &body) {
    gGen++;
    gN         = 0;
    gVt        = 0;
    gSteps     = 0;
    gPos       = 0;
    gNoBranch  = false;
    gBudget    = gOpt.preemptions;
    gAbort     = false;
    gObjHash   = 0;
    gViolation.clear();
    gTrace.clear();
    for (int t = 0; t < MAXT; t++) {
        // keep blocks that outlive the execution (lazily initialised statics), recycle everything else
        if (gBump[t] > gBumpBase[t]) {
            size_t lo = (size_t(t) * ARENA_T + gBumpBase[t]) / 16, hi = (size_t(t) * ARENA_T + gBump[t]) / 16 + 1;
            size_t last = 0;
            for (size_t i = lo; i < hi; i++) if (gAState[i] == 1) last = i;
            if (last) {
                size_t nb = (last + 2) * 16 - size_t(t) * ARENA_T;
                for (size_t i = last + 1; i < hi; i++) gAState[i] = 0;
                gBumpBase[t] = nb;
            } else {
                memset(gAState + lo, 0, hi - lo);
            }
            gBump[t] = gBumpBase[t];
        }
    }
    if (gTlsSize) memcpy(gMainTls, gTlsBlock, gTlsSize);
    Fiber *f = newFiber();
    f->fn    = bodyTramp;
    f->arg   = &body;
    gCur     = f;
    gActive  = true;
    if (gTlsSize) memcpy(gTlsBlock, f->tls, gTlsSize);
    gRt = 0;
    mcrt_switch(&gMainSp, f->sp);
    gActive = false;
    gRt     = 1;
    if (gTlsSize) memcpy(gTlsBlock, gMainTls, gTlsSize);
    gCur = nullptr;
    if (!gAbort) {
        u64 k = gObjHash;
        for (int i = 0; i < gN; i++) k += mix(u64(i) + 77, gF[size_t(i)]->h);
        gTerminal.insert(k);
    }
}

std::vector<mc::Scenario> gScen;

void onSignal(int sig) {
    if (gActive) {
        char b[64];
        snprintf(b, sizeof b, "CRASH signal %d", sig);
        gViolation = b;
        gAbort     = true;
        gRt        = 1;
        sigset_t s;
        sigemptyset(&s);
        sigaddset(&s, sig);
        sigprocmask(SIG_UNBLOCK, &s, nullptr);
        toMain();
    }
    _exit(3);
}
u64  gRuns = 0, gTickRun = 0, gTickSteps = 0;
int  gTickSame = 0;
void onTick(int) {
    if (!gActive) return;
    if (gTickRun == gRuns && gTickSteps == gSteps) {
        if (++gTickSame >= 15) {
            gViolation = "HANG: 15 s of CPU time without reaching a scheduling point";
            gAbort     = true;
            gRt        = 1;
            toMain();
        }
    } else { gTickRun = gRuns; gTickSteps = gSteps; gTickSame = 0; }
}
std::string jsonEsc(const std::string &s) {
    std::string r;
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (static_cast<unsigned char>(c) < 32) r += ' ';
        else r += c;
    }
    return r;
}
} // namespace

// =================================================================================================
// public API
namespace mc {
void add(const std::string &name, std::function<void()> body, Options q, Options t) { gScen.push_back({ name, std::move(body), q, t }); }
bool active() { return gActive; }
void fail(const std::string &m) { violation("PROPERTY " + m); }
int  self() { return gCur ? gCur->id : 0; }
uint64_t now() { return gSteps; }
uint64_t waits() { return gActive && gCur ? gCur->waits : 0; }
int64_t  virtualTimeNs() { return gVt; }
void     advanceTime(int64_t ns) { gVt += ns; }
void     note(const std::string &s) { RT rt; trace("note %s", s.c_str()); }
void     point() { if (!gActive || gRt) return; RT rt; ::point("point", reinterpret_cast<uintptr_t>(__builtin_return_address(0))); }
int      choose(int n) {
    if (!gActive) return 0;
    RT  rt;
    int c = pickChoice(n);
    gCur->h = mix(gCur->h, u64(c) + 1001);
    return c;
}
static const uintptr_t kHarnessObj = 64;
void waitUntil(const std::function<bool()> &pred) {
    RT rt;
    ::point("wait", 0);
    while (!pred()) {
        gCur->pred = &pred;
        blockOn(B_PRED, 0);
    }
    progress(gCur);
    hashEvent(obj(kHarnessObj), 21, true);
    // harness-level synchronisation: everything that happened so far is ordered before us
    for (int i = 0; i < gN; i++) { gCur->vc.join(gF[size_t(i)]->vc); gF[size_t(i)]->vc.c[i]++; }
}
// Harness bookkeeping is shared state the happens-before hash does not know: each section counts as an operation on one
// pseudo object (so that executions differing in the order of bookkeeping are not taken for equivalent) and is a scheduling
// point, but orders nothing for the race detector.
Untracked::Untracked() {
    if (!gCur) return;
    if (gActive && !gRt && gCur->untracked == 0) {
        RT rt;
        ::point("harness", reinterpret_cast<uintptr_t>(__builtin_return_address(0)));
        hashEvent(obj(kHarnessObj), 20, true);
    }
    gCur->untracked++;
}
Untracked::~Untracked() { if (gCur) gCur->untracked--; }

int main(int argc, char **argv) {
    gRt = 1;
    std::string tier = "quick", replay, out, only, replayDir = "/tmp";
    bool list = false;
    int  pb = -1;
    double maxSec = 0;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") tier = next();
        else if (a == "--replay") replay = next();
        else if (a == "--out") out = next();
        else if (a == "--only") only = next();
        else if (a == "--replay-dir") replayDir = next();
        else if (a == "--list") list = true;
        else if (a == "--max-seconds") maxSec = atof(next().c_str());
        else if (a == "--pb") pb = atoi(next().c_str());
    }
    if (list) { for (auto &s : gScen) printf("%s\n", s.name.c_str()); return 0; }
    struct sigaction sa{};
    static char alt[65536];
    stack_t     ss{};
    ss.ss_sp = alt; ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    sa.sa_handler = onSignal;
    sa.sa_flags   = SA_ONSTACK | SA_NODEFER;
    struct sigaction st{};
    st.sa_handler = onTick;
    st.sa_flags   = SA_RESTART | SA_ONSTACK;
    sigaction(SIGPROF, &st, nullptr);
    itimerval itv{ { 1, 0 }, { 1, 0 } };
    setitimer(ITIMER_PROF, &itv, nullptr);
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) sigaction(s, &sa, nullptr);
    std::set_terminate([] {
        if (gActive) {
            ++gRt;
            std::string w = "std::terminate called";
            if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (const std::exception &x) { w += std::string(": ") + x.what(); } catch (...) {} }
            violation(w);
        }
        _exit(3);
    });
    bool first = true;
    dl_iterate_phdr(phdrCb, &first);
    gMainTls = static_cast<char *>(malloc(gTlsSize + 16));
    __libc_single_threaded = 0;
    gArena  = static_cast<char *>(mmap(reinterpret_cast<void *>(0x600000000000ULL), ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0));
    gAState = static_cast<u8 *>(mmap(nullptr, ARENA_SIZE / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    gAGran  = static_cast<Gran *>(mmap(nullptr, ARENA_SIZE / 8 * sizeof(Gran), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    gObjs.resize(1 << 14);

    std::string rScen;
    if (!replay.empty()) {
        FILE *f = fopen(replay.c_str(), "r");
        if (!f) { fprintf(stderr, "cannot open replay %s\n", replay.c_str()); return 3; }
        char line[1 << 16];
        while (fgets(line, sizeof line, f)) {
            std::string l = line;
            while (!l.empty() && l.back() == '\n') l.pop_back();
            if (l.rfind("scenario ", 0) == 0) rScen = l.substr(9);
            else if (l.rfind("tier ", 0) == 0) tier = l.substr(5);
            else if (l.rfind("pb ", 0) == 0) pb = atoi(l.c_str() + 3);
            else if (l.rfind("choices", 0) == 0) {
                const char *p = l.c_str() + 7;
                int a, b, n;
                while (sscanf(p, " %d/%d%n", &a, &b, &n) == 2) { gChoices.push_back({ u8(b), u8(a) }); p += n; }
            }
        }
        fclose(f);
        only = rScen;
        gReplay = true;
    }

    std::string js;
    int  rc = 0;
    for (auto &s : gScen) {
        if (!only.empty() && s.name != only) continue;
        gOpt = tier == "thorough" ? s.thorough : s.opt;
        if (pb >= 0) gOpt.preemptions = pb;
        if (maxSec > 0) gOpt.maxSeconds = std::min(gOpt.maxSeconds, maxSec);
        if (!gReplay) gChoices.clear();
        gSeen.clear();
        gTerminal.clear();
        gTransitions = 0;
        auto t0 = std::chrono::steady_clock::now();
        timespec ts0; ::syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts0);
        (void) t0;
        u64  schedules = 0, maxSteps = 0;
        bool complete = true;
        std::string sampleS;
        auto elapsed = [&] { timespec ts; ::syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return double(ts.tv_sec - ts0.tv_sec) + double(ts.tv_nsec - ts0.tv_nsec) * 1e-9; };
        gTracing = gReplay;
        for (;;) {
            gRuns++;
            runOnce(s.body);
            schedules++;
            gRun++;
            maxSteps = std::max(maxSteps, gSteps);
            if (gAbort) break;
            if (gReplay) break;
            if (schedules <= 3 || (schedules & (schedules - 1)) == 0) {
                sampleS = "schedule #" + std::to_string(schedules) + ":";
                for (auto &c : gChoices) sampleS += " " + std::to_string(c.idx) + "/" + std::to_string(c.n);
                sampleS = sampleS.substr(0, 300);
            }
            while (!gChoices.empty() && gChoices.back().idx + 1 >= gChoices.back().n) gChoices.pop_back();
            if (gChoices.empty()) break;
            gChoices.back().idx++;
            if (schedules >= gOpt.maxSchedules || elapsed() > gOpt.maxSeconds) { complete = false; break; }
        }
        double el = elapsed();
        if (!js.empty()) js += ",";
        char b[2048];
        snprintf(b, sizeof b, "{\"scenario\":\"%s\",\"schedules\":%lu,\"transitions\":%lu,\"distinct_hb_prefixes\":%zu,\"distinct_outcomes\":%zu,\"max_steps\":%lu,\"preemption_bound\":%d,\"complete\":%s,\"wall_s\":%.2f,\"sample\":\"%s\",\"violation\":\"%s\"}",
                s.name.c_str(), (unsigned long) schedules, (unsigned long) gTransitions, gSeen.size(), gTerminal.size(), (unsigned long) maxSteps, gOpt.preemptions, complete ? "true" : "false", el, sampleS.c_str(), gAbort ? jsonEsc(gViolation).substr(0, 500).c_str() : "");
        js += b;
        if (gAbort) {
            rc = 1;
            printf("FAIL scenario=%s: %s\n", s.name.c_str(), gViolation.c_str());
            if (!gReplay) {
                std::string path = replayDir + "/" + s.name + ".replay";
                if (FILE *f = fopen(path.c_str(), "w")) {
                    gChoices.resize(std::min(gChoices.size(), gPos));
                    fprintf(f, "scenario %s\ntier %s\npb %d\n", s.name.c_str(), tier.c_str(), gOpt.preemptions);
                    fprintf(f, "choices");
                    for (auto &c : gChoices) fprintf(f, " %d/%d", c.idx, c.n);
                    fprintf(f, "\nmessage %s\n", gViolation.c_str());
                    fclose(f);
                    printf("REPLAY %s\n", path.c_str());
                }
            } else {
                for (auto &t : gTrace) printf("  %s\n", t.c_str());
            }
            break; // an aborted execution may leave broken process state behind
        } else if (gReplay) {
            printf("replay of %s: no violation\n", s.name.c_str());
        } else {
            printf("ok   scenario=%-40s schedules=%lu transitions=%lu outcomes=%zu maxsteps=%lu pb=%d%s %.2fs\n", s.name.c_str(), (unsigned long) schedules, (unsigned long) gTransitions, gTerminal.size(), (unsigned long) maxSteps, gOpt.preemptions, complete ? "" : " INCOMPLETE", el);
        }
        fflush(stdout);
    }
    if (!out.empty()) {
        if (FILE *f = fopen(out.c_str(), "w")) { fprintf(f, "[%s]\n", js.c_str()); fclose(f); }
    }
    fflush(stdout);
    _exit(rc);
}
} // namespace mc

// =================================================================================================
// operator new / delete
extern "C" {
void *__libc_malloc(size_t);
void  __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
}
static void *mcNew(size_t n, size_t al) {
    if (gActive && !gRt) { RT rt; return arenaAlloc(n, al); }
    return al <= 16 ? __libc_malloc(n ? n : 1) : __libc_memalign(al, n ? n : 1);
}
static void mcDelete(void *p) {
    if (!p) return;
    if (!inArena(p)) { __libc_free(p); return; }
    auto *h = reinterpret_cast<Hdr *>(static_cast<char *>(p) - sizeof(Hdr));
    size_t o = size_t(static_cast<char *>(p) - gArena);
    bool tr = gActive && !gRt;
    RT rt;
    if (tr) {
        if (gAState[o / 16] == 2) violation("DOUBLE FREE " + pcs(reinterpret_cast<uintptr_t>(__builtin_return_address(0))));
        if (gAState[o / 16] != 1 || h->magic != 0xA11C0001) violation("INVALID FREE");
        if (!gCur->untracked) access(reinterpret_cast<uintptr_t>(p), h->size, 1, reinterpret_cast<uintptr_t>(__builtin_return_address(0)));
    }
    memset(gAState + o / 16, 2, (h->size ? h->size + 15 : 16) / 16);
    if (gActive) memset(p, 0xDD, h->size);
}
extern "C" {
void *malloc(size_t n) { return mcNew(n, 16); }
void  free(void *p) { mcDelete(p); }
void *calloc(size_t a, size_t b) {
    if (gActive && !gRt) { RT rt; void *p = arenaAlloc(a * b, 16); memset(p, 0, a * b); return p; }
    return __libc_calloc(a, b);
}
void *realloc(void *p, size_t n) {
    if (!(gActive && !gRt) && !inArena(p)) return __libc_realloc(p, n);
    void *q = mcNew(n, 16);
    if (p) {
        size_t old = inArena(p) ? reinterpret_cast<Hdr *>(static_cast<char *>(p) - sizeof(Hdr))->size : malloc_usable_size(p);
        { RT rt; memcpy(q, p, std::min(old, n)); }
        mcDelete(p);
    }
    return q;
}
void *aligned_alloc(size_t al, size_t n) { return mcNew(n, al); }
void *memalign(size_t al, size_t n) { return mcNew(n, al); }
int   posix_memalign(void **r, size_t al, size_t n) { *r = mcNew(n, al); return 0; }
}
void *operator new(size_t n) { return mcNew(n, 16); }
void *operator new[](size_t n) { return mcNew(n, 16); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return mcNew(n, 16); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return mcNew(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return mcNew(n, size_t(a)); }
void *operator new[](size_t n, std::align_val_t a) { return mcNew(n, size_t(a)); }
void  operator delete(void *p) noexcept { mcDelete(p); }
void  operator delete[](void *p) noexcept { mcDelete(p); }
void  operator delete(void *p, size_t) noexcept { mcDelete(p); }
void  operator delete[](void *p, size_t) noexcept { mcDelete(p); }
void  operator delete(void *p, std::align_val_t) noexcept { mcDelete(p); }
void  operator delete[](void *p, std::align_val_t) noexcept { mcDelete(p); }
void  operator delete(void *p, size_t, std::align_val_t) noexcept { mcDelete(p); }
void  operator delete[](void *p, size_t, std::align_val_t) noexcept { mcDelete(p); }

// =================================================================================================
// instrumentation entry points
#define PC reinterpret_cast<uintptr_t>(__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
    void __tsan_read##n(void *p) { plain(p, n, false, PC); } \
    void __tsan_write##n(void *p) { plain(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void *p) { plain(p, n, false, PC); } \
    void __tsan_unaligned_write##n(void *p) { plain(p, n, true, PC); } \
    void __tsan_volatile_read##n(void *p) { plain(p, n, false, PC); } \
    void __tsan_volatile_write##n(void *p) { plain(p, n, true, PC); } \
    void __tsan_unaligned_volatile_read##n(void *p) { plain(p, n, false, PC); } \
    void __tsan_unaligned_volatile_write##n(void *p) { plain(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { if (n) plain(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { if (n) plain(p, n, true, PC); }
void __tsan_vptr_read(void **p) { plain(p, 8, false, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) plain(p, 8, true, PC); }

#define AT(bits, T) \
    T    __tsan_atomic##bits##_load(const volatile T *p, int mo) { return aLoad<T>(p, mo, PC); } \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) { aStore<T>(p, v, mo, PC); } \
    T    __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) { return aRmw<T>(p, mo, PC, 3, [v](T) { return v; }); } \
    T    __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo) { return aRmw<T>(p, mo, PC, 4, [v](T o) { return T(o + v); }); } \
    T    __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo) { return aRmw<T>(p, mo, PC, 4, [v](T o) { return T(o - v); }); } \
    T    __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo) { return aRmw<T>(p, mo, PC, 4, [v](T o) { return T(o & v); }); } \
    T    __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo) { return aRmw<T>(p, mo, PC, 4, [v](T o) { return T(o | v); }); } \
    T    __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo) { return aRmw<T>(p, mo, PC, 4, [v](T o) { return T(o ^ v); }); } \
    T    __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int mo) { return aRmw<T>(p, mo, PC, 4, [v](T o) { return T(~(o & v)); }); } \
    bool __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T d, int mo, int fmo) { return aCas<T>(p, e, d, mo, fmo, PC); } \
    bool __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T d, int mo, int fmo) { return aCas<T>(p, e, d, mo, fmo, PC); } \
    T    __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T d, int mo, int fmo) { aCas<T>(p, &e, d, mo, fmo, PC); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
    if (!gActive || gRt) return;
    RT rt;
    if (isAcq(mo)) gCur->vc.join(gCur->pendAcq);
    if (isRel(mo)) { gCur->relFence = gCur->vc; gCur->vc.c[gCur->id]++; }
}
void __tsan_atomic_signal_fence(int) {}

void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n) { plain(s, n, false, PC); plain(d, n, true, PC); } unsigned char *a = static_cast<unsigned char *>(d); const unsigned char *b = static_cast<const unsigned char *>(s); __asm__ volatile("rep movsb" : "+D"(a), "+S"(b), "+c"(n)::"memory"); return d; }
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memmove(void *d, const void *s, size_t n) { if (n) { plain(s, n, false, PC); plain(d, n, true, PC); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (n) plain(d, n, true, PC); return __real_memset(d, c, n); }

// ---- thread-safe statics ----
int __cxa_guard_acquire(u64 *g) {
    auto *b = reinterpret_cast<volatile u8 *>(g);
    if (!gActive || gRt) { if (b[0]) return 0; return 1; }
    RT   rt;
    auto a = reinterpret_cast<uintptr_t>(g);
    for (;;) {
        if (b[0]) { gCur->vc.join(obj(a).vc); return 0; }
        if (!b[1]) { b[1] = 1; return 1; }
        gCur->woken = false;
        blockOn(B_ONCE, a);
    }
}
void __cxa_guard_release(u64 *g) {
    auto *b = reinterpret_cast<volatile u8 *>(g);
    b[0]    = 1;
    b[1]    = 0;
    if (!gActive || gRt) return;
    RT rt;
    obj(reinterpret_cast<uintptr_t>(g)).vc.join(gCur->vc);
    gCur->vc.c[gCur->id]++;
    for (int i = 0; i < gN; i++) if (gF[size_t(i)]->st == B_ONCE && gF[size_t(i)]->waitObj == reinterpret_cast<uintptr_t>(g)) gF[size_t(i)]->woken = true;
}
void __cxa_guard_abort(u64 *g) {
    reinterpret_cast<volatile u8 *>(g)[1] = 0;
    if (!gActive || gRt) return;
    for (int i = 0; i < gN; i++) if (gF[size_t(i)]->st == B_ONCE && gF[size_t(i)]->waitObj == reinterpret_cast<uintptr_t>(g)) gF[size_t(i)]->woken = true;
}
int __cxa_thread_atexit(void (*d)(void *), void *o, void *) {
    if (gActive && gCur) { RT rt; gCur->tlsDtors.emplace_back(d, o); }
    return 0;
}

// ---- pthread: threads ----
int pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
    if (!gActive) { fprintf(stderr, "mcrt: thread created outside a scenario\n"); _exit(3); }
    RT rt;
    point("create", PC);
    Fiber *f = newFiber();
    f->fn    = fn;
    f->arg   = arg;
    f->vc.join(gCur->vc);
    f->vc.c[f->id] = std::max<u32>(f->vc.c[f->id], 1);
    gCur->vc.c[gCur->id]++;
    Obj &o = obj(reinterpret_cast<uintptr_t>(f) + 2);
    hashEvent(o, 8, true);
    f->h = gCur->h;
    progress(gCur);
    *t = pthread_t(f->id + 1);
    trace("creates T%d", f->id);
    if (f->id >= gOpt.eagerThreads) reschedule(true);
    return 0;
}
int pthread_join(pthread_t t, void **ret) {
    RT rt;
    int id = int(t) - 1;
    if (id < 0 || id >= gN) return ESRCH;
    Fiber *f = gF[size_t(id)];
    if (f == gCur) return EDEADLK;
    if (f->joined || f->detached) return EINVAL;
    point("join", PC);
    while (f->st != DONE) {
        gCur->joinTarget = id;
        trace("waits for end of T%d", id);
        blockOn(B_JOIN, 0);
    }
    f->joined = true;
    gCur->vc.join(f->vc);
    Obj &o = obj(reinterpret_cast<uintptr_t>(f) + 1);
    hashEvent(o, 10, true);
    progress(gCur);
    if (ret) *ret = f->ret;
    return 0;
}
int       pthread_detach(pthread_t t) { int id = int(t) - 1; if (id < 0 || id >= gN) return ESRCH; if (gF[size_t(id)]->joined || gF[size_t(id)]->detached) return EINVAL; gF[size_t(id)]->detached = true; return 0; }
pthread_t pthread_self() { return gCur ? pthread_t(gCur->id + 1) : pthread_t(1); }
int       pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int       pthread_setname_np(pthread_t t, const char *n) { int id = int(t) - 1; if (id < 0 || id >= gN) return ESRCH; if (strlen(n) > 15) return ERANGE; strncpy(gF[size_t(id)]->name, n, 63); return 0; }
int       pthread_getname_np(pthread_t t, char *b, size_t n) { int id = int(t) - 1; if (id < 0 || id >= gN) return ESRCH; if (n < 16) return ERANGE; strncpy(b, gF[size_t(id)]->name, n); return 0; }
int       pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *s) {
    int id = int(t) - 1;
    if (id < 0 || id >= gN) return ESRCH;
    Fiber *f = gF[size_t(id)];
    memset(&f->affinity, 0, sizeof f->affinity);
    memcpy(&f->affinity, s, n < sizeof f->affinity ? n : sizeof f->affinity);
    f->affinitySet = true;
    return 0;
}
int       pthread_getaffinity_np(pthread_t t, size_t n, cpu_set_t *s) {
    int id = int(t) - 1;
    if (id < 0 || id >= gN) return ESRCH;
    Fiber *f = gF[size_t(id)];
    memset(s, f->affinitySet ? 0 : 0xff, n);
    if (f->affinitySet) memcpy(s, &f->affinity, n < sizeof f->affinity ? n : sizeof f->affinity);
    return 0;
}
int       pthread_setschedparam(pthread_t, int, const struct sched_param *) { return 0; }
int       pthread_getschedparam(pthread_t, int *p, struct sched_param *sp) { *p = 0; sp->sched_priority = 0; return 0; }
int       sched_yield() {
    if (!gActive || gRt) return 0;
    RT rt;
    gCur->yields++;
    trace("yields");
    reschedule(true);
    return 0;
}

// ---- mutex ----
static int mcLock(pthread_mutex_t *m, bool tryOnly, bool timed, int64_t deadline, uintptr_t pc) {
    if (!gActive || gRt) return 0;
    RT   rt;
    auto a = reinterpret_cast<uintptr_t>(m);
    point("lock", pc);
    heapCheck(a, sizeof *m, false, pc);
    bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    for (;;) {
        Obj &o = obj(a);
        if (o.owner == -1 || (rec && o.owner == gCur->id)) {
            o.owner = gCur->id;
            o.count++;
            gCur->vc.join(o.vc);
            hashEvent(o, 11, true);
            if (!gCur->winClock) progress(gCur);
            trace("locks %lx %s", (unsigned long) a, gTracing ? pcs(pc).c_str() : "");
            return 0;
        }
        if (tryOnly) { hashEvent(o, 12, false); if (noteRead(o)) { spinWait(); continue; } return EBUSY; }
        if (o.owner == gCur->id && !timed) violation("self-deadlock: thread locks a mutex it already holds");
        gCur->hasDeadline = timed;
        gCur->deadline    = deadline;
        gCur->timedOut    = false;
        trace("blocks on mutex %lx", (unsigned long) a);
        blockOn(B_MUTEX, a);
        if (gCur->timedOut) { gCur->timedOut = false; return ETIMEDOUT; }
    }
}
static int mcUnlock(pthread_mutex_t *m, uintptr_t pc, bool pt) {
    if (!gActive || gRt) return 0;
    RT   rt;
    auto a = reinterpret_cast<uintptr_t>(m);
    if (pt) point("unlock", pc);
    heapCheck(a, sizeof *m, false, pc);
    Obj &o = obj(a);
    if (o.owner != gCur->id) violation("mutex unlocked by a thread that does not hold it");
    if (--o.count == 0) {
        o.owner = -1;
        o.ver++;
        o.vc.join(gCur->vc);
        gCur->vc.c[gCur->id]++;
    }
    hashEvent(o, 13, true);
    trace("unlocks %lx", (unsigned long) a);
    return 0;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *at) {
    memset(m, 0, sizeof *m);
    if (at) { int k = 0; pthread_mutexattr_gettype(at, &k); m->__data.__kind = k; }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
    if (gActive && !gRt) { RT rt; if (obj(reinterpret_cast<uintptr_t>(m)).owner != -1) violation("mutex destroyed while locked"); }
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) { return mcLock(m, false, false, 0, PC); }
int pthread_mutex_trylock(pthread_mutex_t *m) { return mcLock(m, true, false, 0, PC); }
int pthread_mutex_unlock(pthread_mutex_t *m) { return mcUnlock(m, PC, false); }

// ---- time ----
static const int64_t REAL_BASE = 1700000000LL * 1000000000LL, MONO_BASE = 1000LL * 1000000000LL;
static int64_t       toVt(clockid_t c, const timespec *t) { return int64_t(t->tv_sec) * 1000000000LL + t->tv_nsec - (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? REAL_BASE : MONO_BASE); }
int clock_gettime(clockid_t c, timespec *t) {
    if (!gActive) return int(::syscall(SYS_clock_gettime, c, t));
    int64_t v = gVt + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? REAL_BASE : MONO_BASE);
    t->tv_sec  = v / 1000000000LL;
    t->tv_nsec = v % 1000000000LL;
    if (!gRt) {
        RT rt;
        // reading the clock repeatedly without any other progress = waiting for time to pass
        gCur->winClock = true;
        Obj &o = obj(reinterpret_cast<uintptr_t>(&gVt));
        if (noteRead(o)) { // polls the clock: let the others run, or time pass
            for (auto &w : gCur->win) if (w.a == o.a) w.cnt = 0;
            spinWait();
            v = gVt + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? REAL_BASE : MONO_BASE);
            t->tv_sec  = v / 1000000000LL;
            t->tv_nsec = v % 1000000000LL;
        }
    }
    return 0;
}
int gettimeofday(struct timeval *tv, void *) { timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
time_t time(time_t *p) { timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
static void mcSleep(int64_t ns) {
    if (!gActive || gRt) return;
    RT rt;
    if (ns <= 0) { gCur->yields++; trace("yields (sleep 0)"); reschedule(true); return; }
    gCur->hasDeadline = true;
    gCur->deadline    = gVt + ns;
    gCur->timedOut    = false;
    trace("sleeps %ld ns", long(ns));
    blockOn(B_SLEEP, 0);
    gCur->timedOut = false;
}
int nanosleep(const timespec *t, timespec *) { mcSleep(int64_t(t->tv_sec) * 1000000000LL + t->tv_nsec); return 0; }
int clock_nanosleep(clockid_t c, int flags, const timespec *t, timespec *) {
    if (flags & TIMER_ABSTIME) mcSleep(toVt(c, t) - gVt);
    else mcSleep(int64_t(t->tv_sec) * 1000000000LL + t->tv_nsec);
    return 0;
}
int      usleep(useconds_t u) { mcSleep(int64_t(u) * 1000); return 0; }
unsigned sleep(unsigned s) { mcSleep(int64_t(s) * 1000000000LL); return 0; }

int pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *t) { return mcLock(m, false, true, toVt(CLOCK_REALTIME, t), PC); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const timespec *t) { return mcLock(m, false, true, toVt(c, t), PC); }

// ---- condition variables ----
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *c) {
    if (gActive && !gRt) { RT rt; for (int i = 0; i < gN; i++) if (gF[size_t(i)]->st == B_COND && gF[size_t(i)]->waitObj == reinterpret_cast<uintptr_t>(c) && !gF[size_t(i)]->woken) violation("condition variable destroyed while a thread waits on it"); }
    return 0;
}
static int mcCondWait(pthread_cond_t *c, pthread_mutex_t *m, bool timed, int64_t deadline, uintptr_t pc) {
    if (!gActive || gRt) return 0;
    RT rt;
    point("cond_wait", pc);
    heapCheck(reinterpret_cast<uintptr_t>(c), sizeof *c, false, pc);
    --gRt; mcUnlock(m, pc, false); ++gRt;
    gCur->woken       = false;
    gCur->hasDeadline = timed;
    gCur->deadline    = deadline;
    gCur->timedOut    = false;
    Obj &o = obj(reinterpret_cast<uintptr_t>(c));
    hashEvent(o, 14, true);
    progress(gCur);
    trace("waits on condition %lx", (unsigned long) c);
    blockOn(B_COND, reinterpret_cast<uintptr_t>(c));
    bool to = gCur->timedOut && !gCur->woken;
    gCur->timedOut = false;
    gCur->woken    = false;
    --gRt; mcLock(m, false, false, 0, pc); ++gRt;
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return mcCondWait(c, m, false, 0, PC); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t) { return mcCondWait(c, m, true, toVt(CLOCK_REALTIME, t), PC); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *t) { return mcCondWait(c, m, true, toVt(k, t), PC); }
static int mcSignal(pthread_cond_t *c, bool all, uintptr_t pc) {
    if (!gActive || gRt) return 0;
    RT rt;
    point("cond_signal", pc);
    heapCheck(reinterpret_cast<uintptr_t>(c), sizeof *c, false, pc);
    Obj &o = obj(reinterpret_cast<uintptr_t>(c));
    hashEvent(o, 15, true);
    int w[MAXT], n = 0;
    for (int i = 0; i < gN; i++) if (gF[size_t(i)]->st == B_COND && gF[size_t(i)]->waitObj == reinterpret_cast<uintptr_t>(c) && !gF[size_t(i)]->woken) w[n++] = i;
    trace("signals condition %lx (%s), %d waiting", (unsigned long) c, all ? "all" : "one", n);
    if (n == 0) return 0;
    if (all) for (int i = 0; i < n; i++) gF[size_t(w[i])]->woken = true;
    else gF[size_t(w[pickChoice(n)])]->woken = true;
    progress(gCur);
    return 0;
}
int pthread_cond_signal(pthread_cond_t *c) { return mcSignal(c, false, PC); }
int pthread_cond_broadcast(pthread_cond_t *c) { return mcSignal(c, true, PC); }

// ---- rwlock ----
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
static int mcRw(pthread_rwlock_t *l, bool wr, bool tryOnly, uintptr_t pc) {
    if (!gActive || gRt) return 0;
    RT   rt;
    auto a = reinterpret_cast<uintptr_t>(l);
    point("rwlock", pc);
    heapCheck(a, sizeof *l, false, pc);
    for (;;) {
        Obj &o = obj(a);
        bool ok = o.owner == -1 && (!wr || o.readers == 0);
        if (ok) {
            if (wr) o.owner = gCur->id;
            else { if (o.readers & (1u << gCur->id)) violation("thread takes a shared lock it already holds (undefined for std::shared_mutex)"); o.readers |= 1u << gCur->id; }
            gCur->vc.join(o.vc);
            hashEvent(o, 16, true);
            if (!gCur->winClock) progress(gCur);
            return 0;
        }
        if (o.owner == gCur->id || (wr && (o.readers & (1u << gCur->id)))) violation("self-deadlock on reader/writer lock");
        if (tryOnly) { if (noteRead(o)) { spinWait(); continue; } return EBUSY; }
        blockOn(wr ? B_RWW : B_RWR, a);
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { return mcRw(l, false, false, PC); }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { return mcRw(l, true, false, PC); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return mcRw(l, false, true, PC); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return mcRw(l, true, true, PC); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
    if (!gActive || gRt) return 0;
    RT   rt;
    Obj &o = obj(reinterpret_cast<uintptr_t>(l));
    if (o.owner == gCur->id) o.owner = -1;
    else if (o.readers & (1u << gCur->id)) o.readers &= ~(1u << gCur->id);
    else violation("reader/writer lock released by a thread that does not hold it");
    o.vc.join(gCur->vc);
    gCur->vc.c[gCur->id]++;
    o.ver++;
    hashEvent(o, 17, true);
    if (gOpt.unlockPoints) { // what follows is not equivalent to what precedes: it may contain accesses the race detector does not see
        point("rwlock released", PC);
        hashEvent(obj(reinterpret_cast<uintptr_t>(gCur)), 18, true);
    }
    return 0;
}
// ---- once ----
int pthread_once(pthread_once_t *o, void (*f)()) {
    auto *i = reinterpret_cast<volatile int *>(o);
    if (!gActive || gRt) { if (*i == 0) { *i = 2; f(); } return 0; }
    ++gRt;
    auto a = reinterpret_cast<uintptr_t>(o);
    point("once", PC);
    for (;;) {
        if (*i == 2) { gCur->vc.join(obj(a).vc); --gRt; return 0; }
        if (*i == 0) {
            *i = 1;
            --gRt;
            try { f(); } catch (...) {
                *i = 0;
                for (int k = 0; k < gN; k++) if (gF[size_t(k)]->st == B_ONCE && gF[size_t(k)]->waitObj == a) gF[size_t(k)]->woken = true;
                throw;
            }
            ++gRt;
            *i = 2;
            obj(a).vc.join(gCur->vc);
            gCur->vc.c[gCur->id]++;
            for (int k = 0; k < gN; k++) if (gF[size_t(k)]->st == B_ONCE && gF[size_t(k)]->waitObj == a) gF[size_t(k)]->woken = true;
            --gRt;
            return 0;
        }
        gCur->woken = false;
        blockOn(B_ONCE, a);
    }
}
// ---- semaphores ----
int sem_init(sem_t *s, int, unsigned v) { RT rt; if (gActive) { obj(reinterpret_cast<uintptr_t>(s)).cnt = v; } return 0; }
int sem_destroy(sem_t *) { return 0; }

// ---- futex (std::atomic::wait, std::future, std::counting_semaphore) ----
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (long &x : a) x = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && gActive) {
        auto *p  = reinterpret_cast<volatile int *>(a[0]);
        int   op = int(a[1]) & FUTEX_CMD_MASK;
        if (gRt) return 0;
        RT rt;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            point("futex_wait", PC);
            heapCheck(reinterpret_cast<uintptr_t>(p), 4, false, PC);
            if (*p != int(a[2])) { errno = EAGAIN; return -1; }
            gCur->woken       = false;
            gCur->timedOut    = false;
            gCur->hasDeadline = a[3] != 0;
            if (a[3]) {
                auto *t = reinterpret_cast<timespec *>(a[3]);
                gCur->deadline = op == FUTEX_WAIT ? gVt + int64_t(t->tv_sec) * 1000000000LL + t->tv_nsec : toVt((a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, t);
            }
            trace("futex waits on %lx", (unsigned long) p);
            hashEvent(obj(reinterpret_cast<uintptr_t>(p) + 1), 18, true);
            progress(gCur);
            blockOn(B_FUTEX, reinterpret_cast<uintptr_t>(p));
            bool to = gCur->timedOut && !gCur->woken;
            gCur->timedOut = gCur->woken = false;
            if (to) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            point("futex_wake", PC);
            long k = 0;
            hashEvent(obj(reinterpret_cast<uintptr_t>(p) + 1), 19, true);
            for (int i = 0; i < gN && k < int(a[2]); i++) {
                Fiber *f = gF[size_t(i)];
                if (f->st == B_FUTEX && f->waitObj == reinterpret_cast<uintptr_t>(p) && !f->woken) { f->woken = true; k++; }
            }
            trace("futex wakes %ld on %lx", k, (unsigned long) p);
            return k;
        }
        errno = ENOSYS;
        return -1;
    }
    long ret;
    register long r10 __asm__("r10") = a[3];
    register long r8 __asm__("r8")   = a[4];
    register long r9 __asm__("r9")   = a[5];
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096) { errno = int(-ret); return -1; }
    return ret;
}
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
    if (gActive) violation(std::string("assertion failed: ") + e + " at " + f + ":" + std::to_string(l));
    fprintf(stderr, "assertion %s failed at %s:%u %s\n", e, f, l, fn);
    _exit(3);
}
} // extern "C"

int main(int argc, char **argv) { return mc::main(argc, argv); }
