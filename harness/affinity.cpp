// C10: thread/process attributes on a simulated OS (every OS call of the wrappers is replaced by a recording stand-in)
#include "seq.h"
#include <ThreadAffinity.hpp>
#include <array>
#include <cerrno>
#include <map>
#include <semaphore>
#include <signal.h>
#include <sys/wait.h>

namespace th = opencmw::thread;

struct Attr {
    std::string name = "init";
    cpu_set_t   cpus{};
    int         policy = SCHED_OTHER, prio = 0;
};
struct Os {
    std::map<uintptr_t, Attr> obj; // threads by handle, processes by pid (distinct maps in practice: keys never collide here)
    int                       failAt = -1, err = 0, calls = 0, cpus = 4;
    bool                      failed = false, onwards = false; // onwards: every call from failAt on fails
    std::string               log;
    bool fail(const char *what) {
        if (!failed) log = what;
        const int n = calls++;
        if (n == failAt || (onwards && failAt >= 0 && n > failAt)) { failed = true; return true; }
        return false;
    }
};
static Os  os;
static bool simulated = false;

extern "C" {
int __real_pthread_setname_np(pthread_t, const char *);
int __wrap_pthread_setname_np(pthread_t t, const char *n) {
    if (!simulated) return __real_pthread_setname_np(t, n);
    if (os.fail("setname")) return os.err;
    if (strlen(n) > 15) return ERANGE;
    os.obj[t].name = n;
    return 0;
}
int __wrap_pthread_getname_np(pthread_t t, char *b, size_t n) {
    if (os.fail("getname")) return os.err;
    auto &s = os.obj[t].name;
    if (n < 16 || s.size() + 1 > n) return ERANGE;
    memcpy(b, s.c_str(), s.size() + 1);
    return 0;
}
int __wrap_pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *c) {
    if (os.fail("setaffinity")) return os.err;
    if (n != sizeof(cpu_set_t) || CPU_COUNT(c) == 0) return EINVAL;
    os.obj[t].cpus = *c;
    return 0;
}
int __wrap_pthread_getaffinity_np(pthread_t t, size_t n, cpu_set_t *c) {
    if (os.fail("getaffinity")) return os.err;
    *c = os.obj[t].cpus;
    return 0;
}
int __wrap_sched_setaffinity(pid_t p, size_t, const cpu_set_t *c) {
    if (os.fail("sched_setaffinity")) { errno = os.err; return -1; }
    if (CPU_COUNT(c) == 0) { errno = EINVAL; return -1; }
    os.obj[uintptr_t(p)].cpus = *c;
    return 0;
}
int __wrap_sched_getaffinity(pid_t p, size_t, cpu_set_t *c) {
    if (os.fail("sched_getaffinity")) { errno = os.err; return -1; }
    *c = os.obj[uintptr_t(p)].cpus;
    return 0;
}
int __wrap_pthread_setschedparam(pthread_t t, int pol, const sched_param *p) {
    if (os.fail("setschedparam")) return os.err;
    os.obj[t].policy = pol;
    os.obj[t].prio   = p->sched_priority;
    return 0;
}
int __wrap_pthread_getschedparam(pthread_t t, int *pol, sched_param *p) {
    if (os.fail("getschedparam")) return os.err;
    *pol              = os.obj[t].policy;
    p->sched_priority = os.obj[t].prio;
    return 0;
}
int __wrap_sched_setscheduler(pid_t t, int pol, const sched_param *p) {
    if (os.fail("sched_setscheduler")) { errno = os.err; return -1; }
    os.obj[uintptr_t(t)].policy = pol;
    os.obj[uintptr_t(t)].prio   = p->sched_priority;
    return 0;
}
int __wrap_sched_setparam(pid_t t, const sched_param *p) {
    if (os.fail("sched_setparam")) { errno = os.err; return -1; }
    os.obj[uintptr_t(t)].prio = p->sched_priority;
    return 0;
}
int __wrap_sched_getscheduler(pid_t t) {
    if (os.fail("sched_getscheduler")) { errno = os.err; return -1; }
    return os.obj[uintptr_t(t)].policy;
}
int __wrap_sched_getparam(pid_t t, sched_param *p) {
    if (os.fail("sched_getparam")) { errno = os.err; return -1; }
    p->sched_priority = os.obj[uintptr_t(t)].prio;
    return 0;
}
int get_nprocs(void) { return simulated ? os.cpus : 8; }
}
// calls f; a failure must be a system_error whose code, category and text stay usable after the throwing frames are gone
template<typename F>
static bool failsCleanly(const F &f, const std::string &what) {
    std::exception_ptr keep;
    try {
        f();
        return false;
    } catch (const std::system_error &) {
        keep = std::current_exception();
    }
    volatile char scribble[2048]; // reuse the stack that a temporary category may have lived on
    for (size_t i = 0; i < sizeof scribble; i++) scribble[i] = char(0x5a);
    try {
        std::rethrow_exception(keep);
    } catch (const std::system_error &e) {
        seq::check(std::string(e.what()).size() > 0, what + ": exception without text");
        seq::check(std::string(e.code().category().name()) == "thread_exception", what + ": exception of a foreign category");
        seq::check(!e.code().message().empty(), what + ": error code without message");
        seq::check(bool(e.code()), what + ": error code says success");
    }
    return true;
}
static std::thread &real() { // one live thread to point at
    static std::binary_semaphore stop(0);
    static std::thread           t([] { stop.acquire(); });
    return t;
}
static std::jthread &realJ() {
    static std::binary_semaphore stop(0);
    static std::jthread          t([](std::stop_token) { stop.acquire(); });
    return t;
}
static void reset(int cpus = 4) {
    os      = Os{};
    os.cpus = cpus;
    (void) real();
    (void) realJ();
    simulated = true;
}
static const std::vector<int> errors{ ESRCH, EINVAL, EPERM, EFAULT, ERANGE, ENOENT, EAGAIN, ENOSYS };

static constexpr int OTHER_PID = 4711; // simulated, never passed to the real OS
static uintptr_t     process(int target) { return target == 3 ? uintptr_t(getpid()) : uintptr_t(OTHER_PID); }
// target: 0 = calling thread, 1 = std::thread, 2 = std::jthread
static uintptr_t handle(int target) { return target == 0 ? pthread_self() : target == 1 ? real().native_handle() : realJ().native_handle(); }
template<typename F>
static auto on(int target, const F &f) { return target == 0 ? f() : target == 1 ? f(real()) : f(realJ()); }

static void names() {
    reset();
    int         target = seq::choose(3), len = seq::choose(41), kind = seq::choose(4);
    std::string full;
    for (int i = 0; i < len; i++) full += char(kind == 1 && i % 3 == 1 ? ' ' : kind == 3 ? 0xff - i : 'a' + i % 26);
    // exactly sized, not null-terminated buffer (kind 2: view into a longer text)
    auto             buf = std::make_unique<char[]>(size_t(len + (kind == 2 ? 7 : 0)) + (len == 0 ? 1 : 0));
    std::copy(full.begin(), full.end(), buf.get());
    if (kind == 2) for (int i = 0; i < 7; i++) buf[size_t(len + i)] = 'Z';
    std::string_view v(buf.get(), size_t(len));
    seq::transition(2);
    on(target, [&](auto &...t) { th::setThreadName(v, t...); });
    std::string want = full.substr(0, 15);
    seq::check(os.obj[handle(target)].name == want, "the OS got thread name " + seq::quote(os.obj[handle(target)].name) + " instead of " + seq::quote(want));
    for (auto &[h, a] : os.obj) seq::check(h == handle(target) || a.name == "init", "another thread was renamed");
    std::string got = on(target, [&](auto &...t) { return th::getThreadName(t...); });
    seq::check(got == want, "thread name " + seq::quote(want) + " reads back as " + seq::quote(got));
}
template<size_t N>
static void affinityN(int cpus) {
    reset(cpus);
    int                 target = seq::choose(5); // 3 = own process, 4 = another one
    std::array<bool, N> map{};
    for (auto &b : map) b = seq::choose(2);
    bool any = false;
    for (size_t i = 0; i < N && int(i) < cpus; i++) any |= map[i];
    uintptr_t key = target >= 3 ? process(target) : handle(target);
    seq::transition(2);
    bool threw = failsCleanly([&] {
        if (target == 3) seq::check(th::setProcessAffinity(map), "setProcessAffinity reports failure");
        else if (target == 4) seq::check(th::setProcessAffinity(map, OTHER_PID), "setProcessAffinity reports failure");
        else on(target, [&](auto &...t) { th::setThreadAffinity(map, t...); });
    }, "setting the affinity");
    seq::check(threw == !any, threw ? "affinity refused" : "an empty CPU set was accepted");
    if (threw) return;
    cpu_set_t &c = os.obj[key].cpus;
    for (int i = 0; i < CPU_SETSIZE; i++)
        seq::check(bool(CPU_ISSET(size_t(i), &c)) == (size_t(i) < N && i < cpus && map[size_t(i)]), "the OS got a wrong CPU set, CPU " + std::to_string(i));
    seq::check(os.obj.size() == 1 || target < 3, "foreign object touched");
    auto got = target == 3 ? th::getProcessAffinity() : target == 4 ? th::getProcessAffinity(OTHER_PID) : on(target, [&](auto &...t) { return th::getThreadAffinity(t...); });
    seq::check(got.size() == size_t(std::min(cpus, int(CPU_SETSIZE))), "affinity mask has " + std::to_string(got.size()) + " entries for " + std::to_string(cpus) + " CPUs");
    for (size_t i = 0; i < got.size(); i++) seq::check(got[i] == (i < N && map[i]), "affinity reads back differently, CPU " + std::to_string(i));
}
static void affinityLarge() { // single CPUs of large machines, vector<bool> maps
    int cpus = std::vector<int>{ 1, 2, 64, 127, 128, 129, 200, 1024, 3000 }[size_t(seq::choose(9))];
    reset(cpus);
    int               target = seq::choose(3);
    std::vector<bool> map(seq::choose(2) ? 1024 : 2500, false);
    if (map.size() > 1024) map[1500] = true; // beyond what the OS interface can express
    int               i = seq::choose(64) * 16 + std::vector<int>{ 0, 7, 8, 15 }[size_t(seq::choose(4))];
    map[size_t(i)] = true;
    seq::transition(2);
    bool threw = failsCleanly([&] { on(target, [&](auto &...t) { th::setThreadAffinity(map, t...); }); }, "setting the affinity");
    seq::check(threw == (i >= cpus), "CPU " + std::to_string(i) + " of " + std::to_string(cpus) + (threw ? " refused" : " accepted"));
    if (threw) return;
    auto got = on(target, [&](auto &...t) { return th::getThreadAffinity(t...); });
    seq::check(int(got.size()) == std::min(cpus, 1024) && got[size_t(i)] && std::count(got.begin(), got.end(), true) == 1, "CPU " + std::to_string(i) + " of " + std::to_string(cpus) + " set, mask reads back differently");
}
static void scheduling() {
    reset();
    static const std::vector<th::Policy> pol{ th::UNKNOWN, th::OTHER, th::FIFO, th::ROUND_ROBIN };
    auto p      = seq::chooseFrom(pol);
    int  prio   = seq::choose(105) - 2;
    int  target = seq::choose(5);
    uintptr_t key = target >= 3 ? process(target) : handle(target);
    bool valid  = p == th::OTHER ? prio == 0 : p != th::UNKNOWN && prio >= 1 && prio <= 99;
    seq::transition(2);
    bool threw = failsCleanly([&] {
        if (target == 3) th::setProcessSchedulingParameter(p, prio);
        else if (target == 4) th::setProcessSchedulingParameter(p, prio, OTHER_PID);
        else on(target, [&](auto &...t) { th::setThreadSchedulingParameter(p, prio, t...); });
    }, "setting the scheduling parameters");
    std::string ctx = " (policy " + std::to_string(int(p)) + ", priority " + std::to_string(prio) + ", target " + std::to_string(target) + ")";
    if (p != th::UNKNOWN) seq::check(threw == !valid, (threw ? "valid priority refused" : "invalid priority accepted") + ctx);
    if (threw) { seq::check(os.obj.empty() || (os.obj[key].policy == SCHED_OTHER && os.obj[key].prio == 0), "parameters changed although the call failed" + ctx); return; }
    if (p == th::UNKNOWN) return; // the simulated OS does not refuse, the real one does
    int want = p == th::OTHER ? SCHED_OTHER : p == th::FIFO ? SCHED_FIFO : SCHED_RR;
    seq::check(os.obj[key].policy == want && os.obj[key].prio == prio, "the OS got policy " + std::to_string(os.obj[key].policy) + " priority " + std::to_string(os.obj[key].prio) + ctx);
    auto got = target == 3 ? th::getProcessSchedulingParameter() : target == 4 ? th::getProcessSchedulingParameter(OTHER_PID) : on(target, [&](auto &...t) { return th::getThreadSchedulingParameter(t...); });
    seq::check(got.policy == p && got.priority == prio, "scheduling parameters read back as " + std::to_string(int(got.policy)) + "/" + std::to_string(got.priority) + ctx);
}
static void policies() { // every OS policy number is reported as the right kind
    reset();
    int pol = seq::choose(12) - 1, target = seq::choose(5), prio = seq::choose(100);
    uintptr_t key = target >= 3 ? process(target) : handle(target);
    os.obj[key].policy = pol;
    os.obj[key].prio   = prio;
    auto want = pol == SCHED_OTHER ? th::OTHER : pol == SCHED_FIFO ? th::FIFO : pol == SCHED_RR ? th::ROUND_ROBIN : th::UNKNOWN;
    if (pol < 0) return; // error return of the OS, see faults
    seq::transition();
    auto got = target == 3 ? th::getProcessSchedulingParameter() : target == 4 ? th::getProcessSchedulingParameter(OTHER_PID) : on(target, [&](auto &...t) { return th::getThreadSchedulingParameter(t...); });
    seq::check(got.policy == want && got.priority == prio, "OS policy " + std::to_string(pol) + " reported as " + std::to_string(int(got.policy)) + ", priority " + std::to_string(got.priority));
}
static void faults() { // every OS call of every operation fails with every error
    reset();
    int op     = seq::choose(10);
    int target = seq::choose(3);
    os.failAt  = seq::choose(3); // which OS call of the operation
    os.onwards = seq::choose(2); // only this one, or also those made while reporting the failure
    os.err     = seq::chooseFrom(errors);
    static const char *names[] = { "setThreadName", "getThreadName", "setThreadAffinity", "getThreadAffinity", "setProcessAffinity", "getProcessAffinity", "setThreadScheduling", "getThreadScheduling", "setProcessScheduling", "getProcessScheduling" };
    std::array<bool, 4> map{ true, false, true, false };
    seq::transition();
    uintptr_t key = handle(target);
    bool threw = failsCleanly([&] {
        switch (op) {
        case 0: on(target, [&](auto &...t) { th::setThreadName("newname", t...); }); break;
        case 1: (void) on(target, [&](auto &...t) { return th::getThreadName(t...); }); break;
        case 2: on(target, [&](auto &...t) { th::setThreadAffinity(map, t...); }); break;
        case 3: (void) on(target, [&](auto &...t) { return th::getThreadAffinity(t...); }); break;
        case 4: (void) th::setProcessAffinity(map); break;
        case 5: (void) th::getProcessAffinity(); break;
        case 6: on(target, [&](auto &...t) { th::setThreadSchedulingParameter(th::FIFO, 7, t...); }); break;
        case 7: (void) on(target, [&](auto &...t) { return th::getThreadSchedulingParameter(t...); }); break;
        case 8: th::setProcessSchedulingParameter(th::FIFO, 7); break;
        case 9: (void) th::getProcessSchedulingParameter(); break;
        }
    }, names[op]);
    seq::check(threw == os.failed, std::string(names[op]) + (threw ? " throws although the OS call succeeded" : " hides that the OS call '" + os.log + "' failed with " + std::to_string(os.err)));
    (void) key;
}
static void invalidHandles() {
    reset();
    int          op   = seq::choose(6), kind = seq::choose(2);
    std::thread  none;
    std::jthread noneJ;
    std::array<bool, 2> map{ true, true };
    auto call = [&](auto &t) {
        switch (op) {
        case 0: th::setThreadName("n", t); break;
        case 1: (void) th::getThreadName(t); break;
        case 2: th::setThreadAffinity(map, t); break;
        case 3: (void) th::getThreadAffinity(t); break;
        case 4: th::setThreadSchedulingParameter(th::OTHER, 0, t); break;
        case 5: (void) th::getThreadSchedulingParameter(t); break;
        }
    };
    seq::transition();
    bool threw = failsCleanly([&] { kind ? call(noneJ) : call(none); }, "operation on a thread object without thread");
    seq::check(threw, "operation " + std::to_string(op) + " on a thread object without thread succeeds");
    seq::check(os.obj.empty(), "an OS call was made for a thread object without thread");
    int pid = -seq::choose(3);
    bool threwP = failsCleanly([&] {
        switch (op) {
        case 0: (void) th::getProcessAffinity(pid); break;
        case 1: (void) th::setProcessAffinity(map, pid); break;
        case 2: (void) th::getProcessSchedulingParameter(pid); break;
        case 3: th::setProcessSchedulingParameter(th::OTHER, 0, pid); break;
        }
    }, "process operation with invalid pid");
    seq::check(threwP || op > 3, "process operation " + std::to_string(op) + " accepts pid " + std::to_string(pid));
}
// histories of settings on several threads and processes: each keeps its own
static void histories() {
    reset();
    std::array<Attr, 5> want;
    const int            steps = seq::thorough() ? 4 : 3;
    for (int step = 0; step < steps; step++) {
        int target = seq::choose(5), v = seq::choose(2);
        int what   = seq::choose(target < 3 ? 3 : 2);
        seq::transition();
        if (what == 0) {
            std::array<bool, 4> map{ v == 0, v == 1, true, false };
            if (target == 3) (void) th::setProcessAffinity(map);
            else if (target == 4) (void) th::setProcessAffinity(map, OTHER_PID);
            else on(target, [&](auto &...t) { th::setThreadAffinity(map, t...); });
            CPU_ZERO(&want[size_t(target)].cpus);
            for (size_t i = 0; i < 4; i++) if (map[i]) CPU_SET(i, &want[size_t(target)].cpus);
        } else if (what == 1) {
            auto p = v ? th::FIFO : th::ROUND_ROBIN;
            if (target == 3) th::setProcessSchedulingParameter(p, 10 + v);
            else if (target == 4) th::setProcessSchedulingParameter(p, 10 + v, OTHER_PID);
            else on(target, [&](auto &...t) { th::setThreadSchedulingParameter(p, 10 + v, t...); });
            want[size_t(target)].policy = v ? SCHED_FIFO : SCHED_RR;
            want[size_t(target)].prio   = 10 + v;
        } else {
            std::string n = v ? "second" : "the first name";
            on(target, [&](auto &...t) { th::setThreadName(n, t...); });
            want[size_t(target)].name = n;
        }
        for (int t = 0; t < 5; t++) {
            auto       &w = want[size_t(t)];
            std::string ctx = " of target " + std::to_string(t) + " after setting " + std::to_string(what) + " of target " + std::to_string(target);
            auto        aff = t == 3 ? th::getProcessAffinity() : t == 4 ? th::getProcessAffinity(OTHER_PID) : on(t, [&](auto &...x) { return th::getThreadAffinity(x...); });
            for (size_t i = 0; i < aff.size(); i++) seq::check(aff[i] == bool(CPU_ISSET(i, &w.cpus)), "affinity" + ctx);
            auto sp = t == 3 ? th::getProcessSchedulingParameter() : t == 4 ? th::getProcessSchedulingParameter(OTHER_PID) : on(t, [&](auto &...x) { return th::getThreadSchedulingParameter(x...); });
            auto wp = w.policy == SCHED_FIFO ? th::FIFO : w.policy == SCHED_RR ? th::ROUND_ROBIN : th::OTHER;
            seq::check(sp.policy == wp && sp.priority == w.prio, "scheduling parameters" + ctx);
            if (t < 3) seq::check(on(t, [&](auto &...x) { return th::getThreadName(x...); }) == w.name, "name" + ctx);
        }
    }
}
static void processNames() { // real /proc of this process only
    simulated = false;
    int         len = seq::choose(24);
    std::string full;
    for (int i = 0; i < len; i++) full += char('a' + i % 26);
    auto buf = std::make_unique<char[]>(size_t(len) + 4);
    std::copy(full.begin(), full.end(), buf.get());
    for (int i = 0; i < 4; i++) buf[size_t(len + i)] = 'Z';
    th::setProcessName("before");
    seq::transition(2);
    bool threw = failsCleanly([&] { th::setProcessName(std::string_view(buf.get(), size_t(len))); }, "setProcessName");
    auto got   = th::getProcessName();
    seq::check(threw ? got == "before" : got == full.substr(0, 15) || (len == 0 && got == "before"), "process name " + seq::quote(full) + " reads back as " + seq::quote(got));
    if (len == 0) {
        // a process whose name cannot be set (another process) and one that does not exist
        pid_t child = fork();
        if (child == 0) { for (;;) pause(); }
        std::string old = th::getProcessName(child);
        bool        t1  = failsCleanly([&] { th::setProcessName("other", child); }, "setProcessName of another process");
        std::string now = th::getProcessName(child);
        kill(child, SIGKILL);
        waitpid(child, nullptr, 0);
        seq::check(t1 || now == "other", "setProcessName reports success without effect");
        bool t2 = failsCleanly([&] { th::setProcessName("gone", child); }, "setProcessName of a dead process");
        seq::check(t2, "setProcessName of a process that does not exist succeeds");
        seq::check(th::getProcessName(child) == "unknown_process", "name of a process that does not exist");
    }
}

static int reg = [] {
    seq::add("C10_names", names);
    seq::add("C10_affinity", [] {
        int cpus = 1 + seq::choose(6);
        switch (seq::choose(4)) {
        case 0: affinityN<1>(cpus); break;
        case 1: affinityN<3>(cpus); break;
        case 2: affinityN<5>(cpus); break;
        case 3: affinityN<8>(cpus); break;
        }
    });
    seq::add("C10_affinity_large", affinityLarge);
    seq::add("C10_scheduling", scheduling);
    seq::add("C10_policies", policies);
    seq::add("C10_faults", faults);
    seq::add("C10_histories", histories);
    seq::add("C10_invalid", invalidHandles);
    seq::add("C10_process_names", processNames);
    return 0;
}();
