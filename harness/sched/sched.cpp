#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sched.hpp"
#include <atomic>
#include <bits/atomic_futex.h>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <memory>

namespace {
enum St : int { RUNNABLE, BLK_MUTEX, BLK_RW, BLK_COND, BLK_JOIN, BLK_SLEEP, BLK_FUTEX, BLK_GUARD, DONE };
constexpr uint64_t NODL = UINT64_MAX;
struct Th {
    int id{0};
    St st{RUNNABLE};
    void* obj{nullptr};
    bool rwWrite{false};
    uint64_t deadline{NODL};
    bool timedOut{false};
    bool signaled{false};
    int joinTarget{-1};
    int64_t prio{0};
    bool low{false};
    bool detached{false};
    void* (*fn)(void*){nullptr};
    void* arg{nullptr};
    pthread_t pt{};
    std::atomic<int> go{0};
    const char* name{""};
    uint64_t spin{0};
};
struct MutexSt { int owner{-1}; int count{0}; };
struct RwSt { int writer{-1}; int readers{0}; };

std::atomic<bool> g_on{false};
sched::Options g_opt;
sched::StuckHandler g_stuck{nullptr};
std::vector<Th*>* g_th{nullptr};
std::unordered_map<void*, MutexSt>* g_mx{nullptr};
std::unordered_map<void*, RwSt>* g_rw{nullptr};
std::unordered_map<unsigned long, int>* g_pt{nullptr};
thread_local Th* t_self{nullptr};
uint64_t g_steps{0}, g_switch{0}, g_now{0};
uint64_t g_rng{1};
std::vector<uint64_t>* g_change{nullptr};
int64_t g_lowprio{0};

uint64_t rnd()
{
    g_rng += 0x9E3779B97F4A7C15ULL;
    uint64_t z = g_rng;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
double rnd01() { return double(rnd() >> 11) / 9007199254740992.0; }

template<class F> F real(const char* n)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}
#define REAL(name) static auto r_##name = real<decltype(&name)>(#name)

long futex(std::atomic<int>* a, int op, int v) { return syscall(SYS_futex, a, op | FUTEX_PRIVATE_FLAG, v, nullptr, nullptr, 0); }
void park(Th* t)
{
    while (t->go.load(std::memory_order_acquire) == 0) {
        futex(&t->go, FUTEX_WAIT, 0);
    }
    t->go.store(0, std::memory_order_relaxed);
}
void wake(Th* t)
{
    t->go.store(1, std::memory_order_release);
    futex(&t->go, FUTEX_WAKE, 1);
}
bool on() { return g_on.load(std::memory_order_relaxed) && t_self != nullptr; }

const char* stName(St s)
{
    static const char* n[] = {"runnable", "mutex", "rwlock", "cond", "join", "sleep", "future", "guard", "done"};
    return n[s];
}
[[noreturn]] void stuck(const char* kind)
{
    std::string d;
    for (auto* t : *g_th) {
        if (t->st == DONE) continue;
        d += std::to_string(t->id) + ":" + t->name + ":" + stName(t->st) + " ";
    }
    g_on.store(false);
    g_stuck(kind, d);
    _exit(99);
}
// pick the next thread to run; advances virtual time if none is runnable
Th* pick(bool mustLeave)
{
    (void)mustLeave;
    for (;;) {
        static std::vector<Th*> r;
        r.clear();
        bool anyHigh = false;
        for (auto* t : *g_th) {
            if (t->st == RUNNABLE) {
                r.push_back(t);
                if (!t->low) anyHigh = true;
            }
        }
        if (!r.empty()) {
            if (anyHigh) {
                size_t k = 0;
                for (auto* t : r) if (!t->low) r[k++] = t;
                r.resize(k);
            }
            if (g_opt.policy == 1) {
                Th* b = r[0];
                for (auto* t : r) if (t->prio > b->prio) b = t;
                return b;
            }
            return r[rnd() % r.size()];
        }
        uint64_t best = NODL;
        for (auto* t : *g_th) if (t->st != DONE && t->deadline < best) best = t->deadline;
        if (best == NODL) stuck("deadlock");
        if (best > g_now) g_now = best;
        if (g_now > g_opt.maxVirtualNs) stuck("virtualtime");
        for (auto* t : *g_th) {
            if (t->st != DONE && t->deadline <= g_now) {
                t->timedOut = true;
                t->deadline = NODL;
                t->st = RUNNABLE;
            }
        }
    }
}
void switchTo(Th* n)
{
    Th* me = t_self;
    if (n == me) return;
    ++g_switch;
    wake(n);
    park(me);
}
void step()
{
    if (++g_steps > g_opt.maxSteps) stuck("steps");
    // strict priorities are unfair: start over with new ones now and then, so that nobody starves
    if (g_opt.policy == 1 && g_steps % 4000 == 0)
        for (auto* t : *g_th) t->prio = 1000 + (int64_t)(rnd() % 1000000);
}
// scheduling point with the current thread runnable
void maybeSwitch()
{
    step();
    Th* me = t_self;
    if (g_opt.policy == 0) {
        if (rnd01() >= g_opt.pswitch) return;
    } else if (g_opt.policy == 1) {
        for (auto& c : *g_change) {
            if (c == g_steps) { me->prio = --g_lowprio; }
        }
    } else {
        return;
    }
    switchTo(pick(false));
}
// the current thread was marked blocked: run someone else, come back when woken
void block()
{
    step();
    Th* n = pick(true);
    if (n != t_self) switchTo(n);
}
void yieldSelf()
{
    step();
    Th* me = t_self;
    if (g_opt.policy == 1) me->prio = --g_lowprio;
    // prefer anybody else; if all other threads are blocked time may have to move
    ++me->spin;
    bool other = false;
    for (auto* t : *g_th) if (t != me && t->st == RUNNABLE) other = true;
    if (!other && me->spin > 50) {
        // spinning with nobody to help: let virtual time pass
        me->spin = 0;
        uint64_t best = NODL;
        for (auto* t : *g_th) if (t->st != DONE && t->deadline < best) best = t->deadline;
        if (best == NODL) { g_now += 1000000; if (g_now > g_opt.maxVirtualNs) stuck("virtualtime"); return; }
        me->st = BLK_SLEEP; me->deadline = best; block(); return;
    }
    if (other) {
        bool l = me->low;
        me->low = true;
        Th* n = pick(false);
        me->low = l;
        switchTo(n);
    }
}
uint64_t toNs(const timespec* ts) { return uint64_t(ts->tv_sec) * 1000000000ULL + uint64_t(ts->tv_nsec); }
// virtual clock bases
constexpr uint64_t MONO_BASE = 1000000ULL * 1000000000ULL;
constexpr uint64_t REAL_BASE = 1760000000ULL * 1000000000ULL;
uint64_t deadlineOf(clockid_t c, const timespec* ts)
{
    uint64_t a = toNs(ts);
    uint64_t b = (c == CLOCK_REALTIME) ? REAL_BASE : MONO_BASE;
    return a > b ? a - b : 0;
}
void wakeMutexWaiters(void* m)
{
    for (auto* t : *g_th) if (t->st == BLK_MUTEX && t->obj == m) { t->st = RUNNABLE; t->deadline = NODL; }
}
void wakeRwWaiters(void* m)
{
    for (auto* t : *g_th) if (t->st == BLK_RW && t->obj == m) { t->st = RUNNABLE; t->deadline = NODL; }
}
int kindOf(pthread_mutex_t* m) { return m->__data.__kind & 3; }
bool tryMx(pthread_mutex_t* m)
{
    auto& s = (*g_mx)[m];
    if (s.owner == -1) { s.owner = t_self->id; s.count = 1; return true; }
    if (s.owner == t_self->id && kindOf(m) == PTHREAD_MUTEX_RECURSIVE) { ++s.count; return true; }
    return false;
}
int lockMx(pthread_mutex_t* m, uint64_t dl)
{
    for (;;) {
        if (tryMx(m)) return 0;
        if (dl <= g_now) return ETIMEDOUT;
        Th* me = t_self;
        me->st = BLK_MUTEX; me->obj = m; me->deadline = dl; me->timedOut = false;
        block();
        if (me->timedOut) { me->timedOut = false; return tryMx(m) ? 0 : ETIMEDOUT; }
    }
}
void unlockMx(pthread_mutex_t* m)
{
    auto it = g_mx->find(m);
    if (it == g_mx->end()) return;
    if (--it->second.count > 0) return;
    g_mx->erase(it);
    wakeMutexWaiters(m);
}
int waitCond(pthread_cond_t* c, pthread_mutex_t* m, uint64_t dl)
{
    Th* me = t_self;
    int saved = 1;
    auto it = g_mx->find(m);
    if (it != g_mx->end()) { saved = it->second.count; g_mx->erase(it); wakeMutexWaiters(m); }
    me->st = BLK_COND; me->obj = c; me->deadline = dl; me->timedOut = false; me->signaled = false;
    block();
    bool to = me->timedOut && !me->signaled;
    me->timedOut = false;
    me->deadline = NODL;
    lockMx(m, NODL);
    (*g_mx)[m].count = saved;
    return to ? ETIMEDOUT : 0;
}
void notify(pthread_cond_t* c, bool all)
{
    static std::vector<Th*> w;
    w.clear();
    for (auto* t : *g_th) if (t->st == BLK_COND && t->obj == c) w.push_back(t);
    if (w.empty()) return;
    if (!all) { Th* t = w[rnd() % w.size()]; w.clear(); w.push_back(t); }
    for (auto* t : w) { t->st = RUNNABLE; t->signaled = true; t->deadline = NODL; }
}
void finish(Th* me)
{
    me->st = DONE;
    for (auto* t : *g_th) if (t->st == BLK_JOIN && t->joinTarget == me->id) { t->st = RUNNABLE; t->deadline = NODL; }
    bool any = false;
    for (auto* t : *g_th) if (t->st != DONE) any = true;
    if (!any) return;
    Th* n = pick(true);
    ++g_switch;
    t_self = nullptr;  // what runs after this point (thread-exit work) is outside the model
    wake(n);
}
void* trampoline(void* p)
{
    Th* me = static_cast<Th*>(p);
    t_self = me;
    park(me);
    void* r = me->fn(me->arg);
    finish(me);
    return r;
}
}  // namespace

namespace sched {
void start(const Options& o, StuckHandler h)
{
    g_opt = o;
    g_stuck = h;
    g_rng = o.seed * 0x2545F4914F6CDD1DULL + 12345;
    g_th = new std::vector<Th*>;
    g_mx = new std::unordered_map<void*, MutexSt>;
    g_rw = new std::unordered_map<void*, RwSt>;
    g_pt = new std::unordered_map<unsigned long, int>;
    g_change = new std::vector<uint64_t>;
    for (int i = 0; i < o.changes; ++i) g_change->push_back(1 + rnd() % o.horizon);
    auto* t = new Th;
    t->id = 0;
    t->name = "main";
    t->prio = 1000 + int64_t(rnd() % 1000000);
    t->pt = pthread_self();
    g_th->push_back(t);
    (*g_pt)[(unsigned long)t->pt] = 0;
    t_self = t;
    g_on.store(true);
}
void stop() { g_on.store(false); }
bool active() { return on(); }
uint64_t steps() { return g_steps; }
uint64_t switches() { return g_switch; }
int self() { return t_self ? t_self->id : -1; }
int liveThreads()
{
    int n = 0;
    for (auto* t : *g_th) if (t->st != DONE) ++n;
    return n;
}
uint64_t virtualNow() { return g_now; }
void nameSelf(const char* n) { if (t_self) t_self->name = strdup(n); }
void point() { if (on()) maybeSwitch(); }
void deprioritise(bool v) { if (t_self) t_self->low = v; }
}  // namespace sched

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m)
{
    REAL(pthread_mutex_lock);
    if (!on()) return r_pthread_mutex_lock(m);
    maybeSwitch();
    if (kindOf(m) == PTHREAD_MUTEX_ERRORCHECK) { auto it = g_mx->find(m); if (it != g_mx->end() && it->second.owner == t_self->id) return EDEADLK; }
    return lockMx(m, NODL);
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    REAL(pthread_mutex_trylock);
    if (!on()) return r_pthread_mutex_trylock(m);
    maybeSwitch();
    return tryMx(m) ? 0 : EBUSY;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts)
{
    REAL(pthread_mutex_timedlock);
    if (!on()) return r_pthread_mutex_timedlock(m, ts);
    maybeSwitch();
    return lockMx(m, deadlineOf(CLOCK_REALTIME, ts));
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* ts)
{
    REAL(pthread_mutex_clocklock);
    if (!on()) return r_pthread_mutex_clocklock(m, c, ts);
    maybeSwitch();
    return lockMx(m, deadlineOf(c, ts));
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    REAL(pthread_mutex_unlock);
    if (!on()) return r_pthread_mutex_unlock(m);
    unlockMx(m);
    maybeSwitch();
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    REAL(pthread_mutex_destroy);
    if (!on()) return r_pthread_mutex_destroy(m);
    g_mx->erase(m);
    return 0;
}
static bool tryRd(pthread_rwlock_t* l)
{
    auto& s = (*g_rw)[l];
    if (s.writer != -1) return false;
    ++s.readers;
    return true;
}
static bool tryWr(pthread_rwlock_t* l)
{
    auto& s = (*g_rw)[l];
    if (s.writer != -1 || s.readers > 0) return false;
    s.writer = t_self->id;
    return true;
}
static int lockRw(pthread_rwlock_t* l, bool w, uint64_t dl)
{
    for (;;) {
        if (w ? tryWr(l) : tryRd(l)) return 0;
        if (dl <= g_now) return ETIMEDOUT;
        Th* me = t_self;
        me->st = BLK_RW; me->obj = l; me->deadline = dl; me->timedOut = false;
        block();
        if (me->timedOut) { me->timedOut = false; return (w ? tryWr(l) : tryRd(l)) ? 0 : ETIMEDOUT; }
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
    REAL(pthread_rwlock_rdlock);
    if (!on()) return r_pthread_rwlock_rdlock(l);
    maybeSwitch();
    return lockRw(l, false, NODL);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
    REAL(pthread_rwlock_wrlock);
    if (!on()) return r_pthread_rwlock_wrlock(l);
    maybeSwitch();
    return lockRw(l, true, NODL);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
{
    REAL(pthread_rwlock_tryrdlock);
    if (!on()) return r_pthread_rwlock_tryrdlock(l);
    maybeSwitch();
    return tryRd(l) ? 0 : EBUSY;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l)
{
    REAL(pthread_rwlock_trywrlock);
    if (!on()) return r_pthread_rwlock_trywrlock(l);
    maybeSwitch();
    return tryWr(l) ? 0 : EBUSY;
}
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const timespec* ts)
{
    REAL(pthread_rwlock_timedrdlock);
    if (!on()) return r_pthread_rwlock_timedrdlock(l, ts);
    return lockRw(l, false, deadlineOf(CLOCK_REALTIME, ts));
}
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const timespec* ts)
{
    REAL(pthread_rwlock_timedwrlock);
    if (!on()) return r_pthread_rwlock_timedwrlock(l, ts);
    return lockRw(l, true, deadlineOf(CLOCK_REALTIME, ts));
}
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, const timespec* ts)
{
    REAL(pthread_rwlock_clockrdlock);
    if (!on()) return r_pthread_rwlock_clockrdlock(l, c, ts);
    return lockRw(l, false, deadlineOf(c, ts));
}
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, const timespec* ts)
{
    REAL(pthread_rwlock_clockwrlock);
    if (!on()) return r_pthread_rwlock_clockwrlock(l, c, ts);
    return lockRw(l, true, deadlineOf(c, ts));
}
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    REAL(pthread_rwlock_unlock);
    if (!on()) return r_pthread_rwlock_unlock(l);
    auto it = g_rw->find(l);
    if (it != g_rw->end()) {
        if (it->second.writer == t_self->id) it->second.writer = -1;
        else if (it->second.readers > 0) --it->second.readers;
        if (it->second.writer == -1 && it->second.readers == 0) g_rw->erase(it);
        wakeRwWaiters(l);
    }
    maybeSwitch();
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t* l)
{
    REAL(pthread_rwlock_destroy);
    if (!on()) return r_pthread_rwlock_destroy(l);
    g_rw->erase(l);
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    REAL(pthread_cond_wait);
    if (!on()) return r_pthread_cond_wait(c, m);
    return waitCond(c, m, NODL);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts)
{
    REAL(pthread_cond_timedwait);
    if (!on()) return r_pthread_cond_timedwait(c, m, ts);
    return waitCond(c, m, deadlineOf(CLOCK_REALTIME, ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts)
{
    REAL(pthread_cond_clockwait);
    if (!on()) return r_pthread_cond_clockwait(c, m, k, ts);
    return waitCond(c, m, deadlineOf(k, ts));
}
int pthread_cond_signal(pthread_cond_t* c)
{
    REAL(pthread_cond_signal);
    if (!on()) return r_pthread_cond_signal(c);
    notify(c, false);
    maybeSwitch();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    REAL(pthread_cond_broadcast);
    if (!on()) return r_pthread_cond_broadcast(c);
    notify(c, true);
    maybeSwitch();
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c)
{
    REAL(pthread_cond_destroy);
    if (!on()) return r_pthread_cond_destroy(c);
    return 0;
}
int pthread_create(pthread_t* pt, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
    REAL(pthread_create);
    if (!on()) return r_pthread_create(pt, a, fn, arg);
    auto* t = new Th;
    t->id = int(g_th->size());
    t->fn = fn;
    t->arg = arg;
    t->prio = 1000 + int64_t(rnd() % 1000000);
    t->name = "lib";
    g_th->push_back(t);
    int rc = r_pthread_create(pt, a, trampoline, t);
    if (rc != 0) { t->st = DONE; return rc; }
    t->pt = *pt;
    (*g_pt)[(unsigned long)*pt] = t->id;
    maybeSwitch();
    return 0;
}
int pthread_join(pthread_t pt, void** ret)
{
    REAL(pthread_join);
    if (!on()) return r_pthread_join(pt, ret);
    auto it = g_pt->find((unsigned long)pt);
    if (it != g_pt->end()) {
        Th* t = (*g_th)[it->second];
        maybeSwitch();
        while (t->st != DONE) {
            Th* me = t_self;
            me->st = BLK_JOIN; me->joinTarget = t->id; me->deadline = NODL;
            block();
        }
        g_pt->erase((unsigned long)pt);
    }
    return r_pthread_join(pt, ret);
}
int pthread_detach(pthread_t pt)
{
    REAL(pthread_detach);
    return r_pthread_detach(pt);
}
int sched_yield(void)
{
    REAL(sched_yield);
    if (!on()) return r_sched_yield();
    yieldSelf();
    return 0;
}
static void sleepNs(uint64_t ns)
{
    Th* me = t_self;
    me->st = BLK_SLEEP;
    me->deadline = g_now + ns + 1;
    me->timedOut = false;
    block();
    me->timedOut = false;
}
int nanosleep(const timespec* a, timespec* rem)
{
    REAL(nanosleep);
    if (!on()) return r_nanosleep(a, rem);
    sleepNs(toNs(a));
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const timespec* a, timespec* rem)
{
    REAL(clock_nanosleep);
    if (!on()) return r_clock_nanosleep(c, flags, a, rem);
    if (flags & TIMER_ABSTIME) { uint64_t d = deadlineOf(c, a); sleepNs(d > g_now ? d - g_now : 0); }
    else sleepNs(toNs(a));
    return 0;
}
int usleep(useconds_t us)
{
    REAL(usleep);
    if (!on()) return r_usleep(us);
    sleepNs(uint64_t(us) * 1000);
    return 0;
}
int clock_gettime(clockid_t c, timespec* ts)
{
    REAL(clock_gettime);
    if (!on()) return r_clock_gettime ? r_clock_gettime(c, ts) : int(syscall(SYS_clock_gettime, c, ts));
    g_now += 200;
    uint64_t v = g_now + ((c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? REAL_BASE : MONO_BASE);
    ts->tv_sec = time_t(v / 1000000000ULL);
    ts->tv_nsec = long(v % 1000000000ULL);
    return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)(void))
{
    REAL(pthread_once);
    if (!on()) return r_pthread_once(o, fn);
    // 0 = new, 1 = running, 2 = done (glibc uses 2 for done as well)
    int* v = reinterpret_cast<int*>(o);
    for (;;) {
        if (*v == 2) return 0;
        if ((*v & 1) == 0) break;
        Th* me = t_self;
        me->st = BLK_GUARD; me->obj = o; me->deadline = NODL;
        block();
    }
    *v = 1;
    struct G {
        int* v; void* o; bool ok{false};
        ~G() { *v = ok ? 2 : 0; for (auto* t : *g_th) if (t->st == BLK_GUARD && t->obj == o) t->st = RUNNABLE; }
    } g{v, o};
    fn();
    g.ok = true;
    return 0;
}
// local static initialisation
int __cxa_guard_acquire(long long* g)
{
    auto* b = reinterpret_cast<volatile char*>(g);
    for (;;) {
        if (b[0] != 0) return 0;
        if (b[1] == 0) { b[1] = 1; return 1; }
        if (on()) {
            Th* me = t_self;
            me->st = BLK_GUARD; me->obj = (void*)g; me->deadline = NODL;
            block();
        } else {
            syscall(SYS_sched_yield);
        }
    }
}
static void guardWake(long long* g)
{
    if (on()) for (auto* t : *g_th) if (t->st == BLK_GUARD && t->obj == (void*)g) t->st = RUNNABLE;
}
void __cxa_guard_release(long long* g)
{
    auto* b = reinterpret_cast<volatile char*>(g);
    b[0] = 1;
    b[1] = 0;
    guardWake(g);
}
void __cxa_guard_abort(long long* g)
{
    auto* b = reinterpret_cast<volatile char*>(g);
    b[1] = 0;
    guardWake(g);
}
}

namespace std {
static bool futexWait(unsigned* a, unsigned val, bool hasTo, uint64_t dl)
{
    Th* me = t_self;
    maybeSwitch();
    if (__atomic_load_n(a, __ATOMIC_ACQUIRE) != val) return true;
    me->st = BLK_FUTEX; me->obj = a; me->deadline = hasTo ? dl : NODL; me->timedOut = false;
    block();
    bool to = me->timedOut;
    me->timedOut = false;
    return !(hasTo && to);
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned val, bool hasTo, chrono::seconds s, chrono::nanoseconds ns)
{
    timespec ts{time_t(s.count()), long(ns.count())};
    if (on()) return futexWait(a, val, hasTo, hasTo ? deadlineOf(CLOCK_REALTIME, &ts) : NODL);
    syscall(SYS_futex, a, FUTEX_WAIT_BITSET | FUTEX_CLOCK_REALTIME, val, hasTo ? &ts : nullptr, nullptr, -1);
    return !(hasTo && errno == ETIMEDOUT);
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned val, bool hasTo, chrono::seconds s, chrono::nanoseconds ns)
{
    timespec ts{time_t(s.count()), long(ns.count())};
    if (on()) return futexWait(a, val, hasTo, hasTo ? deadlineOf(CLOCK_MONOTONIC, &ts) : NODL);
    syscall(SYS_futex, a, FUTEX_WAIT_BITSET, val, hasTo ? &ts : nullptr, nullptr, -1);
    return !(hasTo && errno == ETIMEDOUT);
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a)
{
    if (on()) {
        for (auto* t : *g_th) if (t->st == BLK_FUTEX && t->obj == a) { t->st = RUNNABLE; t->deadline = NODL; }
        maybeSwitch();
        return;
    }
    syscall(SYS_futex, a, FUTEX_WAKE, INT_MAX);
}
}  // namespace std
