// sched.hpp -- runs threads one at a time and switches between them at yield
// points according to a plan drawn by the test case.  Yield points are memory
// allocation and release, read(), and mutex operations; a thread that waits
// for a mutex gives way to the others, and a thread that is stuck in something
// the scheduler does not know is set aside after a while.
#ifndef SCHED_HPP
#define SCHED_HPP

#include "pbt.hpp"
#include <atomic>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <thread>

namespace sched {

enum Status { READY, RUNNING, BLOCKED, DETACHED, DONE };
static const int MAXT = 8;
struct Plan {
    unsigned every;                              // 0: only at `at`; else switch with probability 1/every
    uint64_t seed;
    std::vector<std::pair<uint64_t, unsigned> > at;   // step -> offset of the next thread
};
struct State {
    std::atomic_flag lk;
    volatile int n, cur;
    volatile Status st[MAXT];
    void * volatile on[MAXT];
    sem_t sem[MAXT];
    volatile uint64_t step, switches, stuck;
    size_t next_at;
    uint64_t rng;
    Plan plan;
    std::atomic<bool> active;
};
inline State & S() { static State s; return s; }
static thread_local int self = -1;       // scheduled threads only
static thread_local int busy = 0;        // inside the scheduler

inline void lock() { while (S().lk.test_and_set(std::memory_order_acquire)) sched_yield(); }
inline void unlock() { S().lk.clear(std::memory_order_release); }
inline void await() { while (sem_wait(&S().sem[self]) != 0) {} }

inline int pickReady(unsigned off) {
    State & s = S();
    for (int k = 0; k < s.n; k++) {
        int t = (s.cur < 0 ? 0 : s.cur) + 1 + (int) (off % (unsigned) s.n) + k;
        t %= s.n;
        if (s.st[t] == READY && t != s.cur) return t;
    }
    return -1;
}
// with the lock held: hand over to t (>= 0)
inline void give(int t) {
    State & s = S();
    s.st[t] = RUNNING;
    s.cur = t;
    s.switches++;
    sem_post(&s.sem[t]);
}
// A detached thread comes back; with the lock held, releases it.
inline void rejoin() {
    State & s = S();
    if (s.cur < 0) { s.cur = self; s.st[self] = RUNNING; unlock(); return; }
    s.st[self] = READY;
    unlock();
    await();
}
inline void point() {
    if (self < 0 || busy) return;
    busy++;
    State & s = S();
    lock();
    if (s.st[self] == DETACHED) { rejoin(); busy--; return; }
    uint64_t step = ++s.step;
    bool sw = false;
    unsigned off = 0;
    if (s.plan.every) {
        s.rng += 0x9e3779b97f4a7c15ull;
        uint64_t r = pbt::mix(s.rng);
        sw = r % s.plan.every == 0;
        off = (unsigned) (r >> 32);
    } else
        while (s.next_at < s.plan.at.size() && s.plan.at[s.next_at].first <= step) { sw = true; off = s.plan.at[s.next_at++].second; }
    int t = sw ? pickReady(off) : -1;
    if (t < 0) { unlock(); busy--; return; }
    s.st[self] = READY;
    give(t);
    unlock();
    await();
    busy--;
}
inline void leave() {                      // this thread is done
    busy++;
    State & s = S();
    lock();
    bool mine = s.cur == self;
    s.st[self] = DONE;
    if (mine) {
        int t = pickReady(0);
        if (t >= 0) give(t); else s.cur = -1;
    }
    unlock();
    self = -1;
    busy--;
}
typedef int (*MutexFn)(pthread_mutex_t *);
inline MutexFn realLock() { static MutexFn f = (MutexFn) dlsym(RTLD_NEXT, "pthread_mutex_lock"); return f; }
inline MutexFn realUnlock() { static MutexFn f = (MutexFn) dlsym(RTLD_NEXT, "pthread_mutex_unlock"); return f; }

inline int mutexLock(pthread_mutex_t *m) {
    if (self < 0 || busy) return realLock()(m);
    point();
    busy++;
    int rc;
    State & s = S();
    while ((rc = pthread_mutex_trylock(m)) == EBUSY) {
        lock();
        if (s.st[self] == DETACHED) { rejoin(); continue; }
        s.on[self] = m;
        s.st[self] = BLOCKED;
        s.step++;
        int t = pickReady(0);
        if (t >= 0) give(t); else s.cur = -1;
        unlock();
        await();
    }
    busy--;
    return rc;
}
inline int mutexUnlock(pthread_mutex_t *m) {
    int rc = realUnlock()(m);
    if (!S().active || busy) return rc;
    busy++;
    State & s = S();
    lock();
    for (int i = 0; i < s.n; i++) if (s.st[i] == BLOCKED && s.on[i] == m) { s.st[i] = READY; s.on[i] = NULL; }
    if (s.cur < 0) { int t = pickReady(0); if (t >= 0) give(t); }
    unlock();
    busy--;
    point();
    return rc;
}

// Runs the functions as threads under the plan; returns the number of steps.
inline uint64_t run(const Plan & plan, const std::vector<std::function<void()> > & fs, uint64_t *switches = NULL, uint64_t *stuck = NULL) {
    State & s = S();
    busy++;
    realLock(); realUnlock();
    s.lk.clear();
    s.n = fs.size();
    s.cur = 0;
    s.step = s.switches = s.stuck = 0;
    s.next_at = 0;
    s.plan = plan;
    s.rng = plan.seed;
    for (int i = 0; i < s.n; i++) { s.st[i] = i ? READY : RUNNING; s.on[i] = NULL; sem_init(&s.sem[i], 0, 0); }
    s.active = true;
    std::vector<std::thread> ts;
    for (int i = 0; i < s.n; i++)
        ts.push_back(std::thread([i, &fs]() {
            busy = 1;
            self = i;
            await();
            busy = 0;
            fs[i]();
            leave();
        }));
    sem_post(&s.sem[0]);
    // the watchdog
    uint64_t last = 0;
    double since = pbt::now();
    while (1) {
        usleep(s.step < 3000 ? 300 : 2000);
        bool done = true;
        for (int i = 0; i < s.n; i++) if (s.st[i] != DONE) done = false;
        if (done) break;
        double t = pbt::now();
        if (s.step != last) { last = s.step; since = t; continue; }
        if (t - since < 0.4) continue;
        since = t;
        lock();
        if (s.step == last) {
            int c = s.cur;
            if (c >= 0) { s.st[c] = DETACHED; s.stuck++; }
            int k = pickReady(0);
            if (k < 0) for (int i = 0; i < s.n; i++) if (s.st[i] == BLOCKED) { k = i; break; }
            if (k >= 0) give(k); else s.cur = -1;
        }
        unlock();
    }
    for (auto & t : ts) t.join();
    s.active = false;
    for (int i = 0; i < s.n; i++) sem_destroy(&s.sem[i]);
    busy--;
    if (switches) *switches = s.switches;
    if (stuck) *stuck = s.stuck;
    return s.step;
}

inline Plan genPlan(pbt::Gen & g, uint64_t steps) {
    Plan p;
    p.every = 0;
    p.seed = 0;
    static const unsigned ev[] = { 1, 2, 3, 5, 10, 40, 200 };
    if (g.coin()) { p.every = ev[g.draw(7)]; p.seed = g.draw(1 << 20); }
    else {
        size_t k = 1 + g.draw(6);
        std::set<uint64_t> at;
        for (size_t i = 0; i < k; i++) at.insert(1 + g.draw(steps ? steps : 1));
        for (uint64_t a : at) p.at.push_back(std::make_pair(a, (unsigned) g.draw(MAXT)));
    }
    return p;
}
inline std::string showPlan(const Plan & p) {
    if (p.every) return pbt::fmt("switch threads with probability 1/%u (seed %llu)", p.every, (unsigned long long) p.seed);
    std::string s = "switch threads at steps";
    for (auto & a : p.at) s += pbt::fmt(" %llu(+%u)", (unsigned long long) a.first, a.second);
    return s;
}
} // namespace sched

#endif
