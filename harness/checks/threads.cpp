// C36 threads, locks, conditions and asynchronous tasks.
//
// The library's calls of the pthread functions are linked (-Wl,--wrap) to the
// functions below.  In model mode they are carried out by a scheduler that
// lets one thread run at a time and draws every scheduling decision (whom to
// run, whom to wake, spurious wakeups, when a timeout falls) from the case's
// choices, so that a failing schedule is replayed and shrunk like any other
// input, and a deadlock is seen at once.  In real mode they are the real
// ones with random delays around them (and under ThreadSanitizer).
#include "pbt.hpp"
#include <atomic>
#include <csetjmp>
#include <deque>
#include <map>
#include <memory>
#include <semaphore.h>
#include <sched.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>
#include "thread/Thread.h"
#include "thread/AsynchronousTask.h"
using namespace pbt;

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define IS_TSAN 1
#endif
#endif
#ifndef IS_TSAN
#define IS_TSAN 0
#endif

extern "C" {
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); int __real_pthread_join(pthread_t, void **);
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *); int __real_pthread_mutex_destroy(pthread_mutex_t *); int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *); int __real_pthread_cond_destroy(pthread_cond_t *); int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *); int __real_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *); int __real_pthread_cond_signal(pthread_cond_t *); int __real_pthread_cond_broadcast(pthread_cond_t *);
int __real_gettimeofday(struct timeval *, void *); int __real_clock_gettime(clockid_t, struct timespec *);
}

enum Mode { Off, Model, Real };
static Mode mode = Off;
static char err[600]; static std::atomic<int> failed(0);

namespace model {
enum St { Run, Block, CondWait, Join, Done };
struct Th { sem_t sem; St st = Run; void *obj = nullptr, *mtx = nullptr; bool timed = false; int why = 0, target = -1; pthread_t id{}; void *(*fn)(void *) = nullptr; void *arg = nullptr; int prio = 0, index = 0; };
static std::vector<Th *> th; static thread_local int me = 0; static std::map<void *, int> owner; static Src *src; static sigjmp_buf jb; static long steps, timeouts, spurious, maxSwitches; static int policy; static std::vector<long> change; static int lowest;
static int hintUs = -1; static bool clockRead; static long vsec, vusec; static int signalled, timedWaits;
static void draws(uint64_t &v, uint64_t n) { v = *src->nrec < MAX_CHOICES - 8 ? src->draw(n) : 0; }
static uint64_t pick(uint64_t n) { if (n < 2) return 0; uint64_t v; draws(v, n); return v; }
[[noreturn]] static void stop() { if (me == 0) siglongjmp(jb, 1); sem_post(&th[0]->sem); for (;;) pause(); }
[[noreturn]] static void oops(const char *fmt, ...) { if (!failed.exchange(1)) { va_list ap; va_start(ap, fmt); vsnprintf(err, sizeof err, fmt, ap); va_end(ap); } stop(); }
static bool isFree(void *m) { auto i = owner.find(m); return i == owner.end() || i->second < 0; }
static bool runnable(int i) { Th &t = *th[i]; return t.st == Run || (t.st == Block && isFree(t.obj)) || (t.st == Join && th[t.target]->st == Done); }
// let the scheduler choose who runs next; returns when this thread is chosen again
static void reschedule() {
    if (++steps > 60000) oops("no progress after %ld scheduling steps", steps);
    int next = -1;
    for (;;) {
        std::vector<int> c, w; if (runnable(me)) c.push_back(me); for (int i = 0; i < int(th.size()); ++i) if (i != me && runnable(i)) c.push_back(i);
        bool live = !c.empty();
        for (int i = 0; i < int(th.size()); ++i) if (th[i]->st == CondWait && ((th[i]->timed && (timeouts < 12 || !live)) || (live && spurious > 0))) w.push_back(i);
        if (!live && w.empty()) { std::string d; for (size_t i = 0; i < th.size(); ++i) { static const char *nm[] = {"runnable", "waiting for a lock", "waiting for a signal", "waiting for a thread to end", "ended"}; char b[80]; snprintf(b, sizeof b, " thread %zu %s,", i, nm[th[i]->st]); d += b; } d.resize(d.size() - 1); oops("deadlock:%s", d.c_str()); }
        if (!live && timeouts > 400) oops("deadlock: every thread waits for signals that no other thread sends; only timeouts occur");
        bool wake = false; if (!w.empty()) wake = live ? pick(6) == 5 : true;
        if (wake) { int i = w[pick(w.size())]; Th &t = *th[i]; bool to = t.timed && (!live || spurious <= 0 || (timeouts < 12 && pick(2) == 0)); if (to) { ++timeouts; t.why = ETIMEDOUT; } else { --spurious; t.why = 0; } t.st = Block; t.obj = t.mtx; continue; }
        if (policy == 2) { for (long s : change) if (s == steps && runnable(me)) th[me]->prio = --lowest; next = c[0]; for (int i : c) if (th[i]->prio > th[next]->prio) next = i; }
        else if (policy == 1) next = c[pick(c.size())];
        else next = (c.size() > 1 && (c[0] != me || pick(8) == 7)) ? c[(c[0] == me) + pick(c.size() - (c[0] == me))] : c[0];
        break;
    }
    if (next == me) { th[me]->st = Run; return; }
    bool mine = th[me]->st != Done; Th *self = th[me]; th[next]->st = Run; sem_post(&th[next]->sem); if (!mine) return;
    while (sem_wait(&self->sem)) { } if (failed) stop();
}
static void point() { reschedule(); }
static void acquire(void *m) { while (!isFree(m)) { th[me]->st = Block; th[me]->obj = m; reschedule(); } owner[m] = me; }
static void *trampoline(void *p) { Th *t = (Th *)p; me = t->index; while (sem_wait(&t->sem)) { } if (failed) stop(); t->fn(t->arg); t->st = Done; reschedule(); return nullptr; }
static int create(pthread_t *id, void *(*fn)(void *), void *arg) { Th *t = new Th; sem_init(&t->sem, 0, 0); t->fn = fn; t->arg = arg; t->prio = policy == 2 ? 1 + int(pick(1000)) : 0; t->index = int(th.size()); th.push_back(t); int r = __real_pthread_create(id, nullptr, trampoline, t); if (r) oops("cannot create a thread"); t->id = *id; point(); return 0; }
static int join(pthread_t id) { int k = -1; for (int i = 0; i < int(th.size()); ++i) if (i && th[i]->id == id && th[i]->target != -2) k = i; if (k < 0) oops("joining a thread that does not exist or was joined before"); point(); while (th[k]->st != Done) { th[me]->st = Join; th[me]->target = k; reschedule(); } th[k]->target = -2; th[k]->id = pthread_t(); return __real_pthread_join(id, nullptr); }
static int condWait(void *c, void *m, bool timed) { if (isFree(m) || owner[m] != me) oops("waiting on a condition whose lock the thread does not hold"); point(); owner[m] = -1; Th &t = *th[me]; t.st = CondWait; t.obj = c; t.mtx = m; t.timed = timed; t.why = 0; reschedule(); acquire(m); return th[me]->why; }
static int signal(void *c, bool all) { point(); std::vector<int> w; for (int i = 0; i < int(th.size()); ++i) if (th[i]->st == CondWait && th[i]->obj == c) w.push_back(i); ++signalled; if (all) for (int i : w) { th[i]->st = Block; th[i]->obj = th[i]->mtx; } else if (!w.empty()) { int i = w[pick(w.size())]; th[i]->st = Block; th[i]->obj = th[i]->mtx; } point(); return 0; }
static void now() { clockRead = true; vsec = 1000000000L; uint64_t k = pick(4); if (k == 0 && hintUs > 0) vusec = (1000000 - hintUs % 1000000) % 1000000; else if (k == 1) vusec = 999999; else if (k == 2) vusec = 0; else vusec = long(pick(1000000)); }
static int timedWait(void *c, void *m, const struct timespec *ts) {
    ++timedWaits;
    if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000L) return EINVAL;      // as the real one does
    if (hintUs > 0 && clockRead) { long long want = (vsec * 1000000LL + vusec + hintUs) * 1000, got = ts->tv_sec * 1000000000LL + ts->tv_nsec; if (want != got) oops("a wait of %d us starting at %ld.%06ld ends at %ld.%09ld", hintUs, vsec, vusec, long(ts->tv_sec), ts->tv_nsec); }
    return condWait(c, m, true);
}
}

// real mode: random delays
static thread_local uint64_t jseed = 0; static std::atomic<uint64_t> jbase(1); static int jstyle;
static bool realSpurious = true;
static uint64_t jr() { if (!jseed) jseed = mix(jbase.fetch_add(0x9e3779b97f4a7c15ULL, std::memory_order_relaxed)) | 1; jseed = mix(jseed) | 1; return jseed >> 8; }
static void jitter() { if (jstyle == 0) return; uint64_t r = jr() % 64; if (r < 6) sched_yield(); else if (r < 8) usleep(jr() % (jstyle == 2 ? 300 : 30)); }
static void pt() { if (mode == Model) model::point(); else jitter(); }
[[gnu::format(printf, 2, 3)]] static void check(bool ok, const char *fmt, ...) { if (ok || failed) return; char b[500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); if (mode == Model) model::oops("%s", b); if (!failed.exchange(1)) memcpy(err, b, sizeof b); }

extern "C" {
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) { if (mode == Model) return model::create(t, f, x); jitter(); int r = __real_pthread_create(t, a, f, x); jitter(); return r; }
int __wrap_pthread_join(pthread_t t, void **r) { if (mode == Model) { if (r) *r = nullptr; return model::join(t); } jitter(); return __real_pthread_join(t, r); }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { if (mode == Model) model::owner[m] = -1; return __real_pthread_mutex_init(m, a); }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { if (mode == Model) { if (!model::isFree(m)) model::oops("destroying a mutex that is locked"); model::owner.erase(m); } return __real_pthread_mutex_destroy(m); }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (mode == Model) { model::point(); model::acquire(m); return 0; } jitter(); int r = __real_pthread_mutex_lock(m); jitter(); return r; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (mode == Model) { model::point(); if (!model::isFree(m)) return EBUSY; model::owner[m] = model::me; return 0; } jitter(); return __real_pthread_mutex_trylock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (mode == Model) { if (model::isFree(m)) model::oops("unlocking a mutex that is not locked"); if (model::owner[m] != model::me) model::oops("unlocking a mutex that another thread holds"); model::owner[m] = -1; model::point(); return 0; } jitter(); int r = __real_pthread_mutex_unlock(m); jitter(); return r; }
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { return __real_pthread_cond_init(c, a); }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { if (mode == Model) for (auto *t : model::th) if (t->st == model::CondWait && t->obj == c) model::oops("destroying a condition on which a thread is waiting"); return __real_pthread_cond_destroy(c); }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (mode == Model) return model::condWait(c, m, false); jitter(); if (mode == Real && realSpurious && jr() % 4 == 0) { struct timespec ts; __real_clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += 20000; if (ts.tv_nsec >= 1000000000L) { ts.tv_nsec -= 1000000000L; ++ts.tv_sec; } __real_pthread_cond_timedwait(c, m, &ts); return 0; } return __real_pthread_cond_wait(c, m); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { if (mode == Model) return model::timedWait(c, m, t); jitter(); return __real_pthread_cond_timedwait(c, m, t); }
int __wrap_pthread_cond_signal(pthread_cond_t *c) { if (mode == Model) return model::signal(c, false); jitter(); int r = __real_pthread_cond_signal(c); jitter(); return r; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { if (mode == Model) return model::signal(c, true); jitter(); int r = __real_pthread_cond_broadcast(c); jitter(); return r; }
int __wrap_gettimeofday(struct timeval *tv, void *tz) { if (mode == Model) { model::now(); tv->tv_sec = model::vsec; tv->tv_usec = model::vusec; return 0; } return __real_gettimeofday(tv, tz); }
int __wrap_clock_gettime(clockid_t k, struct timespec *ts) { if (mode == Model) { model::now(); ts->tv_sec = model::vsec; ts->tv_nsec = model::vusec * 1000; return 0; } return __real_clock_gettime(k, ts); }
}

// run a program under the model scheduler or on real threads
template <typename P> static void inMode(Src &s, bool real, P &prog) {
    failed = 0; err[0] = 0;
    if (real) { jstyle = s.i(0, 2); jbase = mix(s.seed()) | 1; jseed = 0; mode = Real; prog.main(); mode = Off; if (failed) fail("%s (on real threads)", err); return; }
    using namespace model; src = &s; steps = timeouts = 0; hintUs = -1; clockRead = false; signalled = timedWaits = 0; lowest = 0; policy = s.i(0, 2); spurious = s.pick<int>({0, 1, 3, 10}); change.clear(); if (policy == 2) for (int d = s.i(0, 4); d > 0; --d) change.push_back(s.i(1, s.pick<int>({30, 300}))); owner.clear(); me = 0; th.clear(); Th *t = new Th; sem_init(&t->sem, 0, 0); t->prio = policy == 2 ? s.i(1, 1000) : 0; th.push_back(t);
    s.note("policy %d, up to %ld spurious wakeups", policy, spurious);
    if (sigsetjmp(jb, 0) == 0) { mode = Model; prog.main(); mode = Off; } else { mode = Off; fail("%s (after %ld scheduling steps)", err, steps); }
    for (auto *q : th) { sem_destroy(&q->sem); delete q; } th.clear(); th.shrink_to_fit(); owner.clear(); change.clear();
    if (failed) fail("%s", err);
}
struct Fn : Thread { std::function<void()> f; pthread_t ran{}; explicit Fn(std::function<void()> g) : f(g) { } void run() { ran = pthread_self(); f(); } };

// ---- mutual exclusion, trylock, nesting, lockers
struct MutexProg {
    struct Op { int kind, m, m2, len; }; std::vector<std::vector<Op>> ops; int nM; bool misuse; std::vector<Mutex *> mx; std::vector<int> holder, count, held; std::vector<std::vector<int>> got;
    MutexProg(Src &s, bool real) { int nT = s.i(2, real ? 6 : 4); nM = s.i(1, 3); ops.resize(nT); for (auto &o : ops) { o.resize(s.i(1, real ? 30 : 6)); for (auto &q : o) { q.kind = s.i(0, 3); q.m = s.i(0, nM - 1); q.m2 = s.i(0, nM - 1); q.len = s.i(0, 2); } } misuse = s.chance(3); s.note("%d threads, %d mutexes%s", nT, nM, misuse ? ", unlocks by threads that hold nothing" : ""); holder.assign(nM, -1); count.assign(nM, 0); held.assign(nM, 0); got.assign(nT, std::vector<int>(nM, 0)); }
    void section(int t, int m, int len) { check(holder[m] == -1, "two threads hold a mutex"); holder[m] = t; int c = count[m]; for (int i = 0; i < len; ++i) { pt(); check(holder[m] == t, "a second thread entered a locked section"); } count[m] = c + 1; ++got[t][m]; holder[m] = -1; }
    void body(int t) { for (auto &o : ops[t]) switch (o.kind) {
        case 0: mx[o.m]->lock(); held[o.m] = 1; section(t, o.m, o.len); held[o.m] = 0; mx[o.m]->unlock(); break;
        case 1: { MutexLocker l(mx[o.m]); MutexLocker none(0); held[o.m] = 1; section(t, o.m, o.len); held[o.m] = 0; break; }
        case 2: if (mx[o.m]->trylock()) { held[o.m] = 1; section(t, o.m, o.len); held[o.m] = 0; mx[o.m]->unlock(); } else if (mode == Model) check(held[o.m], "trying a free mutex failed"); break;
        default: { int a = std::min(o.m, o.m2), b = std::max(o.m, o.m2); mx[a]->lock(); held[a] = 1; if (a != b) { MutexLocker l(mx[b]); held[b] = 1; section(t, a, o.len); section(t, b, o.len); held[b] = 0; } else section(t, a, o.len); held[a] = 0; mx[a]->unlock(); } } }
    void main() {
        for (int i = 0; i < nM; ++i) mx.push_back(new Mutex);
        // a held mutex cannot be had by another thread, a free one can
        int r = -1; Mutex *m = mx[0]; Fn *f = new Fn([&]() { r = m->trylock(); if (r) m->unlock(); }); m->lock(); f->start(); f->wait(); check(r == 0, "another thread's attempt on a held mutex succeeded"); m->unlock(); f->start(); f->wait(); check(r == 1, "an attempt on a free mutex failed"); delete f;
        // nobody can release what another thread holds, nor what is not held
        if (misuse) { std::cerr.setstate(std::ios::failbit); m->unlock(); m->lock(); Fn *g = new Fn([&]() { m->unlock(); r = m->trylock(); }); r = -1; g->start(); g->wait(); delete g; std::cerr.clear(); check(r == 0, "a thread released a mutex that another one holds"); m->unlock(); }
        std::vector<Fn *> th; for (int t = 0; t < int(ops.size()); ++t) { th.push_back(new Fn([this, t]() { body(t); })); th.back()->start(); } for (auto *t : th) { t->wait(); delete t; }
        for (int i = 0; i < nM; ++i) { int w = 0; for (auto &g : got) w += g[i]; check(count[i] == w, "%d increments under a mutex left %d", w, count[i]); bool ok = mx[i]->trylock(); check(ok, "a mutex is still held after everyone released it"); mx[i]->unlock(); delete mx[i]; } mx.clear();
    }
};
// ---- producers and consumers over one condition
struct QueueProg {
    int nP, nC, per, us; bool after; Condition *c = nullptr; std::deque<int> q; int holder = -1; std::vector<int> quota; std::vector<int> taken;
    QueueProg(Src &s, bool real) { nP = s.i(1, 3); nC = s.i(1, 3); per = s.i(1, real ? 20 : 4); us = s.b() ? 0 : s.pick<int>({1000, 1, 250000, 999999, 1000000, 1000001, 2500000}); if (real && us > 1000) us = 700; after = s.chance(4); s.note("%d producers of %d items, %d consumers, wait(%d)%s", nP, per, nC, us, after ? ", signal after unlock" : ""); quota.assign(nC, 0); for (int i = 0; i < nP * per; ++i) ++quota[i % nC]; taken.assign(nP * per, 0); }
    void main() {
        c = new Condition("test"); std::vector<Fn *> th; if (mode == Model && us) model::hintUs = us;
        for (int k = 0; k < nC; ++k) th.push_back(new Fn([this, k]() { for (int n = 0; n < quota[k]; ++n) { c->lock(); check(holder == -1, "two threads hold a condition's lock"); while (q.empty()) { c->wait(us); check(holder == -1, "a wait returned while another thread holds the lock"); if (failed && mode == Real) break; } holder = k; pt(); if (!q.empty()) { ++taken[q.front()]; q.pop_front(); } check(holder == k, "a second thread entered a condition's locked section"); holder = -1; c->unlock(); } }));
        for (int k = 0; k < nP; ++k) th.push_back(new Fn([this, k]() { for (int n = 0; n < per; ++n) { pt(); c->lock(); check(holder == -1, "two threads hold a condition's lock"); holder = 100 + k; pt(); q.push_back(k * per + n); check(holder == 100 + k, "a second thread entered a condition's locked section"); holder = -1; if (after) { c->unlock(); c->signal(); } else { c->signal(); c->unlock(); } } }));
        for (auto *t : th) t->start(); for (auto *t : th) { t->wait(); delete t; } for (size_t i = 0; i < taken.size(); ++i) check(taken[i] == 1, "item %zu was taken %d times", i, taken[i]); check(q.empty(), "items were left"); delete c;
    }
};
// ---- a wait that is never signalled ends by its timeout, and a signalled one does not need it
struct TimeoutProg {
    int us, rounds; TimeoutProg(Src &s, bool real) { us = real ? s.i(500, 8000) : s.pick<int>({1, 1000, 499999, 500000, 999999, 1000000, 1000001, 3000000, 3500000, 2147483}); rounds = s.i(1, 3); s.note("wait(%d) %d times", us, rounds); }
    void main() { Condition *c = new Condition("test"); for (int r = 0; r < rounds; ++r) { if (mode == Model) { model::hintUs = us; model::spurious = 0; } struct timespec a, b; __real_clock_gettime(CLOCK_MONOTONIC, &a); long t0 = model::timeouts; c->lock(); c->wait(us); __real_clock_gettime(CLOCK_MONOTONIC, &b); if (mode == Model) check(model::timeouts == t0 + 1, "a wait of %d us returned without waiting for its timeout", us); else check((b.tv_sec - a.tv_sec) * 1e6 + (b.tv_nsec - a.tv_nsec) * 1e-3 > 0.5 * us, "a wait of %d us returned after %.0f us", us, (b.tv_sec - a.tv_sec) * 1e6 + (b.tv_nsec - a.tv_nsec) * 1e-3);
            int r2 = -1; Fn *f = new Fn([&]() { c->lock(); r2 = 1; c->unlock(); }); f->start(); for (int i = 0; i < 5; ++i) pt(); if (mode == Model) check(r2 == -1, "the lock is not held when a timed wait returns"); c->unlock(); f->wait(); check(r2 == 1, "the lock could not be had after a timed wait"); delete f; } delete c; }
};
// ---- a wait without a time ends by a signal only
struct SignalProg {
    int delay, rounds; SignalProg(Src &s, bool real) { delay = s.i(0, real ? 4 : 20); rounds = s.i(1, 4); s.note("%d waits, each signalled after %d steps", rounds, delay); }
    void main() {
        if (mode == Model) model::spurious = 0; bool rs = realSpurious; realSpurious = false;
        for (int r = 0; r < rounds; ++r) {
            Condition *c = new Condition("test"); bool sent = false; Fn *f = new Fn([&]() { c->lock(); for (int i = 0; i < delay; ++i) { pt(); if (mode == Real) usleep(200); } sent = true; c->signal(); c->unlock(); });
            c->lock(); f->start(); if (r % 2) c->wait(); else c->wait(0); check(sent || mode == Real, "a wait without a time returned before it was signalled"); c->unlock(); f->wait(); check(sent, "a thread that was waited for has not run"); delete f; delete c;
        }
        realSpurious = rs;
    }
};
// ---- asynchronous tasks
static int work(int x) { return x * 31 + 7; }
struct Task : AsynchronousTask {
    int in = 0, out = 0, count = 0, len; bool pending = false; pthread_t caller; explicit Task(int l) : len(l), caller(pthread_self()) { }
    void request(int x) { in = x; out = -1; pending = true; caller = pthread_self(); startTask(); } int result() { awaitTask(); return out; }
    void performTask() { check(pending, "a task was performed that nobody requested"); check(!pthread_equal(caller, pthread_self()), "a task was performed in its caller's thread"); int x = in; for (int i = 0; i < len; ++i) pt(); ++count; pending = false; out = work(x); }
};
struct TaskProg {
    struct Round { std::vector<int> start, await; }; std::vector<std::vector<Round>> callers; std::vector<int> lens; int nT; bool own;
    TaskProg(Src &s, bool real) { nT = s.i(1, real ? 5 : 3); own = nT > 1 && s.chance(3); lens.resize(nT); for (auto &l : lens) l = s.i(0, 3); callers.resize(own ? nT : 1); for (size_t c = 0; c < callers.size(); ++c) { callers[c].resize(s.i(0, real ? 12 : 3)); for (auto &r : callers[c]) { for (int t = 0; t < nT; ++t) if (own ? t == int(c) : s.i(0, 3) > 0) r.start.push_back(t); r.await = r.start; for (size_t i = r.await.size(); i > 1; --i) std::swap(r.await[i - 1], r.await[s.i(0, int(i) - 1)]); } } s.note("%d tasks, %zu callers", nT, callers.size()); }
    bool any() const { for (auto &c : callers) for (auto &r : c) if (!r.start.empty()) return true; return false; }
    void main() {
        std::vector<Task *> t; for (int i = 0; i < nT; ++i) { t.push_back(new Task(lens[i])); pt(); } std::vector<int> asked(nT, 0);
        auto drive = [&](size_t c) { int x = 1 + int(c) * 1000; for (auto &r : callers[c]) { std::map<int, int> arg; for (int k : r.start) { arg[k] = ++x; ++asked[k]; t[k]->request(x); pt(); } for (int k : r.await) { int got = t[k]->result(); check(t[k]->count == asked[k], "after %d requests a task was performed %d times when waiting for it returned", asked[k], t[k]->count); check(got == work(arg[k]), "a task's result is %d, expected %d", got, work(arg[k])); pt(); } } };
        if (!own) drive(0); else { std::vector<Fn *> f; for (size_t c = 0; c < callers.size(); ++c) { f.push_back(new Fn([&drive, c]() { drive(c); })); f.back()->start(); } for (auto *q : f) { q->wait(); delete q; } }
        for (int i = 0; i < nT; ++i) { int n = asked[i]; check(t[i]->count == n, "%d requests, performed %d times", n, t[i]->count); delete t[i]; }
    }
};
// ---- thread objects
static struct { Condition *c; int begun, ended, len; } born;
struct Bare : Thread { void run() { born.c->lock(); ++born.begun; born.c->signal(); born.c->unlock(); for (int i = 0; i < born.len; ++i) pt(); if (mode == Real) usleep(300); ++born.ended; } };
struct LifeProg {
    std::vector<int> ops; int len; LifeProg(Src &s, bool) { ops.resize(s.i(1, 8)); for (auto &o : ops) o = s.i(0, 2); len = s.i(0, 6); s.notev("operations", ops); }
    void main() {
        check(Thread::threadingAvailable(), "threading is not available"); int ran = 0, starts = 0; Fn *f = new Fn([&]() { pt(); ++ran; }); bool on = false;
        for (int o : ops) { if (o == 0 && !on) { f->start(); ++starts; on = true; } else if (o == 1) { f->wait(); check(ran == starts, "a thread started %d times had run %d times when waiting for it returned", starts, ran); if (starts) check(pthread_equal(f->id(), f->ran), "a thread's id is not its own"); on = false; } else pt(); }
        f->wait(); check(ran == starts, "a thread started %d times ran %d times", starts, ran); delete f;
        born.c = new Condition("born"); born.begun = born.ended = 0; born.len = len; Bare *b = new Bare; if (ops[0] != 2) { b->start(); born.c->lock(); while (!born.begun) born.c->wait(); born.c->unlock(); } delete b; if (ops[0] != 2) check(born.ended == 1, "a thread object was gone while its thread was running"); delete born.c;
    }
};
template <typename P> static void schedules(Src &s, bool (*nt)(P &)) { if (IS_TSAN) return; P *p = new P(s, false); inMode(s, false, *p); s.nontrivial(nt(*p)); delete p; }
template <typename P> static void threads(Src &s, bool (*nt)(P &)) { P *p = new P(s, true); inMode(s, true, *p); s.nontrivial(nt(*p)); delete p; }
template <typename P> static bool always(P &) { return true; }
static bool anyTask(TaskProg &p) { return p.any(); }
SUB(C36, mutex_schedules, 1500, "every case has two or more threads") { schedules<MutexProg>(s, always); }
SUB(C36, queue_schedules, 1500, "every case has a producer and a consumer") { schedules<QueueProg>(s, always); }
SUB(C36, timeout_schedules, 300, "every case waits once or more") { schedules<TimeoutProg>(s, always); }
SUB(C36, signal_schedules, 300, "every case waits for a signal once or more") { schedules<SignalProg>(s, always); }
SUB(C36, task_schedules, 1500, "one or more requests") { schedules<TaskProg>(s, anyTask); }
SUB(C36, life_schedules, 800, "every case starts a thread or waits for one") { schedules<LifeProg>(s, always); }
SUBX(C36, mutex_threads, 60, "every case has two or more threads") { threads<MutexProg>(s, always); }
SUBX(C36, queue_threads, 60, "every case has a producer and a consumer") { threads<QueueProg>(s, always); }
SUBX(C36, timeout_threads, 12, "every case waits once or more") { threads<TimeoutProg>(s, always); }
SUBX(C36, signal_threads, 12, "every case waits for a signal once or more") { threads<SignalProg>(s, always); }
SUBX(C36, task_threads, 60, "one or more requests") { threads<TaskProg>(s, anyTask); }
SUBX(C36, life_threads, 40, "every case starts a thread or waits for one") { threads<LifeProg>(s, always); }
