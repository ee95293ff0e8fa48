// Deterministic scheduler: while a case runs under it, every "thread" of the
// case (and every thread the code under test creates) is a fiber, every pthread
// call of the code is a scheduling point, and so is every access to shared
// memory by code compiled with load/store instrumentation.  Which fiber goes on
// is drawn from the case, so a schedule replays and shrinks like any input.
// Time is virtual: it advances only when nobody can run (or when drawn).
#pragma once
#include "core.hpp"
#include <functional>
#include <pthread.h>
#include <ctime>
namespace sched {
struct Opts { unsigned keep = 70; /* percent: go on with the same fiber */ unsigned mem_gap = 0; /* 0: memory accesses are no points */ unsigned spurious = 0, jump = 0; };
void begin(Case &c, const Opts &o);
int spawn(const std::string &name, std::function<void()> fn);
void run();                                   // until every fiber ended; throws CaseFail
bool active();                                // called from a fiber?
int self();
void point();
void wait_until(const std::function<bool()> &ready, const char *what);
void settle();                                // until no other fiber can run without time passing
void sleep_ns(uint64_t ns);                   // virtual
uint64_t now_ns();
uint64_t seq();                               // next event number
bool finished(int id);
// behind the shim
int mutex_lock(void *m, bool try_only); int mutex_unlock(void *m);
int cond_wait(void *c, void *m, const timespec *deadline); int cond_wake(void *c, bool all);
int rw_lock(void *m, bool write, bool try_only); int rw_unlock(void *m);
void forget(void *obj);
int thread_create(void *(*fn)(void *), void *arg, pthread_t *out); int thread_join(pthread_t t, void **rv);
}
