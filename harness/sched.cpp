#include "sched.hpp"
#include <algorithm>
#include <cerrno>
#include <map>
#include <memory>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <vector>

namespace sched {
static const size_t STK = 512 * 1024;
struct Fib {
	int id; std::string name; std::function<void()> fn; ucontext_t ctx; char *stk; bool done = false, joined = false, isthread = false; void *ret = nullptr;
	std::function<bool()> ready; const char *what = nullptr; uint64_t deadline = ~0ull; bool lowest = false; void *fake = nullptr;
};
static std::vector<std::unique_ptr<Fib>> fs; static std::vector<char *> pool;
static Fib *cur; static Case *cs; static Opts op; static ucontext_t mainctx; static void *main_fake; static const void *main_bot; static size_t main_sz;
static bool failed; static CaseFail failure; static uint64_t now, steps, events; static long gap; static bool inside_sched;
struct M { int owner = -1; int readers = 0; }; static std::map<void *, M> ms;
struct W { void *c; bool woken; }; static std::vector<W *> ws;

bool active() { return cur != nullptr; }
int self() { return cur ? cur->id : -1; }
uint64_t now_ns() { return now; }
uint64_t seq() { return ++events; }
bool finished(int id) { return fs[id]->done; }

static void to_main() { // from a fiber
	Fib *f = cur; __sanitizer_start_switch_fiber(f->done ? nullptr : &f->fake, main_bot, main_sz);
	swapcontext(&f->ctx, &mainctx);
	__sanitizer_finish_switch_fiber(f->fake, &main_bot, &main_sz);
}
static void entry() {
	__sanitizer_finish_switch_fiber(nullptr, &main_bot, &main_sz);
	Fib *f = cur;
	try { f->fn(); } catch (CaseFail &e) { if (!failed) { failed = true; failure = e; } }
	f->done = true; to_main(); abort();
}
static bool can(Fib *f) { return !f->done && (!f->ready || f->ready() || now >= f->deadline); }
void begin(Case &c, const Opts &o) {
	for (auto &f : fs) pool.push_back(f->stk);
	fs.clear(); ms.clear(); ws.clear(); cs = &c; op = o; failed = false; now = 1000000000ull * 1700000000ull; steps = events = 0; cur = nullptr;
	gap = op.mem_gap ? 1 + (long)c.draw(op.mem_gap) : -1;
}
int spawn(const std::string &name, std::function<void()> fn) {
	std::unique_ptr<Fib> f(new Fib); f->id = fs.size(); f->name = name; f->fn = std::move(fn);
	if (pool.empty()) f->stk = (char *)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); else { f->stk = pool.back(); pool.pop_back(); }
	__asan_unpoison_memory_region(f->stk, STK); getcontext(&f->ctx); f->ctx.uc_stack.ss_sp = f->stk; f->ctx.uc_stack.ss_size = STK; f->ctx.uc_link = nullptr; makecontext(&f->ctx, entry, 0);
	fs.push_back(std::move(f)); return fs.back()->id;
}
// chooses who runs next; the current fiber (if any) is a candidate like the others
static Fib *choose(Fib *prev) {
	for (;;) {
		std::vector<Fib *> r, low;
		for (auto &f : fs) if (can(f.get())) (f->lowest ? low : r).push_back(f.get());
		if (r.empty()) r = low;
		if (!r.empty()) {
			if (op.jump && cs->chance(op.jump)) { uint64_t d = ~0ull; for (auto &f : fs) if (!f->done && f->deadline > now) d = std::min(d, f->deadline); if (d != ~0ull) { now = d; continue; } }
			if (r.size() == 1) return r[0];
			if (prev && std::find(r.begin(), r.end(), prev) != r.end()) { if (!cs->chance(100 - op.keep)) return prev; r.erase(std::find(r.begin(), r.end(), prev)); }
			return r[cs->draw(r.size())];
		}
		uint64_t d = ~0ull; for (auto &f : fs) if (!f->done) d = std::min(d, f->deadline);
		if (d == ~0ull) return nullptr;
		now = d;
	}
}
static Fib *nextf;
static void yield_to_choice() { // from a fiber
	if (++steps > 60000) cs->fail("no end after %llu scheduling points (livelock)", (unsigned long long)steps);
	inside_sched = true; Fib *n = choose(cur); inside_sched = false;
	if (n == cur) { cur->ready = nullptr; cur->deadline = ~0ull; return; }
	nextf = n; to_main(); cur->ready = nullptr; cur->deadline = ~0ull;
}
void point() { if (cur && !inside_sched) yield_to_choice(); }
static void mem_point() {
	if (!cur || inside_sched || gap < 0) return;
	if (--gap > 0) return;
	inside_sched = true; gap = 1 + (long)cs->draw(op.mem_gap); unsigned k = op.keep; op.keep = 0; Fib *n = choose(cur); op.keep = k; inside_sched = false;
	if (n == cur) return;
	nextf = n; to_main(); cur->ready = nullptr; cur->deadline = ~0ull;
}
void run() {
	Fib *n = choose(nullptr);
	while (n && !failed) {
		nextf = nullptr; cur = n; __sanitizer_start_switch_fiber(&main_fake, n->stk, STK); swapcontext(&mainctx, &n->ctx); __sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
		cur = nullptr; if (failed) break;
		n = nextf ? nextf : choose(nullptr);
	}
	if (failed) throw failure;
	std::string stuck; for (auto &f : fs) if (!f->done) stuck += strf("%s%s waits for %s", stuck.empty() ? "" : "; ", f->name.c_str(), f->what ? f->what : "?");
	if (!stuck.empty()) cs->fail("deadlock: %s", stuck.c_str());
}
void wait_until(const std::function<bool()> &ready, const char *what) { cur->what = what; cur->ready = ready; yield_to_choice(); }
void settle() { cur->lowest = true; cur->what = "everybody else"; cur->ready = [] { return true; }; yield_to_choice(); cur->lowest = false; }
void sleep_ns(uint64_t ns) { cur->what = "time to pass"; cur->deadline = now + ns; cur->ready = [] { return false; }; yield_to_choice(); }

int mutex_lock(void *m, bool tr) {
	point(); M &x = ms[m];
	if (x.owner >= 0) { if (tr) return EBUSY; wait_until([&x] { return x.owner < 0; }, "a mutex"); }
	x.owner = cur->id; return 0;
}
int mutex_unlock(void *m) { M &x = ms[m]; if (x.owner != cur->id) cs->fail("%s unlocks a mutex that %s", cur->name.c_str(), x.owner < 0 ? "nobody holds" : "another thread holds"); x.owner = -1; point(); return 0; }
int rw_lock(void *m, bool w, bool tr) {
	point(); M &x = ms[m]; auto ok = [&x, w] { return x.owner < 0 && (!w || !x.readers); };
	if (!ok()) { if (tr) return EBUSY; wait_until(ok, "a read-write lock"); }
	if (w) x.owner = cur->id; else x.readers++; return 0;
}
int rw_unlock(void *m) { M &x = ms[m]; if (x.owner == cur->id) x.owner = -1; else if (x.readers > 0) x.readers--; else cs->fail("%s unlocks a read-write lock that nobody holds", cur->name.c_str()); point(); return 0; }
void forget(void *o) { ms.erase(o); }
int cond_wait(void *c, void *m, const timespec *dl) {
	M &x = ms[m]; if (x.owner != cur->id) cs->fail("%s waits on a condition variable without holding the mutex", cur->name.c_str());
	W w{c, op.spurious && cs->chance(op.spurious)}; ws.push_back(&w); x.owner = -1;
	cur->deadline = dl ? (uint64_t)dl->tv_sec * 1000000000ull + dl->tv_nsec : ~0ull; cur->what = "a condition variable";
	if (dl && (dl->tv_nsec < 0 || dl->tv_nsec >= 1000000000)) { ws.pop_back(); x.owner = cur->id; cur->deadline = ~0ull; return EINVAL; }
	cur->ready = [&w] { return w.woken; }; yield_to_choice();
	bool got = w.woken; ws.erase(std::find(ws.begin(), ws.end(), &w));
	if (x.owner >= 0) wait_until([&x] { return x.owner < 0; }, "a mutex after a condition wait");
	x.owner = cur->id; return got ? 0 : ETIMEDOUT;
}
int cond_wake(void *c, bool all) {
	point(); std::vector<W *> v; for (W *w : ws) if (w->c == c && !w->woken) v.push_back(w);
	if (!v.empty()) { if (all) for (W *w : v) w->woken = true; else v[cs->draw(v.size())]->woken = true; }
	return 0;
}
int thread_create(void *(*fn)(void *), void *arg, pthread_t *out) {
	int id = spawn(strf("thread %zu", fs.size()), nullptr); Fib *f = fs[id].get(); f->isthread = true; f->fn = [f, fn, arg] { f->ret = fn(arg); }; *out = (pthread_t)(id + 1); point(); return 0;
}
int thread_join(pthread_t t, void **rv) {
	size_t id = (size_t)t - 1; if (id >= fs.size() || !fs[id]->isthread || fs[id]->joined) return ESRCH; if ((int)id == cur->id) return EDEADLK;
	Fib *f = fs[id].get(); point(); if (!f->done) wait_until([f] { return f->done; }, "a thread to end"); f->joined = true; if (rv) *rv = f->ret; return 0;
}
static inline void mem(const void *p) { if (cur && gap > 0 && !((const char *)p >= cur->stk && (const char *)p < cur->stk + STK)) mem_point(); }
} // namespace sched
extern "C" {
#define H(n) void __sanitizer_cov_load##n(void *p) { sched::mem(p); } void __sanitizer_cov_store##n(void *p) { sched::mem(p); }
H(1) H(2) H(4) H(8) H(16)
}
