// C20: locks exclude, shared holders coexist, waits wake
#include "common.hpp"
#include "sched.hpp"
extern "C" {
#include "mutex.h"
}
namespace {
struct Lock { mutex_handle h{}; int ex = 0, sh = 0, maxsh = 0; };
struct Waiter { int cv; bool timed, must = false, woken = false; };
struct Op { int k; int l, l2; uint32_t ms; int spin, how; };
struct Ctx {
	Case &c; std::vector<Lock> L; std::vector<condvar_handle> V; std::vector<std::vector<Waiter *>> waiting; std::vector<int> need; bool spurious; int meets = 0, excl = 0, contended = 0, wakes = 0; uint64_t wakeseq = 0;
	Ctx(Case &c) : c(c) {}
	void chk(int l, bool exclusive, const char *who) {
		auto &k = L[l]; if (exclusive) CHECK(c, k.ex == 1 && k.sh == 0, "%s holds lock %d exclusively together with %d exclusive and %d shared holders", who, l, k.ex - 1, k.sh);
		else CHECK(c, k.ex == 0, "%s holds lock %d shared while it is held exclusively", who, l);
	}
	void in(int l, bool ex, const char *who) { if (ex) { int r = mutex_lock(&L[l].h); CHECK(c, r == 0, "mutex_lock returned %d", r); L[l].ex++; } else { int r = mutex_lock_shared(&L[l].h); CHECK(c, r == 0, "mutex_lock_shared returned %d", r); L[l].sh++; L[l].maxsh = std::max(L[l].maxsh, L[l].sh); } chk(l, ex, who); }
	void out(int l, bool ex, const char *who) { chk(l, ex, who); if (ex) { L[l].ex--; int r = mutex_unlock(&L[l].h); CHECK(c, r == 0, "mutex_unlock returned %d", r); } else { L[l].sh--; int r = mutex_unlock_shared(&L[l].h); CHECK(c, r == 0, "mutex_unlock_shared returned %d", r); } }
	void spin(int n, int l, bool ex, const char *who) { for (int i = 0; i < n; i++) { sched::point(); chk(l, ex, who); } }
	int lock_of(int v) { return v % (int)L.size(); }
	void wait(const Op &o, const char *who) {
		int v = o.l2 % (int)V.size(), l = lock_of(v); in(l, true, who); spin(o.spin, l, true, who);
		Waiter w{v, o.k == 3}; waiting[v].push_back(&w); L[l].ex--; uint64_t t0 = sched::now_ns(), s0 = wakeseq; c.note("  %s waits on %d%s", who, v, w.timed ? strf(" for %u ms", o.ms).c_str() : "");
		int r = w.timed ? condvar_wait_time(&V[v], &L[l].h, o.ms) : condvar_wait(&V[v], &L[l].h);
		L[l].ex++; uint64_t t1 = sched::now_ns(); c.note("  %s: wait on %d -> %d", who, v, r); waiting[v].erase(std::find(waiting[v].begin(), waiting[v].end(), &w)); if (need[v] > 0) need[v]--;
		CHECK(c, L[l].ex == 1 && L[l].sh == 0, "%s: the wait returned while lock %d has %d other exclusive and %d shared holders", who, l, L[l].ex - 1, L[l].sh);
		if (w.timed) CHECK(c, r == 0 || r == 1, "condvar_wait_time returned %d", r); else CHECK(c, r == 0, "condvar_wait returned %d", r);
		if (r == 1) CHECK(c, t1 - t0 >= o.ms * 1000000ull, "a wait of %u ms ended as timed out after %.3f ms", o.ms, (t1 - t0) / 1e6);
		if (r == 0 && !spurious) CHECK(c, wakeseq != s0, "a wait ended with 0 without any wake since it began");
		spin(o.how % 3, l, true, who); out(l, true, who);
	}
	void wake(const Op &o, const char *who) {
		int v = o.l2 % (int)V.size(), l = lock_of(v); bool all = o.how & 1; int hold = o.how / 2 % 3; // not held, exclusive, shared
		if (hold) { in(l, hold == 1, who); spin(o.spin, l, hold == 1, who); }
		// a waiter that has marked itself is really waiting if we hold the lock
		if (hold) { if (all) { for (auto *w : waiting[v]) w->must = true; need[v] = waiting[v].size(); } else need[v] = std::min<int>(need[v] + 1, waiting[v].size()); }
		wakeseq++; wakes++; int r = all ? condvar_wake_all(&V[v]) : condvar_wake_one(&V[v]); c.note("  %s wakes %s of %d%s -> %d", who, all ? "all" : "one", v, hold ? hold == 1 ? " holding the lock" : " sharing the lock" : "", r); CHECK(c, r == 0, "waking returned %d", r); wakeseq++;
		if (hold) out(l, hold == 1, who);
	}
};
}
static void run(Case &c) {
	shim::ledger_forget(); Ctx x(c); sched::Opts o; o.keep = c.pick(std::vector<unsigned>{70, 30, 90, 50}); if (c.chance(50)) o.mem_gap = c.pick(std::vector<unsigned>{12, 4, 50}); if (c.chance(10)) o.spurious = 15; if (c.chance(25)) o.jump = 1 + c.draw(8); x.spurious = o.spurious;
	int nl = 1 + c.draw(2), nv = 1 + c.draw(2), nt = 1 + c.draw(4); x.L.resize(nl); x.V.resize(nv); x.waiting.resize(nv); x.need.resize(nv); uint64_t clock_off = c.pick(std::vector<uint64_t>{0, 999999999, 1, 500000000, 999000000});
	int meet = nt > 1 && c.chance(40) ? 2 + (int)c.draw(nt - 1) : 0, met = 0, left = 0;
	std::vector<std::vector<Op>> script(nt); bool timed = false;
	for (auto &s : script) for (int i = 1 + c.draw(5); i > 0; i--) { Op q; q.k = c.weighted({6, 5, 3, 3, 6}); q.l = c.draw(nl); q.l2 = c.draw(4); q.ms = q.k == 3 ? c.pick(std::vector<uint32_t>{1000, 0, 1, 999, 1001, 1999, 60000, 3600000, 4294967295u, 2000, 500}) : 0; q.spin = c.draw(4); q.how = c.draw(6); timed |= q.k == 3; s.push_back(q); }
	c.note("%d locks, %d condition variables, %d threads%s", nl, nv, nt, o.mem_gap ? ", preemption at memory accesses" : "");
	sched::begin(c, o); int running = nt;
	sched::spawn("main", [&] {
		sched::sleep_ns(clock_off);
		for (auto &l : x.L) CHECK(c, mutex_init(&l.h) == 0, "mutex_init failed"); for (auto &v : x.V) CHECK(c, condvar_init(&v) == 0, "condvar_init failed");
		for (int t = 0; t < nt; t++) sched::spawn(strf("thread %d", t), [&, t] {
			std::string nm = strf("thread %d", t); const char *who = nm.c_str();
			if (t < meet) { x.in(0, false, who); met++; sched::wait_until([&] { return met == meet; }, "other shared holders of the lock (shared holders must coexist)"); x.spin(2, 0, false, who); x.out(0, false, who); }
			if (meet) { left++; sched::wait_until([&] { return left == nt; }, "harness"); }
			for (auto &q : script[t]) switch (q.k) {
			case 0: case 1: { bool ex = q.k == 0; int l = q.l; if (x.L[l].ex || x.L[l].sh) x.contended++; x.in(l, ex, who); c.note("  %s holds %d %s", who, l, ex ? "exclusively" : "shared"); x.excl++; x.spin(q.spin, l, ex, who);
				if (l + 1 < nl && q.l2 == 0) { bool e2 = q.how & 1; x.in(l + 1, e2, who); x.spin(q.how / 2, l + 1, e2, who); x.chk(l, ex, who); x.out(l + 1, e2, who); }
				x.out(l, ex, who); break; }
			case 2: case 3: x.wait(q, who); break;
			case 4: x.wake(q, who); break;
			}
			running--;
		});
		for (int guard = 0; running > 0 && guard < 200; guard++) {
			sched::settle();
			for (int v = 0; v < nv; v++) { for (auto *w : x.waiting[v]) CHECK(c, !w->must, "a thread still waits on condition variable %d although it was waiting when all were woken", v); CHECK(c, x.need[v] == 0, "%d more waiter(s) of condition variable %d should have been released by wake-one", x.need[v], v); }
			if (running <= 0) break;
			bool plain = false, tm = false; for (auto &vv : x.waiting) for (auto *w : vv) (w->timed ? tm : plain) = true;
			if (tm) { sched::sleep_ns(5000000000000000ull); continue; }
			CHECK(c, plain, "threads are stuck although nobody waits on a condition variable");
			for (int v = 0; v < nv; v++) { x.wakeseq++; condvar_wake_all(&x.V[v]); x.wakeseq++; }
		}
	});
	sched::run();
	sched::begin(c, sched::Opts{100}); sched::spawn("main", [&] { for (auto &l : x.L) { int r = mutex_lock(&l.h); CHECK(c, r == 0, "the lock cannot be taken at the end"); mutex_unlock(&l.h); mutex_free(&l.h); CHECK(c, !l.h.priv, "mutex_free left something"); } for (auto &v : x.V) condvar_free(&v); }); sched::run();
	auto left_ = shim::res(); CHECK(c, left_.blocks == 0, "%ld blocks are left", left_.blocks);
	if (nt > 1 && (x.contended || x.wakes)) c.nontrivial(); if (meet) c.label("shared holders meet"); if (timed) c.label("timed waits"); if (o.mem_gap) c.label("memory preemption"); if (x.wakes) c.label("wakes"); if (o.spurious) c.label("spurious wakeups");
}
Property the_property = {"C20",
	"A case is 1-4 threads with generated scripts of exclusive and shared sections (also nested in a fixed order), waits, timed waits and wakes (holding the lock exclusively, shared, or not) on 1-2 locks and condition variables, executed under a deterministic scheduler whose choices at every pthread call (and, in half of the cases, at every shared memory access) are drawn from the case, with virtual time. Oracle: holders counted by the threads, coexistence of shared holders demanded by a meeting, waiters that must have been released once everything has settled, results and virtual durations of timed waits, exact deadlock detection. Non-trivial: at least two threads with contention or wakes.",
	nullptr, run, 60000, 4000000, 30, {"sequentially consistent interleavings at pthread calls and instrumented memory accesses of the code under test"}};
