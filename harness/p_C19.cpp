// C19: a successful wake is always followed by work
#include "common.hpp"
#include "sched.hpp"
extern "C" {
#include "worker.h"
}
namespace {
struct Wake { uint64_t inv, ret = 0; int result = -999; };
struct Run { uint64_t start, end = 0; };
struct Round { uint64_t start_inv, start_ret = 0, join_inv = ~0ull, join_ret = ~0ull; size_t runs = 0; };
struct Ctx {
	Case &c; worker_handle wh{}; std::vector<Wake> wakes; std::vector<Run> runs; std::vector<Round> rounds; std::vector<std::pair<int, int>> plan; // per run: yields, self-wakes
	bool inside = false, timer = false, spurious = false; size_t nrun = 0; int selfs = 0;
	Ctx(Case &c) : c(c) {}
	size_t wake(const char *who) {
		size_t i = wakes.size(); wakes.push_back({sched::seq()}); int r = worker_wake(&wh); wakes[i].result = r; wakes[i].ret = sched::seq(); c.note("  %s: wake -> %d", who, r);
		bool running = false, stopped = true; for (auto &o : rounds) { if (o.start_ret && o.start_ret < wakes[i].inv && wakes[i].ret < o.join_inv) running = true; if (o.start_inv < wakes[i].ret && o.join_ret > wakes[i].inv) stopped = false; }
		if (running) CHECK(c, r == 0, "worker_wake on a running worker returned %d", r); if (stopped) CHECK(c, r < 0, "worker_wake on a worker that is not running returned %d", r);
		return i;
	}
	// every wake that returned before `before` has been followed by a run (finished before `done`)
	void served(uint64_t before, uint64_t done, const char *what) {
		for (size_t i = 0; i < wakes.size(); i++) {
			auto &w = wakes[i]; if (w.result != 0 || w.ret == 0 || w.ret >= before) continue;
			bool ok = false; for (auto &r : runs) if (r.start > w.inv && (done == ~0ull ? true : r.end && r.end < done)) ok = true;
			CHECK(c, ok, "%s although the %zu. wake (which succeeded) was not followed by %s", what, i + 1, done == ~0ull ? "a run" : "a finished run");
		}
	}
	void work() {
		CHECK(c, !inside, "the work function runs on two threads at once"); inside = true;
		CHECK(c, !rounds.empty() && rounds.back().join_ret == ~0ull, "the work function runs although the worker is not running");
		Round &o = rounds.back(); o.runs++; runs.push_back({sched::seq()}); size_t me = runs.size() - 1;
		size_t may = 0; for (auto &w : wakes) if ((w.ret == 0 || w.result == 0) && (w.ret == 0 || w.ret > o.start_inv)) may++;
		if (!timer) CHECK(c, o.runs <= may, "run %zu since the start, but only %zu wakes", o.runs, may);
		auto p = nrun < plan.size() ? plan[nrun] : std::make_pair(0, 0); nrun++; c.note("  run %zu begins", runs.size());
		for (int i = 0; i < p.first; i++) sched::point();
		for (int i = 0; i < p.second; i++) { wake("the work itself"); sched::point(); }
		c.note("  run %zu ends", me + 1); runs[me].end = sched::seq(); inside = false;
	}
	void wait(const char *who) {
		uint64_t inv = sched::seq(); int r = worker_wait_idle(&wh); uint64_t ret = sched::seq(); c.note("  %s: wait_idle -> %d", who, r);
		bool running = false, stopped = true; for (auto &o : rounds) { if (o.start_ret && o.start_ret < inv && ret < o.join_inv) running = true; if (o.start_inv < ret && o.join_ret > inv) stopped = false; }
		if (running) CHECK(c, r == 0, "worker_wait_idle on a running worker returned %d", r); if (stopped) CHECK(c, r < 0, "worker_wait_idle on a worker that is not running returned %d", r);
		if (r == 0) served(inv, ret, "worker_wait_idle returned success");
	}
};
void work_cb(worker_handle *wh) { ((Ctx *)wh->func_ctx)->work(); }
}
static void run(Case &c) {
	shim::ledger_forget(); Ctx x(c); sched::Opts o; o.keep = c.pick(std::vector<unsigned>{70, 30, 90, 50}); if (c.chance(50)) o.mem_gap = c.pick(std::vector<unsigned>{30, 6, 120});
	x.timer = c.chance(25); if (x.timer && c.chance(50)) o.jump = 1 + c.draw(6); if (c.chance(10)) { o.spurious = 10; x.spurious = true; if (x.timer == false) c.label("spurious wakeups"); }
	uint32_t period = x.timer ? c.pick(std::vector<uint32_t>{1000, 1, 600000, 999, 1001, 4294967295u, 86400000u}) : 0;
	int rounds = 1 + c.draw(3), actors = c.draw(3); for (int i = c.draw(6); i >= 0; i--) x.plan.push_back({(int)c.draw(8), c.chance(15) ? 1 + (int)c.draw(2) : 0});
	std::vector<std::vector<int>> script(actors + 1); size_t total = 0; for (auto &s : script) { for (int i = 1 + c.draw(5); i > 0; i--) s.push_back(c.weighted({6, 3, 1, 3})); total += s.size(); }
	std::vector<int> cscript; for (int i = 0; i < rounds; i++) cscript.push_back(c.draw(1 << 16));
	c.note("%d rounds, %d further actors, period %u ms%s", rounds, actors, period, o.mem_gap ? ", preemption at memory accesses" : "");
	x.wh.func_ctx = &x; x.wh.func_ptr = work_cb; x.wh.periodic_wake = period; x.wh.stack_size = c.chance(50) ? 0 : 1 << 20;
	bool done = false; int fails = 0, concurrent_join = 0;
	sched::begin(c, o);
	auto act = [&](int op, const char *who) {
		switch (op) {
		case 0: x.wake(who); break;
		case 1: x.wait(who); break;
		case 2: { uint64_t inv = sched::seq(); int r = worker_is_idle(&x.wh); uint64_t ret = sched::seq(); c.note("  %s: is_idle -> %d", who, r); if (r == 1) x.served(inv, ret, "worker_is_idle was true"); bool stopped = true; for (auto &q : x.rounds) if (q.start_inv < ret && q.join_ret > inv) stopped = false; if (stopped) CHECK(c, r == 0, "worker_is_idle is true for a worker that is not running"); break; }
		case 3: for (int i = 0; i < 3; i++) sched::point(); break;
		}
	};
	sched::spawn("controller", [&] {
		int r = worker_init(&x.wh); CHECK(c, r == 0, "worker_init returned %d", r);
		for (int a = 0; a < actors; a++) sched::spawn(strf("actor %d", a), [&, a] { std::string who = strf("actor %d", a); for (int op : script[a]) act(op, who.c_str()); });
		for (int k = 0; k < rounds; k++) {
			int bits = cscript[k];
			if (bits % 5 == 0) { x.wake("controller"); x.wait("controller"); act(2, "controller"); }
			if (bits / 5 % 10 == 0) { shim::fault(bits / 50 % 2 ? shim::K_THREAD : shim::K_ATTR, 1); x.rounds.push_back({sched::seq()}); r = worker_start(&x.wh); shim::fault_clear(); uint64_t t = sched::seq(); x.rounds.back().join_inv = x.rounds.back().start_inv; x.rounds.back().join_ret = t; c.note("  controller: failing start -> %d", r); CHECK(c, r < 0, "worker_start without a thread returned %d", r); fails++; x.wake("controller"); x.wait("controller"); }
			x.rounds.push_back({sched::seq()}); r = worker_start(&x.wh); c.note("  controller: start -> %d", r); CHECK(c, r == 0, "worker_start returned %d", r); x.rounds.back().start_ret = sched::seq();
			if (bits / 7 % 6 == 0) { r = worker_start(&x.wh); CHECK(c, r >= 0, "starting a running worker returned %d", r); }
			for (int op : script[actors]) act(op, "controller");
			if (bits / 11 % 2) { // everything settled
				sched::settle(); uint64_t t = sched::seq(); x.served(t, t, "everything has settled"); CHECK(c, !x.inside, "a run does not end"); r = worker_is_idle(&x.wh); if (!x.timer || !(o.jump || x.spurious)) CHECK(c, r == 1, "worker_is_idle is %d after everything has settled", r); x.wait("controller");
			}
			if (x.timer && bits / 13 % 2 && period < 4000000000u) { // periodic runs come and do not come too often
				sched::settle(); size_t before = x.runs.size(), wk = x.wakes.size(); uint64_t t0 = sched::now_ns(); int periods = 1 + bits / 17 % 4; sched::sleep_ns(periods * (uint64_t)period * 1000000 + 500000); sched::settle();
				size_t got = x.runs.size() - before, nw = x.wakes.size() - wk, most = (sched::now_ns() - t0) / (period * 1000000ull) + nw + 1; if (!o.jump) CHECK(c, got >= (size_t)periods, "%zu runs in %d periods", got, periods); if (!x.spurious) CHECK(c, got <= most, "%zu runs in %d periods and %zu wakes", got, periods, nw); c.label("periodic");
			}
			bool second = bits / 19 % 4 == 0; int sj = -1; auto join = [&](const char *who) { int r = worker_join(&x.wh); c.note("  %s: join -> %d", who, r); CHECK(c, r == 0, "worker_join returned %d", r); CHECK(c, !x.inside, "worker_join returned while the work function runs"); };
			x.rounds.back().join_inv = sched::seq(); if (second) { concurrent_join++; sj = sched::spawn("second joiner", [&] { join("second joiner"); }); }
			join("controller"); if (second) sched::wait_until([&] { return sched::finished(sj); }, "the second joiner");
			uint64_t t = sched::seq(); x.rounds.back().join_ret = t; x.served(t, t, "worker_join returned");
			CHECK(c, shim::threads_running() >= 0, "?");
			if (bits / 23 % 3 == 0) { x.wake("controller"); x.wait("controller"); r = worker_join(&x.wh); CHECK(c, r == 0, "joining again returned %d", r); }
		}
		done = true;
	});
	sched::run();
	uint64_t t = sched::seq(); x.served(t, t, "everything has ended"); CHECK(c, done, "harness: controller did not end");
	for (size_t i = 0; i + 1 < x.rounds.size(); i++) {}
	sched::begin(c, sched::Opts{100}); sched::spawn("controller", [&] { worker_free(&x.wh); }); sched::run();
	auto left = shim::res(); CHECK(c, left.blocks == 0, "worker_free left %ld blocks", left.blocks);
	if (x.runs.size() && x.wakes.size() > 1) c.nontrivial(); if (fails) c.label("failed start"); if (concurrent_join) c.label("two joiners"); if (o.mem_gap) c.label("memory preemption"); if (rounds > 1) c.label("restarted"); if (x.selfs) c.label("self wake");
}
Property the_property = {"C19",
	"A case is a worker, up to two actor threads and a controller running generated scripts of wake, wait_idle, is_idle over 1-3 start/join rounds (failing thread creation, second concurrent joiner, periodic wake, work that lasts and wakes itself), executed under a deterministic scheduler whose choices at every pthread call (and, in half of the cases, at every shared memory access) are drawn from the case, with virtual time. Oracle: the history of calls and runs (a run after every successful wake, none without, no overlap, results of calls in known states, nothing after join) and exact deadlock detection. Non-trivial: at least two wakes and a run.",
	nullptr, run, 60000, 4000000, 30, {"sequentially consistent interleavings at pthread calls and instrumented memory accesses of the code under test", "start is called by one thread only"}};
