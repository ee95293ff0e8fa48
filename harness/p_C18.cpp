// C18: the registered status follows the real occupancy
#include "registrar.hpp"
static void run(Case &c) {
	World w(c); Registrar reg(w); reg.listen(); bool wide = c.chance(4); int n = wide ? 10 + c.draw(3) : 1 + c.draw(4); RegConf k; k.name = "REG"; k.comment = c.chance(50) ? "" : "hello"; k.slots = n; k.port = 8100; k.pub = false; shim::socket_timeouts_div(10);
	Conf cf; cf.slots = n; cf.vary(c, true); cf.reg_name = k.name; cf.reg_comment = k.comment; cf.denied = "^BAD"; gen_perturb(c, 60, 1200);
	int mode = c.draw(4), seed = c.draw(1000), cnt = 0; reg.behave = [&]() -> int { cnt++; if (mode < 2) return ANSWER_OK; static const int b[] = {ANSWER_ERROR, HANG_UP_AFTER, GARBAGE_ANSWER, RESET_AFTER, HALF_ANSWER, ANSWER_OK}; return b[mix64(seed + cnt) % 6]; };
	reg.delay_us = c.chance(60) ? c.draw(12000) : 0; size_t seen = 0; bool closing = false, wasfull = false, wasoff = false; int checks = 0, moves = 0;
	auto look = [&] { for (; seen < reg.reports.size(); seen++) { check_report(c, *reg.reports[seen], k, closing); if (!closing) CHECK(c, reg.reports[seen]->status != "Off", "an Off report while the proxy is up"); } };
	auto matches = [&](size_t used) { if (reg.reports.empty()) return false; auto &r = *reg.reports.back(); return r.status == ((int)used == n ? "Busy" : "Ready") && (n == 1 || (r.used == (long)used && r.total == n)); };
	auto verify = [&](size_t used, const char *when) {
		bool ok = w.wait([&] { look(); return matches(used) && !reg.busy(); }); if (ok) { reg.settle(); look(); ok = matches(used); }
		if (!ok) c.fail("%s %zu of %d slots are used, but the last of %zu reports says %s", when, used, n, reg.reports.size(), reg.reports.empty() ? "nothing" : quoted(reg.reports.back()->body, 300).c_str());
		checks++; if ((int)used == n) wasfull = true; };
	int rounds = 1 + (c.chance(40) ? c.draw(2) + 1 : 0);
	for (int round = 0; round < rounds; round++) {
		closing = false; size_t r0 = reg.reports.size();
		if (round == 0) { CHECK(c, w.init() == 0, "proxy_init"); } if (round == 0 || c.chance(50)) { if (round && c.chance(50)) { n = 1 + c.draw(4); cf.any_ext = 0; cf.slots = n; cf.vary(c, true); k.slots = n; cf.extra = n == 1 ? "AdditionalExternalBindAddresses=\n" : ""; } CHECK(c, w.load(cf) >= 0, "loading failed"); }
		CHECK(c, w.open() >= 0, "opening failed"); CHECK(c, w.start() >= 0, "starting failed"); bool serve = c.chance(90); if (serve) w.accept_loop();
		w.must([&] { look(); return reg.reports.size() > r0; }, "a report when the proxy starts"); verify(0, round ? "after reopening" : "after starting");
		auto p = w.peer(1); p->ctl->dg.clear(); std::vector<ClientP> live; int ops = serve ? 1 + c.draw(c.thorough ? 40 : 14) : 0;
		for (int i = 0; i < ops; i++) {
			int op = c.weighted({7, 5, 3, 2, 3, 1, 1}); moves++;
			if (op == 0 && (int)live.size() >= n) op = 3;
			if (op == 1 && live.empty()) op = 0;
			if (op == 0) { settled(w, live.size()); int m = c.chance(30) ? n - (int)live.size() : 1; std::vector<ClientP> nw; c.note("%d client(s) log in", m); for (int j = 0; j < m; j++) { auto cl = w.connect(); w.get_challenge(cl); nw.push_back(cl); } for (auto &cl : nw) w.greet(cl, simple_call(c.draw(wide ? 90 : 9)), cf.password); for (auto &cl : nw) { w.confirm_in(cl); live.push_back(cl); } }
			else if (op == 1) { int m = c.chance(30) ? live.size() : 1; c.note("%d client(s) leave", m); for (int j = 0; j < m; j++) { size_t x = c.draw(live.size()); w.leave(live[x], c.chance(50)); live.erase(live.begin() + x); } }
			else if (op == 2) { settled(w, live.size()); if ((int)live.size() >= n) continue; auto cl = w.connect(); w.get_challenge(cl); int how = c.draw(4); c.note("a client is refused or leaves before login (%d)", how); if (how == 0) w.greet(cl, "K1X", "wrong"); else if (how == 1) w.greet(cl, "BAD1", cf.password); else if (how == 2) cl->send(std::string("GET / HTTP/1.1\r\nHost: x\r\n\r\n")); if (how < 3 && c.chance(70)) w.expect_gone(cl, "refused"); w.leave(cl, c.chance(50)); }
			else if (op == 3) { if ((int)live.size() < n) continue; settled(w, live.size()); auto cl = w.connect(); c.note("one client too many"); w.expect_gone(cl, "no slot"); w.leave(cl); }
			else if (op == 4) { settled(w, live.size()); verify(live.size(), "after things settled"); }
			else if (op == 5) { c.note("proxy_drop"); settled(w, live.size()); w.bounded("proxy_drop", 10, [&] { proxy_drop(&w.ph); }); for (auto &cl : live) w.expect_gone(cl, "proxy_drop"); while (!live.empty()) { w.leave(live.back()); live.pop_back(); } settled(w, 0); verify(0, "after proxy_drop"); }
			else { // periodic repetition
				settled(w, live.size()); verify(live.size(), "before waiting"); shim::take_timed_waits(); size_t before = reg.reports.size(); shim::long_wait_ms(15); c.note("ten minutes pass"); // the worker is woken once so that its wait is the shortened one
				settled(w, live.size()); if ((int)live.size() < n) { auto cl = w.connect(); w.get_challenge(cl); w.greet(cl, "K9X", "wrong"); w.expect_gone(cl, "wrong password"); w.leave(cl); settled(w, live.size()); } else { w.leave(live.back()); live.pop_back(); settled(w, live.size()); }
				w.must([&] { look(); return reg.reports.size() > before; }, "a report"); w.wait([] { return false; }, 0.01); before = reg.reports.size(); w.must([&] { look(); return reg.reports.size() >= before + 2; }, "a report is repeated at least every ten minutes without any event"); shim::long_wait_ms(0);
				for (double d : shim::take_timed_waits()) if (d > 300) CHECK(c, d <= 600.5, "the report would be repeated after %.1f s only", d);
				c.label("periodic"); // a wake ends the shortened wait
				if ((int)live.size() < n) { settled(w, live.size()); auto cl = w.connect(); w.get_challenge(cl); w.greet(cl, "K9X", "wrong"); w.expect_gone(cl, "wrong password"); w.leave(cl); } settled(w, live.size()); verify(live.size(), "after ten minutes"); }
		}
		settled(w, live.size()); verify(live.size(), "in the end");
		bool sd = w.acceptor.joinable(); c.note("close with %zu client(s)", live.size()); closing = true; if (sd) { w.shutdown(); } else if (c.chance(30)) w.bounded("proxy_shutdown", 5, [&] { proxy_shutdown(&w.ph); }), sd = true;
		if (sd && c.chance(50)) { // shut down but not closed: nobody can get in any more
			c.note("shut down, not closed yet"); auto told = [&] { look(); return !reg.reports.empty() && reg.reports.back()->status == "Busy" && !reg.busy(); }; bool ok = w.wait(told); if (ok) { reg.settle(); ok = told(); } CHECK(c, ok, "after proxy_shutdown with %zu client(s) the last report says %s", live.size(), quoted(reg.reports.back()->body, 300).c_str()); }
		w.close(); w.wait([&] { look(); return !reg.reports.empty() && reg.reports.back()->status == "Off" && !reg.busy(); }); reg.settle(); look(); CHECK(c, !reg.reports.empty() && reg.reports.back()->status == "Off", "the last report after closing says %s", reg.reports.empty() ? "nothing" : quoted(reg.reports.back()->body, 300).c_str()); wasoff = true;
		if (!sd && n > 1) CHECK(c, reg.reports.back()->total == n, "the Off report says [%ld/%ld]", reg.reports.back()->used, reg.reports.back()->total);
		bool off = false; for (size_t i = r0; i < reg.reports.size(); i++) { bool o = reg.reports[i]->status == "Off"; CHECK(c, o || !off, "after the Off report another one was sent: %s", quoted(reg.reports[i]->body, 300).c_str()); off |= o; }
		size_t at_close = reg.reports.size(); w.wait([] { return false; }, 0.003); CHECK(c, reg.reports.size() == at_close, "a report was sent after closing"); while (!live.empty()) { w.leave(live.back()); live.pop_back(); }
	}
	if (checks >= 3 && moves >= 2) c.nontrivial(); if (wasfull) c.label("was full"); if (rounds > 1) c.label("reopened"); if (reg.delay_us) c.label("slow registrar"); if (wide) c.label("ten or more slots"); w.down();
}
Property the_property = {"C18",
	"A case is a registered proxy with 1-4 (sometimes 10-12) slots, a registrar that answers (also slowly, with errors, garbage, hang-ups), and a history of logins (also simultaneous), leaves, refusals, surplus clients and drops with perturbed schedules, periodic repetition under shortened waits, closing and reopening (also with another number of slots). Oracle: whenever things settle the last report must equal the model's occupancy and status; a report at every start; Off last. Non-trivial: at least three such comparisons and two changes.",
	world_process_init, run, 1200, 150000, 60, {"'settled' excludes clients that have connected but not authenticated", "condition waits over 60 s are shortened for the periodic part; their length is checked to be at most 600 s"}};
