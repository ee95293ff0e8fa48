// C13: nothing leaks, whatever happened
#include "common.hpp"
static void run(Case &c) {
	World w(c); shim::ledger_forget(); gen_perturb(c, 35, 600);
	int r = w.init(); CHECK(c, r == 0, "proxy_init failed: %d", r);
	std::map<std::string, shim::Res> ready; int rounds = 1 + c.draw(c.thorough ? 6 : 4), sessions = 0, failures = 0, logs = 0, refusals = 0;
	std::vector<Conf> confs; std::string medium = "none";
	auto same = [&](const shim::Res &want, const char *when, const char *ref) {
		shim::Res now; if (w.wait([&] { now = shim::res(); return shim::res_eq(now, want); }, 4)) return;
		c.fail("%s the proxy holds %s; %s it held %s; open: %s", when, shim::res_str(now).c_str(), ref, shim::res_str(want).c_str(), shim::describe_open().c_str()); };
	auto change_log = [&](bool sure) {
		int m = c.draw(sure ? 4 : 5); logs++; int r;
		switch (m) {
		case 0: r = proxy_log_select_medium(&w.ph, LOG_MEDIUM_NONE, nullptr); medium = "none"; break;
		case 1: r = proxy_log_select_medium(&w.ph, LOG_MEDIUM_SYSLOG, nullptr); medium = "syslog"; break;
		case 2: case 3: { int k = c.draw(3); r = proxy_log_select_medium(&w.ph, LOG_MEDIUM_FILE, (scratch_dir() + strf("/log%d", k)).c_str()); medium = strf("file"); break; }
		case 4: r = proxy_log_select_medium(&w.ph, LOG_MEDIUM_FILE, (scratch_dir() + "/no/such/dir/log").c_str()); CHECK(c, r < 0, "selecting a log file that cannot be opened returned %d", r); c.note("log to an impossible file"); return;
		}
		CHECK(c, r >= 0, "selecting a log medium failed: %d", r); c.note("log to %s", medium.c_str());
	};
	auto full = [&](Conf cf) { std::string e; for (auto [k, set] : std::vector<std::pair<std::string, bool>>{{"CallsignsAllowed", !cf.allowed.empty()}, {"CallsignsDenied", !cf.denied.empty()}, {"RegistrationName", !cf.reg_name.empty()}, {"RegistrationComment", !cf.reg_comment.empty()}, {"PublicAddress", !cf.public_addr.empty()}, {"AdditionalExternalBindAddresses", cf.slots > 1}}) if (!set) e += k + "=\n"; cf.extra = e + cf.extra; return cf; };
	proxy_log_level(&w.ph, LOG_LEVEL_DEBUG);
	for (int round = 0; round < rounds; round++) {
		Conf cf;
		if (!confs.empty() && c.chance(60)) cf = confs[c.draw(confs.size())]; else { cf.slots = 1 + c.draw(3); if (c.chance(40)) cf.denied = c.chance(40) ? "(*LIMIT_MATCH=20)^(?:Q+)+[!#]$|^BAD" : "^BAD"; if (c.chance(30)) cf.allowed = "^[A-Z]"; if (c.chance(30)) { cf.reg_name = "REG"; if (c.chance(50)) cf.reg_comment = "a comment"; if (c.chance(50)) cf.public_addr = "example.org"; } cf.vary(c, true); cf = full(cf); confs.push_back(cf); }
		if (c.chance(20)) change_log(false);
		int pre = c.draw(100);
		if (pre < 20) { // a configuration that is refused on loading
			Conf bad = cf; bad.extra += c.pick(std::vector<std::string>{"Port=abc\n", "Password=notset\n", "ConnectionTimeout=99999999999\n", "Port=70000\n"}); int rr = w.load(bad); CHECK(c, rr < 0, "a bad configuration was accepted"); failures++; c.note("bad configuration");
			if (c.chance(30)) { rr = proxy_load_conf(&w.ph, "/nonexistent/file"); CHECK(c, rr < 0, "a missing file was accepted"); }
		}
		for (int k = c.chance(20) ? 2 : 1; k > 0; k--) { r = w.load(cf); CHECK(c, r >= 0, "loading failed: %d", r); }
		// ---- failing openings
		if (c.chance(35)) {
			failures++; int how = c.draw(4), fd = -1; Conf bad = cf; auto before = shim::res();
			if (how == 0) { bad.extra += "CallsignsDenied=((\n"; } else if (how == 1) bad.extra += "CallsignsAllowed=[z-a]\n"; else if (how == 2) { fd = tcp_socket_from(bad.listen_ip()); ::close(fd); fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); int one = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = bad.listen_ip(); a.sin_port = htons(cf.port); CHECK(c, ::bind(fd, (sockaddr *)&a, sizeof a) == 0 && ::listen(fd, 1) == 0, "harness: %s", strerror(errno)); }
			else bad.extra += "BindAddress=192.0.2.1\n";
			if (how != 2) { r = w.load(bad); CHECK(c, r >= 0, "loading failed: %d", r); before = shim::res(); }
			if (medium == "none") proxy_log_select_medium(&w.ph, LOG_MEDIUM_FILE, "/dev/null"), before = shim::res(); r = proxy_open(&w.ph); CHECK(c, r < 0, "proxy_open succeeded although %s", how == 0 ? "a pattern is invalid" : how == 1 ? "a pattern is invalid" : how == 2 ? "its port is taken" : "its address is not local");
			c.note("opening fails (%s)", how == 0 ? "denied pattern" : how == 1 ? "allowed pattern" : how == 2 ? "port in use" : "address");
			auto after = shim::res(); CHECK(c, after.fds == before.fds && after.threads == before.threads && after.blocks <= before.blocks && after.files <= before.files && after.regexes <= before.regexes && after.addrinfos <= before.addrinfos, "a failed proxy_open left behind: before %s, after %s; open: %s", shim::res_str(before).c_str(), shim::res_str(after).c_str(), shim::describe_open().c_str());
			if (fd >= 0) ::close(fd);
			if (how != 2) { r = w.load(cf); CHECK(c, r >= 0, "loading failed: %d", r); }
			if (c.chance(20)) continue;
		}
		if (c.chance(30)) { change_log(true); change_log(false); } else proxy_log_select_medium(&w.ph, LOG_MEDIUM_FILE, "/dev/null"), medium = "file"; // closing deselects the medium
		int n = cf.slots; if (medium == "none") proxy_log_select_medium(&w.ph, LOG_MEDIUM_FILE, "/dev/null"), medium = "file"; r = proxy_open(&w.ph); CHECK(c, r >= 0, "proxy_open failed: %d", r); w.opened = true;
		if (c.chance(8)) { c.note("closed without being started"); w.close(); continue; }
		r = w.start(); CHECK(c, r >= 0, "proxy_start failed: %d", r); w.accept_loop(); c.note("round %d: %d slot(s)", round, n);
		w.quiesce();
		auto r0 = shim::res(); std::string key = cf.text() + medium; // how many blocks hold a configuration may depend on the one loaded before
		if (ready.count(key)) { auto want = ready[key]; w.wait([&] { auto x = shim::res(); want.blocks = x.blocks; return shim::res_eq(x, want); }, 3); same(want, "ready again with the same configuration", "the first time"); r0 = shim::res(); }
		ready[key] = r0;
		auto p = w.peer(1), dead = w.peer(2, false); std::vector<ClientP> live; int ops = c.draw(c.thorough ? 40 : 16);
		for (int i = 0; i < ops; i++) {
			for (size_t k = 0; k < live.size();) { if (live[k]->gone()) { w.leave(live[k], true); live.erase(live.begin() + k); } else k++; }
			int op = c.weighted({7, 3, 5, 3, 4, 3, 1, 2});
			if (op >= 2 && op <= 4 && live.empty()) op = 0;
			switch (op) {
			case 0: { auto cl = w.connect(); w.must([&] { return cl->ep->avail() >= 8 || cl->gone(); }, "challenge or close"); if (cl->ep->avail() < 8) { refusals++; c.note("turned away"); w.leave(cl); break; } w.get_challenge(cl); w.greet(cl, simple_call(c.draw(5)), cf.password); w.confirm_in(cl); live.push_back(cl); sessions++; c.note("%s logs in", cl->call.c_str()); break; }
			case 1: { auto cl = w.connect(); w.must([&] { return cl->ep->avail() >= 8 || cl->gone(); }, "challenge or close"); if (cl->ep->avail() < 8) { w.leave(cl); break; } w.get_challenge(cl); int how = c.draw(5); refusals++; c.note("a client %s", how == 0 ? "gives a wrong password" : how == 1 ? "has a bad callsign" : how == 2 ? "sends garbage" : how == 3 ? "leaves silently" : "leaves in the middle");
				if (how == 0) w.greet(cl, "K1X", "wrong"); else if (how == 1) { bool un = cf.denied.size() > 8; if (un) c.label("a pattern cannot be evaluated"); w.greet(cl, cf.denied.empty() ? "aVERYLONGCALLSIGN" : un ? "QQQQQQQQQQ" : "BAD1", cf.password); } else if (how == 2) cl->send(c.blob(60)); else if (how == 4) cl->send(std::string("K1ABC\n123"));
				if (c.chance(50)) w.wait([&] { return cl->gone(); }, how < 3 ? 1 : 0); w.leave(cl, c.chance(50)); break; }
			case 2: { auto cl = live[c.draw(live.size())]; int how = c.draw(4); uint32_t to = how == 0 ? dead->ip : how == 1 ? shim::ip(2, 99) : p->ip; c.note("%s opens a relayed connection%s", cl->call.c_str(), how < 2 ? " that is refused" : ""); if (how < 2) failures++; bool flt = c.chance(25); if (flt) { auto k = c.pick(std::vector<shim::Kind>{shim::K_SOCKET, shim::K_SETSOCKOPT, shim::K_BIND, shim::K_CONNECT, shim::K_GETADDRINFO}); failures++; w.quiesce(1); shim::fault(k, 1 + c.draw(2)); c.note("  with a failing %s", shim::kind_name[k]); } cl->send(enc(TCP_OPEN, to, {})); struct Clr { bool on; ~Clr() { if (on) shim::fault_clear(); } } clr{flt}; if (flt || c.chance(60)) w.wait([&] { for (auto &m : cl->msgs) if (m.type == TCP_STATUS) return true; return cl->gone(); }, 3); cl->msgs.clear(); if (c.chance(40)) cl->send(enc(TCP_DATA, 0, c.blob(1 + c.draw(3000)))); if (c.chance(30)) cl->send(enc(TCP_CLOSE, 0, {})); break; }
			case 3: { auto cl = live[c.draw(live.size())]; for (int k = c.draw(5); k >= 0; k--) cl->send(enc(c.chance(50) ? UDP_DATA : UDP_CTL, p->ip, c.blob(c.draw(600)))); break; }
			case 4: { size_t k = c.draw(live.size()); c.note("%s leaves", live[k]->call.c_str()); w.leave(live[k], c.chance(50)); live.erase(live.begin() + k); break; }
			case 5: { w.pump(); for (auto &e : p->conns) if (e->fd >= 0) { if (c.chance(50)) { Bytes b = c.blob(500); ::send(e->fd, b.data(), b.size(), MSG_NOSIGNAL | MSG_DONTWAIT); } if (c.chance(40)) { if (c.chance(50)) e->shut(); else ::shutdown(e->fd, SHUT_WR); } } break; }
			case 6: { c.note("proxy_drop"); w.bounded("proxy_drop", 10, [&] { proxy_drop(&w.ph); }); break; }
			case 7: { // idle in between
				c.note("everybody leaves"); while (!live.empty()) { w.leave(live.back(), c.chance(50)); live.pop_back(); } for (auto &e : p->conns) e->shut(); p->conns.clear(); settled(w, 0); same(ready[key], "idle again", "when it became ready"); break; }
			}
		}
		bool closefirst = c.chance(25);
		if (!closefirst) { while (!live.empty()) { w.leave(live.back(), c.chance(50)); live.pop_back(); } for (auto &e : p->conns) e->shut(); p->conns.clear(); settled(w, 0); same(ready[key], "idle again", "when it became ready"); }
		w.close(); for (auto &cl : live) w.leave(cl); for (auto &e : p->conns) e->shut(); p->conns.clear();
	}
	if (c.chance(20)) change_log(false);
	w.free(); shim::Res zero{}; same(zero, "after proxy_free", "before proxy_init");
	CHECK(c, shim::threads_running() == 0, "%ld threads still run after proxy_free", shim::threads_running()); CHECK(c, shim::bad_closes() == 0, "%ld descriptors were closed twice", shim::bad_closes());
	if (sessions && (refusals || failures || logs)) c.nontrivial(); if (failures) c.label("something failed"); if (logs) c.label("log changed"); if (refusals) c.label("refusals");
	w.down();
}
Property the_property = {"C13",
	"A case is a history of 1-4 rounds of loading (also refused configurations), failing openings (bad patterns, port in use, foreign address), opening, sessions, refusals, relayed connections that work or fail, remote resets, proxy_drop, log medium changes and closing, with perturbed schedules. Oracle: a ledger of every descriptor, thread, memory block, stdio file, compiled pattern and address list of the code: idle equals ready, ready equals the earlier ready with the same configuration, a failed opening leaves nothing, after proxy_free everything is zero, and no descriptor is closed twice. Non-trivial: sessions plus a refusal, failure or log change.",
	world_process_init, run, 3000, 200000, 60, {"memory blocks are counted at malloc/calloc/realloc/strdup/free of the code under test"}};
