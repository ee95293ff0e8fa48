// C12: closing always completes, disconnects everyone, and allows reuse
#include "common.hpp"
static int try_bind(uint32_t ip, int port, int type) {
	int fd = ::socket(AF_INET, type | SOCK_CLOEXEC, 0), one = 1; sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = ip; a.sin_port = htons(port);
	if (type == SOCK_STREAM) setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
	int r = ::bind(fd, (sockaddr *)&a, sizeof a); if (r == 0 && type == SOCK_STREAM) r = ::listen(fd, 1); int e = r < 0 ? errno : 0; ::close(fd); return e;
}
struct Cl { ClientP cl; int st; bool tcp = false, slow = false; }; // st 1 before login, 2 in session, 3 sent something and may be anywhere
static void run(Case &c) {
	World w(c); int rounds = 1 + c.draw(3), sessions = 0, busy = 0, dropsn = 0; bool did_reuse = false;
	int r = w.init(); CHECK(c, r == 0, "proxy_init failed: %d", r);
	Conf cf; gen_perturb(c, 50, 900); if (c.chance(10)) shim::short_send(30, c.draw(1000));
	Hole hole; int regmode = c.chance(30) ? 1 + c.draw(3) : 0; std::shared_ptr<Ep> regl; // 0 refuses, 1 accepts and never answers, 2 accepts and hangs up, 3 does not answer the connection attempt
	Hole reghole; if (regmode == 3) { reghole = blackhole(c, 1, 4, 80); shim::socket_timeouts_div(100); }
	else if (regmode) { int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = shim::ip(4, 1); a.sin_port = htons(80); CHECK(c, ::bind(fd, (sockaddr *)&a, sizeof a) == 0 && ::listen(fd, 200) == 0, "harness: registrar: %s", strerror(errno)); regl = w.add(fd, false, true); regl->paused = true; shim::socket_timeouts_div(100); }
	auto hangup = [&] { if (regmode != 2) return; for (;;) { int a = ::accept4(regl->fd, nullptr, nullptr, SOCK_CLOEXEC); if (a < 0) break; ::close(a); } };
	for (int round = 0; round < rounds; round++) {
		if (round == 0 || c.chance(50)) { cf = Conf(); cf.slots = 1 + c.draw(4); cf.port = c.chance(50) ? 8100 : 9000 + (int)c.draw(20); cf.denied = "^BAD"; if (c.chance(50)) { cf.listen_d = 1 + c.draw(3); cf.ext_off = 10 * c.draw(3); if (c.chance(50)) cf.password = c.pick(std::vector<std::string>{"other", "PUBLIC", "secret2"}); } cf.extra = cf.slots == 1 ? "AdditionalExternalBindAddresses=\n" : ""; cf.vary(c, true); if (c.chance(regmode ? 70 : 15)) { cf.reg_name = "REG"; } else cf.extra += "RegistrationName=\n"; c.note("round %d: configuration with %d slot(s), listening on address %d, port %d, external addresses from %d, password %s%s", round, cf.slots, cf.listen_d, cf.port, cf.ext_off + 1, cf.password.c_str(), cf.reg_name.empty() ? "" : regmode == 0 ? ", registrar refuses" : regmode == 1 ? ", registrar never answers" : regmode == 2 ? ", registrar hangs up" : ", registrar cannot be reached"); CHECK(c, (r = w.load(cf)) == 0, "proxy_load_conf failed: %d", r); }
		else c.note("round %d: same configuration", round);
		if (round) did_reuse = true;
		int n = cf.slots; auto base = shim::res();
		CHECK(c, (r = w.open()) == 0, "proxy_open failed (%d) in round %d", r, round);
		int stage = c.weighted({1, 1, 12}); // opened, started, serving
		if (stage >= 1) CHECK(c, (r = w.start()) == 0, "proxy_start failed (%d) in round %d", r, round);
		if (stage >= 2) w.accept_loop();
		std::vector<Cl> live; PeerP p; if (stage >= 2) { p = w.peer(1); p->data->dg.clear(); p->ctl->dg.clear(); for (auto &e : p->conns) e->shut(); p->conns.clear(); }
		auto gone_all = [&](const char *why) { for (auto &x : live) { x.cl->ep->paused = false; x.cl->parsing = false; } for (auto &x : live) if (!w.wait([&] { return x.cl->gone(); })) c.fail("a client (%s) is still connected after %s", x.st == 1 ? "before login" : x.st == 2 ? "in session" : "during login", why); };
		auto forget = [&] { while (!live.empty()) { w.leave(live.back().cl, true); live.pop_back(); } };
		auto slot_of = [&](ClientP cl) { static uint32_t ser = 0; Bytes t = {'T', 'A', 'G', '!'}; ser++; for (int i = 0; i < 4; i++) t.push_back(ser >> (8 * i)); cl->send(enc(UDP_CTL, p->ip, t)); bool got = false; w.must([&] { for (; !p->ctl->dg.empty(); p->ctl->dg.pop_front()) if (p->ctl->dg.front().data == t) { cl->slot = w.slot_ip_index(p->ctl->dg.front().src_ip); got = true; } return got; }, "a relayed datagram"); };
		auto usable = [&] { // exactly n clients can log in and relay
			settled(w, 0); for (auto &e : p->conns) e->shut(); p->conns.clear(); p->data->dg.clear(); p->ctl->dg.clear();
			std::set<int> used; for (int i = 0; i < n; i++) { auto cl = w.connect(); w.must([&] { return cl->ep->avail() >= 8 || cl->gone(); }, "challenge"); CHECK(c, cl->ep->avail() >= 8, "client %d of %d is turned away (round %d)", i + 1, n, round); w.get_challenge(cl); w.greet(cl, simple_call(i), cf.password); w.confirm_in(cl); w.learn_slot(cl, p); CHECK(c, cl->slot < n, "a client uses external address %d of %d", cl->slot + 1, n); CHECK(c, used.insert(cl->slot).second, "slot %d is used twice", cl->slot); live.push_back({cl, 2}); sessions++; }
			for (auto &x : live) { // relays in both directions
				Bytes t = {'a', (uint8_t)x.cl->slot}; x.cl->send(enc(UDP_DATA, p->ip, t)); w.must([&] { return !p->data->dg.empty(); }, "relayed datagram"); CHECK(c, p->data->dg.front().data == t && p->data->dg.front().src_ip == w.slot_ip(x.cl->slot), "a relayed datagram is wrong"); p->data->dg.pop_front();
				sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = w.slot_ip(x.cl->slot); a.sin_port = htons(5198); ::sendto(p->data->fd, t.data(), 2, 0, (sockaddr *)&a, sizeof a); auto m = w.next(x.cl, "a datagram"); CHECK(c, m.type == UDP_DATA && m.data == t, "delivered: %s", show(m).c_str()); }
		};
		int ops = stage < 2 ? 0 : c.draw(c.thorough ? 24 : 12); bool hole_used = false;
		for (int i = 0; i < ops; i++) {
			for (size_t k = 0; k < live.size();) { if (live[k].cl->gone()) { w.leave(live[k].cl, true); live.erase(live.begin() + k); } else k++; }
			hangup(); int op = c.weighted({4, 7, 4, 4, 3, 2, 2, 3, 2}); std::vector<size_t> in; for (size_t k = 0; k < live.size(); k++) if (live[k].st == 2 && !live[k].slow) in.push_back(k);
			if ((op == 0 || op == 1) && (int)live.size() >= n) op = 3; if (op >= 2 && op <= 5 && in.empty()) continue;
			switch (op) {
			case 0: { auto cl = w.connect(); int how = c.draw(3); c.note("a client connects%s", how == 1 ? " and sends half a greeting" : how == 2 ? " and sends its whole greeting" : ""); w.wait([&] { return cl->ep->avail() >= 8 || cl->gone(); }, 3); live.push_back({cl, 1}); if (how == 1) cl->send(std::string(c.chance(50) ? "K1" : "K1ABC\n\1\2")); if (how == 2 && cl->ep->avail() >= 8) { w.get_challenge(cl); w.greet(cl, c.chance(80) ? "K1ABC" : "BAD", c.chance(80) ? cf.password : "x"); live.back().st = 3; } break; }
			case 1: { auto cl = w.connect(); w.wait([&] { return cl->ep->avail() >= 8 || cl->gone(); }); if (cl->ep->avail() < 8) { w.leave(cl); break; } // a client that is just leaving may still count
				w.get_challenge(cl); w.greet(cl, simple_call(c.draw(4)), cf.password); w.confirm_in(cl); live.push_back({cl, 2}); sessions++; c.note("%s logs in", cl->call.c_str()); break; }
			case 2: { auto &x = live[in[c.draw(in.size())]]; if (x.tcp) break; c.note("%s opens a relayed TCP connection", x.cl->call.c_str()); size_t before = p->conns.size(); x.cl->send(enc(TCP_OPEN, p->ip, {})); x.tcp = true; if (c.chance(70)) w.wait([&] { return p->conns.size() > before; }); break; }
			case 3: { auto &x = live[in[c.draw(in.size())]]; w.pump(); busy++; x.slow = true; // traffic nobody reads
				int how = c.draw(3);
				if (how == 0) { x.cl->ep->paused = true; c.note("%s stops reading while datagrams and TCP data arrive", x.cl->call.c_str()); slot_of(x.cl); Bytes b = c.blob(4000); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = w.slot_ip(x.cl->slot); a.sin_port = htons(5198); for (int j = 0; j < 30; j++) ::sendto(p->data->fd, b.data(), b.size(), MSG_DONTWAIT, (sockaddr *)&a, sizeof a); Bytes big = c.blob(60000); for (auto &e : p->conns) if (e->fd >= 0) for (int j = 0; j < 60; j++) if (::send(e->fd, big.data(), big.size(), MSG_NOSIGNAL | MSG_DONTWAIT) <= 0) { usleep(200); } }
				else if (how == 1) { if (!x.tcp) { x.slow = false; break; } c.note("%s floods a remote host that does not read", x.cl->call.c_str()); for (auto &e : p->conns) e->paused = true; Bytes b = enc(TCP_DATA, 0, c.blob(60000)); for (int j = 0; j < 80; j++) { if (!x.cl->try_send(b.data(), b.size())) { usleep(300); if (j > 20) break; } } }
				else { if (hole_used || x.tcp) { x.slow = false; break; } hole_used = true; if (hole.lis < 0) hole = blackhole(c, 77); c.note("%s opens a connection to a host that does not answer", x.cl->call.c_str()); x.cl->send(enc(TCP_OPEN, shim::ip(2, 77), {})); x.tcp = true; w.quiesce(1.5); }
				break; }
			case 4: { auto &x = live[in[c.draw(in.size())]]; Bytes b; for (int j = 0, k = c.draw(6); j <= k; j++) { auto m = enc(c.chance(50) ? UDP_DATA : UDP_CTL, p->ip, c.blob(1 + c.draw(3000))); b.insert(b.end(), m.begin(), m.end()); } if (c.chance(40)) { b.resize(b.size() - 1); x.slow = true; } c.note("%s sends %zu bytes of datagrams", x.cl->call.c_str(), b.size()); x.cl->try_send(b.data(), b.size()); break; }
			case 5: { size_t k = in[c.draw(in.size())]; c.note("%s leaves", live[k].cl->call.c_str()); w.leave(live[k].cl, c.chance(50)); live.erase(live.begin() + k); break; }
			case 6: if (!live.empty()) { size_t k = c.draw(live.size()); c.note("a client is reset"); w.leave(live[k].cl, true); live.erase(live.begin() + k); } break;
			case 7: { dropsn++; c.note("proxy_drop with %zu client(s)", live.size()); if (hole_used) w.quiesce(1.5); w.bounded("proxy_drop", 10, [&] { proxy_drop(&w.ph); }); gone_all("proxy_drop"); forget(); if (c.chance(60)) { c.note("all slots are used again"); usable(); if (c.chance(50)) { forget(); settled(w, 0); } } break; }
			case 8: { w.wait([] { return false; }, 0.001 * c.draw(5)); break; }
			}
		}
		if (c.chance(70)) { w.wait([] { return false; }, 0.0005 * c.draw(10)); } else w.quiesce(1);
		if (hole_used) w.quiesce(1.5);
		// ---- shut down
		bool explicit_shutdown = c.chance(60), dropfirst = c.chance(15);
		if (dropfirst) { c.note("proxy_drop before closing"); w.bounded("proxy_drop", 10, [&] { proxy_drop(&w.ph); }); }
		if (explicit_shutdown && stage >= 2) {
			c.note("shutdown"); uint64_t acc0 = shim::accepted_total(); w.shutdown(); if (c.chance(20)) w.bounded("second proxy_shutdown", 5, [&] { proxy_shutdown(&w.ph); });
			// nobody gets in any more
			int fd = tcp_socket_from(shim::ip(3, 250)); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = cf.listen_ip(); a.sin_port = htons(cf.port); int k = ::connect(fd, (sockaddr *)&a, sizeof a);
			if (k == 0) { auto e = w.add(fd, false, false); w.wait([&] { return e->avail() || e->gone(); }, 0.02); CHECK(c, e->avail() == 0, "a client was challenged after proxy_shutdown"); e->shut(); } else ::close(fd);
			// a call made after the shutdown returns as well and lets nobody in
			int pr = 0; w.bounded("proxy_process after proxy_shutdown", 8, [&] { pr = proxy_process(&w.ph); }); CHECK(c, pr < 0, "proxy_process returned %d although the proxy is shut down", pr);
			(void)acc0;
		}
		c.note("close with %zu client(s)", live.size()); uint64_t t0 = mono_ns();
		w.close(); double secs = (mono_ns() - t0) / 1e9; (void)secs;
		gone_all("proxy_close");
		for (auto &e : (p ? p->conns : std::deque<std::shared_ptr<Ep>>())) { if (e->fd < 0) continue; e->paused = false; if (!w.wait([&] { return e->gone(); })) c.fail("a relayed TCP connection is still open after proxy_close"); }
		auto after = shim::res(); CHECK(c, after.threads == base.threads && after.fds == base.fds, "after proxy_close: %s; before proxy_open: %s; open: %s", shim::res_str(after).c_str(), shim::res_str(base).c_str(), shim::describe_open().c_str());
		for (int s = 0; s < n; s++) for (int port : {5198, 5199}) { int e = try_bind(w.slot_ip(s), port, SOCK_DGRAM); CHECK(c, e == 0, "UDP port %d of slot %d is still bound after proxy_close (%s)", port, s, strerror(e)); }
		{ int e = try_bind(cf.listen_ip(), cf.port, SOCK_STREAM); CHECK(c, e == 0, "the listening port is still bound after proxy_close (%s)", strerror(e)); }
		forget(); close_hole(hole); for (auto &e : w.eps) if (!e->dgram && !e->listener) e->shut();
	}
	// works as new
	if (c.chance(60)) {
		c.note("reopened once more"); int r2 = w.open(); CHECK(c, r2 == 0, "reopening failed: %d", r2); r2 = w.start(); CHECK(c, r2 == 0, "restarting failed: %d", r2); w.accept_loop(); did_reuse = true;
		auto p = w.peer(1); p->ctl->dg.clear(); p->data->dg.clear(); std::vector<ClientP> v;
		for (int i = 0; i < cf.slots; i++) { auto cl = w.login(simple_call(10 + i)); w.learn_slot(cl, p); CHECK(c, cl->slot == i, "after reopening the first callers get slot %d instead of %d", cl->slot, i); v.push_back(cl); sessions++; }
		auto ex = w.connect(); w.must([&] { return ex->ep->avail() || ex->gone(); }, "one client too many is closed"); CHECK(c, ex->ep->avail() == 0, "after reopening more clients than slots are served"); w.leave(ex);
		for (auto &cl : v) CHECK(c, !cl->gone(), "a client was disconnected");
	}
	if (sessions && (busy || dropsn || did_reuse)) c.nontrivial(); if (busy) c.label("someone does not read"); if (dropsn) c.label("dropped"); if (did_reuse) c.label("reopened"); if (hole.lis >= 0) close_hole(hole);
	w.down(); if (reghole.lis >= 0) close_hole(reghole);
}
// the client is dropped after its TCP_OPEN has been read but before connect() has begun: shutdown() has no effect on the
// connect, which goes on for minutes when the host does not answer, and the slot stays in use as long
static bool drop_before_connect(Case &c) {
	World w(c); Conf cf; w.up(cf); auto cl = w.login("K1ABC"); Hole h = blackhole(c, 77); shim::perturb_at(shim::K_CONNECT, 1, 400000);
	cl->send(enc(TCP_OPEN, shim::ip(2, 77), {})); w.wait([] { return (shim::delays_active > 0); }, 3); bool in = (shim::delays_active > 0); proxy_drop(&w.ph); w.expect_gone(cl, "proxy_drop"); w.leave(cl);
	bool got = false; for (int i = 0; i < 8 && !got; i++) { w.wait([] { return false; }, 0.25); auto x = w.connect(); w.wait([&] { return x->ep->avail() >= 8 || x->gone(); }, 3); got = x->ep->avail() >= 8; w.leave(x); }
	w.quiesce(0.3); proxy_drop(&w.ph); w.down(); close_hole(h); return in && !got;
}
Property the_property = {"C12",
	"A case is 1-3 rounds of open, start, serve and close of one proxy (sometimes with a new configuration), each closed, shut down or dropped from a random state: clients silent, half-way or just logging in, sessions, relayed connections (also to hosts that do not answer), clients and remote hosts that stop reading while data arrives, truncated messages, perturbed schedules. Oracle: every call finishes within its bound, proxy_process returns an error after shutdown, nobody is challenged afterwards, every client and relayed connection ends, descriptors and threads as before, all ports can be bound, and after dropping or reopening exactly n clients log in and relay. Non-trivial: a session existed and something did not read, was dropped, or the proxy was reopened.",
	world_process_init, run, 2000, 200000, 90, {"time bounds: 10-12 s per call"}, {{"drop-before-connect", "a client dropped between its TCP_OPEN and the start of connect() to a host that does not answer keeps its slot until that connect times out", drop_before_connect}}};
