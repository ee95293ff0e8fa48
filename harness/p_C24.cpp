// C24: resource failures are reported, never crash
#include "common.hpp"
using shim::Kind;
static std::string confs(const proxy_conf &k) {
	auto s = [](const char *p) { return p ? "'" + std::string(p) + "'" : std::string("-"); };
	std::string t = s(k.password) + s(k.bind_addr) + s(k.bind_addr_ext) + s(k.calls_allowed) + s(k.calls_denied) + s(k.reg_name) + s(k.reg_comment) + s(k.public_addr) + strf("|%u|%u|%d", k.port, k.connection_timeout, k.bind_addr_ext_add_len);
	for (int i = 0; i < k.bind_addr_ext_add_len; i++) t += s(k.bind_addr_ext_add[i]); return t;
}
static void run(Case &c) {
	World w(c); shim::ledger_forget(); gen_perturb(c, 15, 400); int r; int nf = 0, fired = 0; std::string hits;
	Conf cf; cf.slots = 1 + c.draw(3); if (c.chance(40)) cf.denied = "^BAD"; if (c.chance(40)) cf.allowed = "^[A-Z]"; if (c.chance(40)) { cf.reg_name = "REG"; if (c.chance(50)) cf.reg_comment = "a comment"; if (c.chance(50)) cf.public_addr = "example.org"; }
	bool longl = c.chance(35); if (longl) { for (int i = c.draw(3); i >= 0; i--) cf.extra += (i & 1 ? "#" : "Unknown=") + std::string(100 + c.draw(500), 'x') + "\n"; if (cf.reg_name.size() && c.chance(50)) cf.reg_comment = std::string(100 + c.draw(300), 'c'); }
	int n = cf.slots; bool syslog = c.chance(15), filelog = !syslog && c.chance(50); c.note("%d slot(s)%s%s%s", n, cf.denied.empty() && cf.allowed.empty() ? "" : ", patterns", cf.reg_name.empty() ? "" : ", registration", filelog ? ", log file" : "");
	// fault f in phase p: failing call number drawn up to the number of such calls the phase makes
	static const std::vector<Kind> K_INIT = {shim::K_ALLOC, shim::K_MUTEXINIT, shim::K_CONDINIT, shim::K_FOPEN}, K_LOAD = {shim::K_ALLOC, shim::K_FOPEN}, K_OPEN = {shim::K_ALLOC, shim::K_MUTEXINIT, shim::K_CONDINIT, shim::K_SOCKET, shim::K_SETSOCKOPT, shim::K_BIND, shim::K_LISTEN, shim::K_GETADDRINFO, shim::K_REGEX}, K_START = {shim::K_THREAD, shim::K_ATTR, shim::K_ALLOC, shim::K_SOCKET, shim::K_CONNECT, shim::K_GETADDRINFO, shim::K_SEND, shim::K_MUTEXINIT};
	struct F { bool on = false; Kind k; long nth; };
	auto gen = [&](const std::vector<Kind> &ks, int pc, std::vector<unsigned> most) { F f; if (!c.chance(pc)) return f; f.on = true; size_t i = c.draw(ks.size()); f.k = ks[i]; f.nth = 1 + (c.chance(30) ? 0 : c.draw(i < most.size() ? most[i] : most.back())); return f; };
	auto arm = [&](const F &f) { if (!f.on) return; shim::count_reset(); shim::fault(f.k, f.nth, f.k == shim::K_SOCKET || f.k == shim::K_ACCEPT ? EMFILE : 0); nf++; };
	auto disarm = [&](const F &f, const char *phase, int r) { bool h = f.on && shim::fault_fired(); shim::fault_clear(); if (f.on) c.note("%s with failing %s number %ld: %s -> %d", phase, shim::kind_name[f.k], f.nth, h ? "failed" : "not reached", r); if (h) { fired++; c.label("%s: %s", phase, shim::kind_name[f.k]); } return h; };
	// ---- initialise
	F f = gen(K_INIT, 25, {12, 10, 10, 1}); arm(f); memset(&w.ph, 0, sizeof w.ph); r = proxy_init(&w.ph); bool hit = disarm(f, "initialise", r);
	CHECK(c, r >= 0 || hit, "proxy_init failed with %d although nothing failed", r);
	if (r < 0) { if (c.chance(60)) w.bounded("proxy_free", 10, [&] { proxy_free(&w.ph); }); auto z = shim::res(); CHECK(c, z.blocks == 0 && z.fds == 0 && z.files == 0, "a failed proxy_init and proxy_free left %s", shim::res_str(z).c_str()); if (!w.ph.priv) memset(&w.ph, 0, sizeof w.ph); r = proxy_init(&w.ph); CHECK(c, r >= 0, "proxy_init after a failed one returned %d", r); }
	w.inited = true; proxy_log_level(&w.ph, LOG_LEVEL_DEBUG);
	int rounds = 1 + (c.chance(30) ? 1 : 0);
	for (int round = 0; round < rounds; round++) {
		// ---- configure
		f = gen(K_LOAD, longl ? 50 : 25, {60, 1}); w.conf = cf; std::string path = scratch_file("proxy.conf", cf.text()); arm(f); r = proxy_load_conf(&w.ph, path.c_str()); hit = disarm(f, "configure", r); CHECK(c, r >= 0 || hit, "proxy_load_conf failed with %d although nothing failed", r);
		if (r >= 0) { // nothing may be missing
			if (hit) { proxy_handle q{}; CHECK(c, proxy_init(&q) == 0 && proxy_load_conf(&q, path.c_str()) == 0, "harness: reference"); std::string a = confs(w.ph.conf), b = confs(q.conf); proxy_free(&q); CHECK(c, a == b, "a failure while loading was reported as success, but the configuration is %s instead of %s", a.c_str(), b.c_str()); }
		} else { if (c.chance(25)) { w.free(); auto z = shim::res(); CHECK(c, shim::res_eq(z, shim::Res{}), "after a failed load and proxy_free: %s", shim::res_str(z).c_str()); memset(&w.ph, 0, sizeof w.ph); CHECK(c, w.init() == 0, "proxy_init"); proxy_log_level(&w.ph, LOG_LEVEL_DEBUG); } r = proxy_load_conf(&w.ph, path.c_str()); CHECK(c, r >= 0, "loading after a failed load returned %d", r); }
		// ---- open and start, until it works
		bool up = false;
		for (int tries = 0; !up; tries++) {
			if (syslog) proxy_log_select_medium(&w.ph, LOG_MEDIUM_SYSLOG, nullptr); else proxy_log_select_medium(&w.ph, LOG_MEDIUM_FILE, filelog ? (scratch_dir() + "/c24.log").c_str() : "/dev/null");
			auto before = shim::res(); f = tries > 2 ? F() : gen(K_OPEN, 35, {(unsigned)(8 + 30 * n), (unsigned)(12 * n), (unsigned)(8 * n), 1, 1, 1, 1, 1, 4}); arm(f); r = proxy_open(&w.ph); hit = disarm(f, "open", r); CHECK(c, r >= 0 || hit, "proxy_open failed with %d although nothing failed", r);
			if (r < 0) { auto a = shim::res(); CHECK(c, a.fds == before.fds && a.threads == before.threads && a.blocks <= before.blocks && a.files <= before.files && a.regexes <= before.regexes && a.addrinfos <= before.addrinfos, "a failed proxy_open left behind: before %s, after %s; open: %s", shim::res_str(before).c_str(), shim::res_str(a).c_str(), shim::describe_open().c_str());
				if (c.chance(20)) { w.free(); auto z = shim::res(); CHECK(c, shim::res_eq(z, shim::Res{}), "after a failed open and proxy_free: %s; %s", shim::res_str(z).c_str(), shim::describe_open().c_str()); memset(&w.ph, 0, sizeof w.ph); CHECK(c, w.init() == 0 && w.load(cf) >= 0, "starting over"); }
				continue; }
			w.opened = true; auto opened = shim::res();
			f = tries > 2 ? F() : gen(K_START, 40, {(unsigned)(5 * n + 2), (unsigned)(5 * n + 2), 6, 1, 1, 1, 1, 2}); arm(f); w.bounded("proxy_start", 10, [&] { r = proxy_start(&w.ph); }); if (r >= 0 && f.on && f.k != shim::K_THREAD && f.k != shim::K_ATTR) w.quiesce(1); hit = disarm(f, "start", r); CHECK(c, r >= 0 || hit, "proxy_start failed with %d although nothing failed", r);
			if (r >= 0) { up = true; break; }
			if (c.chance(35)) { c.note("freed right away"); w.opened = false; w.free(); auto z = shim::res(); CHECK(c, shim::res_eq(z, shim::Res{}) && shim::threads_running() == 0, "after a failed start and proxy_free: %s, %ld threads run; %s", shim::res_str(z).c_str(), shim::threads_running(), shim::describe_open().c_str()); memset(&w.ph, 0, sizeof w.ph); CHECK(c, w.init() == 0 && w.load(cf) >= 0, "starting over"); }
			else { w.close(); auto a = shim::res(); CHECK(c, a.threads == 0 && a.fds == 0 && shim::threads_running() == 0, "after a failed start and proxy_close: %s; %s", shim::res_str(a).c_str(), shim::describe_open().c_str()); }
		}
		w.accept_loop(); auto p = w.peer(1); p->data->dg.clear(); p->ctl->dg.clear(); for (auto &e : p->conns) e->shut(); p->conns.clear(); std::vector<ClientP> live;
		auto tcp = [&](ClientP &cl) { // a relayed connection works
			size_t before = p->conns.size(); cl->send(enc(TCP_OPEN, p->ip, {})); auto m = w.next(cl, "TCP_STATUS"); CHECK(c, m.type == TCP_STATUS && m.data == Bytes(4, 0), "the answer to TCP_OPEN is %s", show(m).c_str()); w.must([&] { return p->conns.size() > before; }, "relayed connection"); auto e = p->conns.back(); Bytes b = {'t', 'c', 'p', (uint8_t)cl->k}; cl->send(enc(TCP_DATA, 0, b)); w.must([&] { return e->avail() >= 4; }, "relayed bytes"); CHECK(c, e->rx == b, "relayed bytes are wrong"); ::send(e->fd, b.data(), 4, MSG_NOSIGNAL); Bytes got; while (got.size() < 4) { auto m = w.next(cl, "TCP_DATA"); CHECK(c, m.type == TCP_DATA, "unexpected %s", show(m).c_str()); got.insert(got.end(), m.data.begin(), m.data.end()); } CHECK(c, got == b, "relayed bytes are wrong"); cl->send(enc(TCP_CLOSE, 0, {})); m = w.next(cl, "TCP_CLOSE"); CHECK(c, m.type == TCP_CLOSE, "unexpected %s", show(m).c_str()); w.must([&] { return e->gone(); }, "end of the relayed connection"); };
		auto udp = [&](ClientP &cl, bool data) { auto e = data ? p->data : p->ctl; static uint32_t ser = 0; ser++; Bytes t = {'u', (uint8_t)ser, (uint8_t)(ser >> 8), (uint8_t)(ser >> 16)}; cl->send(enc(data ? UDP_DATA : UDP_CTL, p->ip, t)); w.must([&] { for (; !e->dg.empty(); e->dg.pop_front()) if (e->dg.front().data == t) return true; return cl->gone(); }, "relayed datagram"); CHECK(c, !e->dg.empty(), "%s was disconnected", cl->call.c_str()); uint32_t from = e->dg.front().src_ip; e->dg.pop_front(); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = from; a.sin_port = htons(data ? 5198 : 5199); ::sendto(e->fd, t.data(), t.size(), 0, (sockaddr *)&a, sizeof a); auto m = w.next(cl, "a datagram"); CHECK(c, m.type == (data ? UDP_DATA : UDP_CTL) && m.data == t, "delivered: %s", show(m).c_str()); return w.slot_ip_index(from); };
		auto all = [&](const char *why) { // every slot that is free serves a client completely
			std::set<int> used; for (auto &cl : live) used.insert(cl->slot); std::vector<ClientP> v; for (int i = live.size(); i < n; i++) { auto cl = w.connect(); w.must([&] { return cl->ep->avail() >= 8 || cl->gone(); }, "challenge"); CHECK(c, cl->ep->avail() >= 8, "%s: client %d of %d is turned away", why, i + 1, n); w.get_challenge(cl); w.greet(cl, simple_call(50 + i), cf.password); w.confirm_in(cl); cl->slot = udp(cl, false); CHECK(c, used.insert(cl->slot).second, "%s: slot %d is used twice", why, cl->slot); v.push_back(cl); }
			for (auto &cl : v) { udp(cl, true); tcp(cl); } for (auto &cl : v) w.leave(cl, c.index & 1); settled(w, live.size()); };
		// ---- serve
		if (n > 1 && c.chance(50)) { auto cl = w.login("W1TNS"); cl->slot = udp(cl, false); live.push_back(cl); }
		int serves = c.draw(c.thorough ? 8 : 5);
		for (int i = 0; i < serves; i++) {
			w.quiesce(1); f = gen({shim::K_ALLOC, shim::K_SEND, shim::K_RECV, shim::K_ACCEPT, shim::K_SETSOCKOPT, shim::K_SOCKET, shim::K_BIND, shim::K_GETADDRINFO, shim::K_CONNECT, shim::K_MUTEXINIT, shim::K_CONDINIT, shim::K_REGEX, shim::K_THREAD}, 90, {6, 14, 40, 2, 8, 3, 3, 4, 2, 4, 3, 1, 1}); int errs = w.acc_errs; arm(f);
			int stop = c.draw(9); bool gone = false; auto cl = w.connect(); auto alive = [&] { gone |= cl->gone(); return !gone; }; size_t conns = p->conns.size(); int slot = -1; cl->parsing = false;
			w.wait([&] { return cl->ep->avail() >= 8 || !alive(); }, 2);
			if (stop > 0 && cl->ep->avail() >= 8) { w.get_challenge(cl); bool good = c.chance(80); std::string call = good ? simple_call(c.draw(4)) : "bad"; if (!c.chance(85)) good = false, w.greet(cl, call, "wrong"); else w.greet(cl, call, cf.password); w.wait([&] { return !alive() || shim::fault_fired(); }, stop > 1 ? 0.005 : 0.05); 
				auto say = [&](const Bytes &b) { if (alive()) { cl->send(b); w.quiesce(0.3); } };
				if (stop > 1) say(enc(UDP_CTL, p->ip, {'x', 'y'})); for (auto &d : p->ctl->dg) if (w.slot_ip_index(d.src_ip) >= 0) slot = w.slot_ip_index(d.src_ip);
				if (stop > 2 && slot >= 0) { sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = w.slot_ip(slot); a.sin_port = htons(5199); for (int k = 0; k < 2; k++) ::sendto(p->ctl->fd, "ab", 2, 0, (sockaddr *)&a, sizeof a); a.sin_port = htons(5198); ::sendto(p->data->fd, "cd", 2, 0, (sockaddr *)&a, sizeof a); w.quiesce(0.3); }
				if (stop > 3) say(enc(TCP_OPEN, p->ip, {})); if (stop > 4) say(enc(TCP_DATA, 0, {1, 2, 3})); if (stop > 5 && p->conns.size() > conns) { ::send(p->conns.back()->fd, "hello", 5, MSG_NOSIGNAL | MSG_DONTWAIT); w.quiesce(0.3); } if (stop > 6) { if (c.chance(50)) say(enc(TCP_CLOSE, 0, {})); else if (p->conns.size() > conns) p->conns.back()->shut(), w.quiesce(0.3); } if (stop > 7) say(enc(TCP_OPEN, p->ip, {}));
			}
			bool before_leave = c.chance(70); if (before_leave) hit = disarm(f, "serve", 0); c.note("a client got to stage %d%s", stop, gone ? ", was disconnected" : ""); w.leave(cl, c.chance(50)); if (!before_leave) { w.quiesce(0.5); hit = disarm(f, "serve (leaving too)", 0); }
			if (hit && f.k == shim::K_ACCEPT && w.acc_errs == errs) { auto y = w.connect(); y->parsing = false; w.must([&] { return y->gone(); }, "the connection whose accept fails"); y->ep->shut(); }
			for (auto &e : p->conns) e->shut(); p->conns.clear(); settled(w, live.size()); p->ctl->dg.clear(); p->data->dg.clear();
			for (auto &x : live) { CHECK(c, !x->gone(), "another session was disconnected by the failure"); w.expect_none(x, "a session that did nothing"); int s = udp(x, c.chance(50)); CHECK(c, s == x->slot, "the other session changed its slot"); if (c.chance(50)) tcp(x); }
			if (c.chance(30)) all("after a failure");
		}
		all("at the end"); while (!live.empty()) { w.leave(live.back()); live.pop_back(); }
		// ---- close
		f = gen({shim::K_ALLOC, shim::K_SOCKET, shim::K_SEND, shim::K_GETADDRINFO, shim::K_CONNECT}, 25, {4, 1, 2, 1, 1}); arm(f); w.close(); disarm(f, "close", 0); auto a = shim::res(); CHECK(c, a.threads == 0 && a.fds == 0 && shim::threads_running() == 0, "after proxy_close: %s; %s", shim::res_str(a).c_str(), shim::describe_open().c_str());
	}
	w.free(); auto z = shim::res(); CHECK(c, shim::res_eq(z, shim::Res{}), "after proxy_free: %s; %s", shim::res_str(z).c_str(), shim::describe_open().c_str()); CHECK(c, shim::bad_closes() == 0, "%ld descriptors were closed twice", shim::bad_closes());
	if (fired) c.nontrivial(); if (fired > 1) c.label("several failures"); w.down();
}
Property the_property = {"C24",
	"A case takes one proxy (1-3 slots, patterns, registration, log file or syslog) through initialise, configure, open, start, serve and close, once or twice, and in each phase fails one generated call (memory, mutex, condition variable, thread, attribute, socket, option, bind, listen, accept, connect, address lookup, send, receive, file, pattern), any of the calls the phase makes. Oracle: a negative result or complete success (configuration compared with an undisturbed load, every slot serving UDP and TCP afterwards), a failed phase leaves no resource and can be repeated or the proxy freed to an all-zero ledger; while serving, other sessions go on relaying exactly and every slot serves later clients. Non-trivial: an injected failure was reached.",
	world_process_init, run, 4000, 200000, 90, {"the daemon's main loop ends on a failing accept by design; the library's serving is what is claimed"}};
