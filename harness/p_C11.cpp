// C11: no client or network input harms the proxy or other clients
#include "common.hpp"
static Bytes mutate(Case &c, Bytes b) {
	int k = c.draw(4);
	for (int i = 0; i < k && !b.empty(); i++) switch (c.draw(6)) {
		case 0: b[c.draw(b.size())] ^= 1 << c.draw(8); break;
		case 1: b[c.draw(b.size())] = c.pick(std::vector<uint8_t>{0, 255, '\n', '%', 127, 128, 1}); break;
		case 2: b.resize(c.draw(b.size() + 1)); break;
		case 3: { Bytes r = c.blob(1 + c.draw(12)); b.insert(b.begin() + c.draw(b.size() + 1), r.begin(), r.end()); break; }
		case 4: { size_t o = c.draw(b.size()), n = 1 + c.draw(b.size() - o); b.erase(b.begin() + o, b.begin() + o + n); break; }
		default: { size_t o = c.draw(b.size()), n = 1 + c.draw(std::min<size_t>(b.size() - o, 40)); Bytes r(b.begin() + o, b.begin() + o + n); b.insert(b.begin() + o, r.begin(), r.end()); }
		}
	return b;
}
struct At { ClientP cl; bool in = false; };
static void run(Case &c) {
	World w(c); w.parse_clients = true; Conf cf; cf.slots = 2 + c.draw(3); cf.vary(c); int n = cf.slots; cf.password = c.chance(30) ? gen_password(c) : "secret";
	if (c.chance(20)) cf.denied = c.pick(std::vector<std::string>{"^BAD", "(a+)+$", "\\d{3,}", "."}); if (cf.denied == ".") cf.denied = "X$";
	if (c.chance(20)) cf.allowed = c.pick(std::vector<std::string>{"^[A-Z0-9]", "", "^.{1,10}$", "K|W"});
	gen_perturb(c, 30, 500); if (c.chance(20)) shim::short_recv(10 + c.draw(60), c.draw(1000)); if (c.chance(20)) shim::short_send(10 + c.draw(60), c.draw(1000));
	w.up(cf); auto p = w.peer(1), q = w.peer(2); auto g = w.login("K1GOOD"); w.learn_slot(g, q); uint32_t serial = 1; int hostile = 0, lost = 0;
	auto good = [&] {
		Bytes out = {'G', 'O'}, in = {'G', 'I'}; for (int i = 0; i < 4; i++) { out.push_back(serial >> (8 * i)); in.push_back(serial >> (8 * i)); } serial++;
		g->send(enc(UDP_DATA, q->ip, out)); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = w.slot_ip(g->slot); a.sin_port = htons(5199);
		bool seen = false, got = false; ::sendto(q->data->fd, in.data(), in.size(), 0, (sockaddr *)&a, sizeof a);
		auto look = [&] {
			for (; !q->data->dg.empty(); q->data->dg.pop_front()) if (q->data->dg.front().data == out) { seen = true; CHECK(c, q->data->dg.front().src_ip == w.slot_ip(g->slot), "the well-behaved client's datagram came from another slot"); }
			for (; !g->msgs.empty(); g->msgs.pop_front()) { if (g->msgs.front().data == in) { got = true; CHECK(c, g->msgs.front().type == UDP_CTL && g->msgs.front().addr == q->ip, "the well-behaved client received %s", show(g->msgs.front()).c_str()); } CHECK(c, g->msgs.front().type >= UDP_DATA, "the well-behaved client received %s", show(g->msgs.front()).c_str()); }
			if (g->gone()) c.fail("the well-behaved client was disconnected (errno %d)", g->ep->err); return seen && got; };
		if (!w.wait(look)) c.fail("the well-behaved client's session no longer relays (%s)", !seen ? "its datagram was not sent" : "a datagram for it was not delivered");
		q->ctl->dg.clear(); p->data->dg.clear(); p->ctl->dg.clear(); shim::take_outside();
	};
	std::vector<At> at; auto drop = [&](size_t k, bool rst) { w.leave(at[k].cl, rst); at.erase(at.begin() + k); };
	auto addr = [&]() -> uint32_t { switch (c.draw(7)) { case 0: return p->ip; case 1: return shim::ip(2, 130); case 2: return c.bits(32); case 3: return 0; case 4: return 0xffffffffu; case 5: return shim::ip(0, 1); default: return w.slot_ip(c.draw(n)); } };
	auto settle_all = [&] { w.wait([&] { return shim::accepted_total() - shim::accepted_closed() <= 1 + at.size(); }); w.quiesce(2); };
	good();
	int ops = 2 + c.draw(c.thorough ? 60 : 24);
	for (int i = 0; i < ops; i++) {
		for (size_t k = 0; k < at.size();) { if (at[k].cl->gone()) { drop(k, true); lost++; } else k++; }
		int op = c.weighted({5, 5, 10, 3, 4, 3, 2, 3, 1});
		if (op == 2) { bool any = false; for (auto &x : at) any |= x.in; if (!any) op = 1; }
		if ((op == 0 || op == 1) && (int)at.size() + 1 >= n) { op = op == 1 ? 2 : 3; }
		if (op == 2) { bool any = false; for (auto &x : at) any |= x.in; if (!any) op = 3; }
		if (op == 3 && at.empty()) op = 4;
		switch (op) {
		case 0: { // before login
			auto cl = w.connect(); cl->parsing = false; if (c.chance(70)) w.wait([&] { return cl->ep->avail() >= 8 || cl->gone(); }, 3);
			Bytes b; if (c.chance(50)) b = c.blob(c.draw(c.chance(20) ? 5000 : 60)); else { std::string d; if (cl->ep->avail() >= 8) d.assign((char *)&cl->ep->rx[0], 8); else d = "00000000"; auto r = response_for(d, cf.password); std::string s = gen_callsign(c); b.assign(s.begin(), s.end()); b.push_back('\n'); b.insert(b.end(), r.begin(), r.end()); b = mutate(c, b); }
			c.note("unauthenticated client sends %zu bytes: %s", b.size(), hex(b.data(), b.size(), 40).c_str()); hostile++;
			cl->try_send(b.data(), b.size()); at.push_back({cl, false}); if (c.chance(50)) { w.quiesce(0.5); } if (c.chance(40)) { c.note("  and leaves"); drop(at.size() - 1, c.chance(60)); } break; }
		case 1: { settle_all(); auto cl = w.connect(); w.must([&] { return cl->ep->avail() >= 8 || cl->gone(); }, "challenge");
			CHECK(c, cl->ep->avail() >= 8, "a client was turned away although %zu of %d slots are in use", at.size() + 1, n); w.get_challenge(cl);
			std::string call = gen_callsign(c); auto r = response_for(cl->digits, cf.password); Bytes b(call.begin(), call.end()); b.push_back('\n'); b.insert(b.end(), r.begin(), r.end()); c.note("%s logs in", quoted(call).c_str()); cl->call = call; cl->send(b);
			w.quiesce(1); at.push_back({cl, true}); break; }
		case 2: { std::vector<size_t> in; for (size_t k = 0; k < at.size(); k++) if (at[k].in) in.push_back(k); auto cl = at[in[c.draw(in.size())]].cl; hostile++;
			Bytes b; int m = 1 + c.draw(5); std::string desc;
			for (int j = 0; j < m; j++) {
				uint8_t t = c.chance(85) ? 1 + c.draw(6) : c.bits(8); size_t real = c.length(6000, {0, 1, 4096, 4097}); if (c.chance(70)) real %= 100;
				uint32_t claim = real; if (c.chance(25)) claim = c.pick(std::vector<uint32_t>{0, 1, 4095, 4096, 4097, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffff7u, 65536, 100000});
				Bytes x = enc_hdr(t, addr(), claim), pl = c.blob(real); if (t == 1 || t == 3) pl.clear(); x.insert(x.end(), pl.begin(), pl.end()); if (t == 1 || t == 3) if (c.chance(80)) memset(&x[5], 0, 4);
				b.insert(b.end(), x.begin(), x.end()); desc += strf(" %d/%u/%zu", t, claim, pl.size());
			}
			if (c.chance(30)) { b = mutate(c, b); desc += " mutated"; }
			c.note("logged-in client sends messages (type/size/payload):%s", desc.c_str());
			size_t o = 0; while (o < b.size()) { size_t k = c.chance(70) ? b.size() - o : 1 + c.draw(b.size() - o); if (!cl->try_send(&b[o], k)) break; o += k; w.pump(); }
			break; }
		case 3: { size_t k = c.draw(at.size()); bool rst = c.chance(60); c.note("client %s", rst ? "resets" : "closes"); drop(k, rst); break; }
		case 4: { int k = 1 + c.draw(5); hostile++; for (int j = 0; j < k; j++) { size_t len = c.length(20000, {0, 0, 1, 4087, 4088, 4096, 65507}); if (c.chance(10)) len = 65507; int s = c.draw(n); if (s == g->slot) len = std::min<size_t>(len, 5000); Bytes b = c.blob(len); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = w.slot_ip(s); a.sin_port = htons(c.chance(50) ? 5198 : 5199); ::sendto(p->data->fd, b.data(), len, 0, (sockaddr *)&a, sizeof a); c.note("datagram of %zu bytes to slot %d", len, s); if (j % 3 == 2) w.quiesce(0.3); } w.quiesce(0.3); break; }
		case 5: { w.pump(); if (p->conns.empty()) break; auto e = c.pick(std::vector<std::shared_ptr<Ep>>(p->conns.begin(), p->conns.end())); if (e->fd < 0) break; hostile++; int how = c.draw(4); size_t len = how == 3 ? 300000 : c.draw(9000); Bytes b = c.blob(len); ssize_t r = ::send(e->fd, b.data(), len, MSG_NOSIGNAL | MSG_DONTWAIT); c.note("remote host sends %zd bytes%s", r, how == 0 ? " and resets" : how == 1 ? " and closes" : ""); if (how == 0) e->shut(); if (how == 1) ::shutdown(e->fd, SHUT_WR); break; }
		case 6: if (!at.empty()) { auto &x = at[c.draw(at.size())]; x.cl->ep->paused = !x.cl->ep->paused; c.note("a hostile client %s reading", x.cl->ep->paused ? "stops" : "resumes"); } break;
		case 7: c.note("the well-behaved client relays"); good(); break;
		case 8: { // connects and resets at once
			hostile++; int k = 1 + c.draw(3); c.note("%d connection(s) reset at once", k); for (int j = 0; j < k; j++) { auto cl = w.connect(); cl->parsing = false; w.leave(cl, true); } break; }
		}
	}
	c.note("the hostile clients leave"); while (!at.empty()) drop(at.size() - 1, c.chance(60));
	for (auto &e : p->conns) if (e->fd >= 0) e->shut();
	settle_all(); good();
	std::vector<ClientP> nw; for (int i = 0; i < n - 1; i++) { auto cl = w.connect(); w.must([&] { return cl->ep->avail() >= 8 || cl->gone(); }, "challenge of a new client"); CHECK(c, cl->ep->avail() >= 8, "new client %d of %d was turned away although the hostile clients have left; open: %s", i + 1, n - 1, shim::describe_open().c_str()); w.get_challenge(cl); w.greet(cl, simple_call(i), cf.password); w.confirm_in(cl); nw.push_back(cl); }
	q->ctl->dg.clear(); for (auto &cl : nw) { q->ctl->dg.clear(); w.learn_slot(cl, q); } good();
	if (hostile >= 2) c.nontrivial(); if (lost) c.label("session ended by the proxy");
	w.down();
}
Property the_property = {"C11",
	"A case is a proxy with 2-4 slots, one well-behaved session, and random hostile input: arbitrary and mutated greetings, mutated message streams with false sizes, unknown types and odd addresses, datagrams of 0 to 65507 bytes, remote hosts that flood, reset or half-close, clients that stop reading, connections reset at once. Oracle: AddressSanitizer and UBSan, the well-behaved session keeps relaying exactly, afterwards new clients fill every slot, closing finishes. Non-trivial: at least two hostile actions.",
	world_process_init, run, 5000, 400000, 60,
	{"callsign K<n>ABC and K1GOOD pass every generated pattern"}};
