// C10: sessions are isolated from each other and from their past
#include "common.hpp"
struct S { int id; ClientP cl; int slot = -1; bool alive = true, tcp = false, fuzzy = false; std::shared_ptr<Ep> conn; Bytes c2r, r2c; size_t got = 0; int closes = 0, maxcloses = 0; std::set<uint32_t> to_peer, to_client; };
static Bytes tag(Case &c, uint32_t id, uint32_t serial) { Bytes b = {'T', 'A', 'G', '!'}; for (int i = 0; i < 4; i++) b.push_back(id >> (8 * i)); for (int i = 0; i < 4; i++) b.push_back(serial >> (8 * i)); Bytes r = c.blob(c.draw(c.chance(20) ? 3000 : 40)); b.insert(b.end(), r.begin(), r.end()); return b; }
static bool untag(const Bytes &b, uint32_t &id, uint32_t &serial) { if (b.size() < 12 || memcmp(&b[0], "TAG!", 4)) return false; memcpy(&id, &b[4], 4); memcpy(&serial, &b[8], 4); return true; }
static void run(Case &c) {
	World w(c); Conf cf; cf.slots = 1 + c.draw(4); cf.vary(c); int n = cf.slots;
	gen_perturb(c, 50, 900); if (c.chance(20)) shim::short_send(10 + c.draw(60), c.draw(1000)); if (c.chance(20)) shim::short_recv(10 + c.draw(60), c.draw(1000));
	w.up(cf); auto p = w.peer(1), q = w.peer(2);
	std::vector<std::string> calls; for (int i = 0; i < 3; i++) calls.push_back(c.chance(50) ? c.pick(colliding_calls()) : simple_call(i));
	std::map<uint32_t, S> ss; uint32_t ids = 1, serial = 1; std::map<uint32_t, Bytes> body; std::set<uint32_t> arrived; size_t conns = 0; int ended = 0, reused = 0; std::set<int> usedslots; int inflight = 0;
	auto alive = [&] { std::vector<S *> v; for (auto &x : ss) if (x.second.alive) v.push_back(&x.second); return v; };
	auto collect = [&] {
		w.pump();
		for (int t = 0; t < 2; t++) { auto &dq = t ? p->ctl->dg : p->data->dg; for (; !dq.empty(); dq.pop_front()) {
			Dgram &d = dq.front(); uint32_t id, sn; CHECK(c, untag(d.data, id, sn) && ss.count(id), "a remote host received a datagram nobody sent: %s", hex(d.data.data(), d.data.size(), 24).c_str());
			S &s = ss[id]; CHECK(c, s.to_peer.count(sn) && body[sn] == d.data, "a remote host received datagram %u twice or altered", sn); s.to_peer.erase(sn);
			CHECK(c, d.src_ip == w.slot_ip(s.slot), "a datagram of session %u (slot %d) was sent from %s", id, s.slot, inet_ntoa(in_addr{d.src_ip})); } }
		for (auto &kv : ss) {
			S &s = kv.second; if (!s.alive) continue;
			for (; !s.cl->msgs.empty(); s.cl->msgs.pop_front()) {
				Msg &m = s.cl->msgs.front();
				if (m.type == UDP_DATA || m.type == UDP_CTL) {
					uint32_t id, sn; CHECK(c, untag(m.data, id, sn), "session %d received a datagram nobody sent: %s", s.id, show(m).c_str());
					CHECK(c, id == (uint32_t)s.id, "session %d (slot %d) received a datagram that was sent to %s", s.id, s.slot, id == 0 ? "an idle slot before the session began" : strf("session %u (slot %d%s)", id, ss[id].slot, ss[id].alive ? "" : ", ended").c_str());
					CHECK(c, s.to_client.count(sn) && body[sn] == m.data, "session %d received datagram %u twice or altered", s.id, sn); s.to_client.erase(sn);
				} else if (m.type == TCP_DATA) {
					CHECK(c, s.tcp && s.got + m.data.size() <= s.r2c.size() && std::equal(m.data.begin(), m.data.end(), s.r2c.begin() + s.got), "session %d received TCP data that its remote host did not send: %s", s.id, show(m).c_str()); s.got += m.data.size();
				} else if (m.type == TCP_CLOSE) { s.closes++; CHECK(c, s.closes <= s.maxcloses, "session %d received a TCP_CLOSE that is not due", s.id); }
				else c.fail("session %d received %s", s.id, show(m).c_str());
			}
			CHECK(c, !s.cl->gone(), "session %d ended by itself (errno %d)", s.id, s.cl->ep->err);
		}
		for (auto &kv : ss) { S &s = kv.second; if (s.conn) CHECK(c, s.conn->rx.size() <= s.c2r.size() && std::equal(s.conn->rx.begin(), s.conn->rx.end(), s.c2r.begin()), "the remote host of session %d received bytes its client did not send (%zu bytes %s)", s.id, s.conn->rx.size(), hex(s.conn->rx.data(), s.conn->rx.size(), 24).c_str()); }
	};
	auto sync = [&](const char *why) {
		for (auto s : alive()) s->cl->ep->paused = false;
		if (!w.wait([&] { collect(); for (auto s : alive()) { if (!s->to_peer.empty() || !s->to_client.empty()) return false; if (s->tcp && (s->got < s->r2c.size() || s->conn->rx.size() < s->c2r.size())) return false; } return true; }))
			for (auto s : alive()) { CHECK(c, s->to_peer.empty(), "%zu datagrams of session %d did not arrive (%s)", s->to_peer.size(), s->id, why); CHECK(c, s->to_client.empty(), "%zu datagrams for session %d did not arrive (%s)", s->to_client.size(), s->id, why); CHECK(c, s->got == s->r2c.size(), "session %d: TCP data did not arrive", s->id); CHECK(c, s->conn->rx.size() == s->c2r.size(), "session %d: TCP data did not reach the remote host", s->id); }
		inflight = 0;
	};
	auto to_slot = [&](int slot, uint32_t id) { int t = c.draw(2); Bytes b = tag(c, id, serial); body[serial] = b; if (id) ss[id].to_client.insert(serial); serial++; sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = w.slot_ip(slot); a.sin_port = htons(t ? 5199 : 5198); ::sendto(q->data->fd, b.data(), b.size(), 0, (sockaddr *)&a, sizeof a); inflight++; };
	int ops = 4 + c.draw(c.thorough ? 90 : 40);
	for (int i = 0; i < ops; i++) {
		collect(); auto al = alive(); int op = c.weighted({6, 6, 6, 5, 5, 4, 3, 2, 1});
		if (op != 0 && al.empty()) op = c.chance(60) ? 0 : 3;
		if (op == 0 && (int)al.size() >= n) op = 1 + c.draw(3);
		S *s = al.empty() ? nullptr : al[c.draw(al.size())];
		switch (op) {
		case 0: { S x; x.id = ids++; x.cl = w.login(c.pick(calls)); x.slot = w.learn_slot(x.cl, q);
			for (auto a : al) CHECK(c, a->slot != x.slot, "two sessions on slot %d", x.slot);
			if (!usedslots.insert(x.slot).second) reused++; c.note("session %d (%s) begins on slot %d", x.id, x.cl->call.c_str(), x.slot); ss[x.id] = x; break; }
		case 1: { Bytes b = tag(c, s->id, serial); body[serial] = b; s->to_peer.insert(serial++); c.note("session %d sends a datagram", s->id); s->cl->send(enc(c.chance(50) ? UDP_DATA : UDP_CTL, p->ip, b)); inflight++; break; }
		case 2: { int k = 1 + c.draw(4); c.note("%d datagram(s) to session %d", k, s->id); for (int j = 0; j < k; j++) to_slot(s->slot, s->id); break; }
		case 3: { std::set<int> busy; for (auto a : al) busy.insert(a->slot); std::vector<int> fr; for (int k = 0; k < n; k++) if (!busy.count(k)) fr.push_back(k); if (fr.empty()) break; int k = c.pick(fr); c.note("datagram to idle slot %d", k); 
			to_slot(k, 0); break; }
		case 4: if (!s->tcp && !s->closes) { c.note("session %d: TCP_OPEN", s->id); s->cl->send(enc(TCP_OPEN, p->ip, {}));
				s->cl->ep->paused = false; w.must([&] { w.pump(); for (auto &m : s->cl->msgs) if (m.type == TCP_STATUS) return true; return s->cl->gone(); }, "TCP_STATUS");
				for (size_t j = 0; j < s->cl->msgs.size(); j++) if (s->cl->msgs[j].type == TCP_STATUS) { CHECK(c, s->cl->msgs[j].data == Bytes(4, 0), "TCP_OPEN failed"); s->cl->msgs.erase(s->cl->msgs.begin() + j); break; }
				w.must([&] { return p->conns.size() > conns; }, "connection reaches the remote host"); s->conn = p->conns[conns++]; s->tcp = true; s->maxcloses = 0;
				sockaddr_in a{}; socklen_t al2 = sizeof a; getpeername(s->conn->fd, (sockaddr *)&a, &al2); CHECK(c, a.sin_addr.s_addr == w.slot_ip(s->slot), "the connection of session %d (slot %d) came from %s", s->id, s->slot, inet_ntoa(a.sin_addr));
			} else if (s->tcp) { Bytes b = c.blob(1 + c.draw(c.chance(20) ? 9000 : 60)); s->c2r.insert(s->c2r.end(), b.begin(), b.end()); c.note("session %d: TCP_DATA %zu bytes", s->id, b.size()); s->cl->send(enc(TCP_DATA, 0, b)); }
			break;
		case 5: if (s->tcp) { Bytes b = c.blob(1 + c.draw(c.chance(20) ? 9000 : 60)); ssize_t r = ::send(s->conn->fd, b.data(), b.size(), MSG_NOSIGNAL | MSG_DONTWAIT); if (r > 0) s->r2c.insert(s->r2c.end(), b.begin(), b.begin() + r); c.note("remote host of session %d sends %zd bytes", s->id, r); } break;
		case 6: { // end, possibly with things in transit
			int how = c.draw(4); c.note("session %d ends (%s)", s->id, how == 0 ? "reset" : how == 1 ? "end of stream" : how == 2 ? "invalid message" : "with messages in transit"); ended++;
			if (how == 3) { int k = 1 + c.draw(5); for (int j = 0; j < k; j++) to_slot(s->slot, s->id); if (s->tcp) { Bytes b = c.blob(200); ::send(s->conn->fd, b.data(), b.size(), MSG_NOSIGNAL | MSG_DONTWAIT); s->r2c.insert(s->r2c.end(), b.begin(), b.end()); } }
			if (how == 2) { s->cl->send(enc_hdr(9, 0, 0)); s->cl->ep->paused = false; w.expect_gone(s->cl, "it sent an invalid message"); }
			s->alive = false; w.leave(s->cl, how != 1); size_t left = alive().size();
			bool now = c.chance(40);
			if (now) { w.wait([&] { return shim::accepted_total() - shim::accepted_closed() == left; }); settled(w, left); }
			else settled(w, left);
			if (s->tcp && !w.wait([&] { collect(); return s->conn->gone(); })) c.fail("the relayed connection of session %d was not closed when the session ended", s->id);
			if (c.chance(50)) for (int port : {5198, 5199}) { int fd = ::socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = w.slot_ip(s->slot); a.sin_port = htons(port); int r = ::bind(fd, (sockaddr *)&a, sizeof a); ::close(fd); CHECK(c, r == 0, "port %d of idle slot %d is still in use after its session ended", port, s->slot); }
			s->to_client.clear(); break; }
		case 7: s->cl->ep->paused = !s->cl->ep->paused; c.note("client of session %d %s reading", s->id, s->cl->ep->paused ? "stops" : "resumes"); break;
		case 8: { c.note("all clients are dropped"); for (auto a : al) { a->cl->ep->paused = false; } sync("before dropping"); w.bounded("proxy_drop", 10, [&] { proxy_drop(&w.ph); });
			for (auto a : al) { w.expect_gone(a->cl, "proxy_drop"); a->alive = false; ended++; } for (auto a : al) w.leave(a->cl); settled(w, 0);
			for (auto a : al) if (a->tcp && !w.wait([&] { collect(); return a->conn->gone(); })) c.fail("the relayed connection of session %d was not closed when it was dropped", a->id); break; }
		}
		if (inflight > 12) sync("in between");
	}
	sync("at the end"); w.quiesce(); collect();
	if (ended && ss.size() >= 2) c.nontrivial(); if (reused) c.label("slot reused"); if (ended) c.label("ended");
	w.down();
}
Property the_property = {"C10",
	"A case is a history of overlapping and successive sessions over 1-4 slots: datagrams in both directions and relayed TCP, each item tagged with the session it belongs to, datagrams to idle slots, sessions ending by reset, end of stream, invalid message, with items in transit, or dropped. Oracle: every item arrives only at its own session (or remote host, from that session's slot), at most once, all of it for sessions still alive; after an end the relayed connection closes and the UDP ports can be bound by others. Non-trivial: at least two sessions, one of them ended.",
	world_process_init, run, 5000, 300000, 60,
	{"a datagram sent while a session is being set up is not generated"}};
