// C06: the stream to a client is always whole, well-formed messages
#include "common.hpp"
static void put(Bytes &b, uint32_t v) { for (int i = 0; i < 4; i++) b.push_back(v >> (8 * i)); }
static void run(Case &c) {
	World w(c); Conf cf; cf.slots = 1 + c.draw(2); cf.vary(c); bool shorts = c.chance(60);
	if (shorts) shim::short_send(10 + c.draw(90), c.draw(1000), c.chance(40) ? 0 : 1 + c.draw(200));
	if (c.chance(20)) shim::short_recv(10 + c.draw(80), c.draw(1000), c.chance(50) ? 0 : 1 + c.draw(60));
	gen_perturb(c, 60, 900);
	w.up(cf);
	auto p = w.peer(1), p2 = w.peer(2); int nc = 1 + c.draw(cf.slots); std::vector<ClientP> cls; auto q = w.peer(3, false);
	for (int i = 0; i < nc; i++) {
		auto cl = w.login(simple_call(i)); w.learn_slot(cl, q); cls.push_back(cl);
		if (c.chance(40)) { int sz = 2304 + c.draw(6000); setsockopt(cl->ep->fd, SOL_SOCKET, SO_RCVBUF, &sz, sizeof sz); c.note("client %d has a receive buffer of %d", i, sz); c.label("small window"); }
	}
	struct St { std::vector<Bytes> dg[2]; size_t at[2] = {0, 0}; Bytes tcp; size_t tcp_at = 0; bool open = false; size_t connno = 0; int opens = 0, statuses = 0, closes = 0, maxcloses = 0; };
	std::vector<St> st(nc); std::map<int, size_t> conns; bool faulted = false; uint32_t serial = 1; size_t total = 0;
	auto check = [&] {
		w.pump();
		for (int k = 0; k < nc; k++) {
			auto &cl = cls[k]; auto &s = st[k];
			for (; !cl->msgs.empty(); cl->msgs.pop_front()) {
				Msg &m = cl->msgs.front(); total++;
				if (m.type == UDP_DATA || m.type == UDP_CTL) {
					int t = m.type == UDP_CTL; size_t i = s.at[t];
					while (i < s.dg[t].size() && s.dg[t][i] != m.data) i++; // a datagram may be lost while the client does not read
					CHECK(c, i < s.dg[t].size(), "client %d: %s message of %zu bytes (%s) is none of the datagrams sent after the previous one", k, t ? "control" : "data", m.data.size(), hex(m.data.data(), m.data.size(), 24).c_str());
					s.at[t] = i + 1;
				} else if (m.type == TCP_DATA) {
					CHECK(c, s.tcp_at + m.data.size() <= s.tcp.size() && std::equal(m.data.begin(), m.data.end(), s.tcp.begin() + s.tcp_at), "client %d: TCP_DATA of %zu bytes (%s) is not what the remote host sent at offset %zu", k, m.data.size(), hex(m.data.data(), m.data.size(), 24).c_str(), s.tcp_at);
					s.tcp_at += m.data.size();
				} else if (m.type == TCP_STATUS) { s.statuses++; CHECK(c, s.statuses <= s.opens, "client %d: TCP_STATUS number %d for %d opens", k, s.statuses, s.opens); }
				else { s.closes++; CHECK(c, s.closes <= s.maxcloses, "client %d: TCP_CLOSE number %d, at most %d are due", k, s.closes, s.maxcloses); }
			}
			if (!faulted) CHECK(c, !cl->gone(), "client %d was disconnected (errno %d)", k, cl->ep->err);
		}
	};
	int ops = 2 + c.draw(c.thorough ? 70 : 30); size_t burst = 0;
	for (int i = 0; i < ops; i++) {
		int k = c.draw(nc); auto &cl = cls[k]; auto &s = st[k];
		switch (c.weighted({10, 8, 4, 3, 3, 3, 1})) {
		case 0: { // burst of datagrams to both ports
			int n = 1 + c.draw(6); size_t mx = c.pick(std::vector<size_t>{30, 4087, 600});
			c.note("%d datagrams of up to %zu bytes to slot %d", n, mx, cl->slot);
			for (int j = 0; j < n; j++) {
				int t = c.draw(2); Bytes b; put(b, serial++); size_t len = c.draw(mx - 4 + 1); Bytes r = c.blob(len); b.insert(b.end(), r.begin(), r.end());
				sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = w.slot_ip(cl->slot); a.sin_port = htons(t ? 5199 : 5198);
				s.dg[t].push_back(b); ::sendto(q->data->fd, b.data(), b.size(), 0, (sockaddr *)&a, sizeof a); burst++;
			}
			break; }
		case 1: { // remote TCP data
			if (!s.open) break; auto e = p->conns.size() > s.connno ? p->conns[s.connno] : nullptr; if (!e) { check(); if (p->conns.size() <= s.connno) break; e = p->conns[s.connno]; }
			size_t n = 1 + c.draw(c.pick(std::vector<size_t>{40, 5000, 20000})); Bytes b = c.blob(n); c.note("remote host of client %d sends %zu bytes", k, n);
			ssize_t r = ::send(e->fd, b.data(), n, MSG_NOSIGNAL | MSG_DONTWAIT); if (r > 0) s.tcp.insert(s.tcp.end(), b.begin(), b.begin() + r);
			break; }
		case 2: if (!s.open) { c.note("client %d: TCP_OPEN", k); s.open = true; s.opens++; s.connno = conns[1]++; s.maxcloses++; cl->ep->paused = false; cl->send(enc(TCP_OPEN, p->ip, {}));
				if (!w.wait([&] { check(); return p->conns.size() > s.connno || cl->gone(); })) c.fail("the connection was not made"); if (cl->gone()) goto end; }
			else { c.note("client %d: TCP_DATA", k); s.maxcloses++; cl->send(enc(TCP_DATA, 0, c.blob(1 + c.draw(300)))); } break;
		case 3: c.note("client %d: datagram", k); cl->send(enc(UDP_DATA, shim::ip(2, 90), c.blob(1 + c.draw(100)))); break;
		case 4: cl->ep->paused = !cl->ep->paused; c.note("client %d %s reading", k, cl->ep->paused ? "stops" : "resumes"); break;
		case 5: check(); if (c.chance(40)) { usleep(c.draw(1200)); } burst = 0; break;
		case 6: if (!shorts && !faulted && c.chance(30)) { faulted = true; int n = 1 + c.draw(12); shim::fault(shim::K_SEND, n, c.pick(std::vector<int>{ENOBUFS, ENOMEM, ETIMEDOUT})); c.note("send number %d from now fails", n); c.label("send fault"); } break;
		}
		if (burst > 12) { for (auto &x : cls) x->ep->paused = false; w.quiesce(0.5); check(); burst = 0; }
		bool end = false; for (auto &x : cls) if (x->gone()) end = true; if (end) { check(); break; }
	}
end:
	for (auto &x : cls) x->ep->paused = false;
	shim::fault_clear();
	if (!faulted) for (int k = 0; k < nc; k++) {
		auto &s = st[k]; int t0 = s.closes;
		w.must([&] { check(); return s.statuses == s.opens && s.tcp_at == s.tcp.size(); }, "answers and TCP data reach the client");
		if (s.open) cls[k]->send(enc(TCP_CLOSE, 0, {}));
		s.maxcloses++; cls[k]->send(enc(TCP_DATA, 0, {1})); // after the close: certainly answered
		w.must([&] { check(); return s.closes > t0; }, "reply to TCP_DATA without a connection");
	}
	w.quiesce();
	w.wait([&] { check(); for (auto &x : cls) if (x->ep->avail() && !x->gone()) return false; return true; });
	check();
	for (int k = 0; k < nc; k++) if (!faulted) CHECK(c, cls[k]->ep->avail() == 0, "client %d: the stream ends within a message: %s", k, hex(&cls[k]->ep->rx[cls[k]->ep->off], cls[k]->ep->avail()).c_str());
	if (total >= 5) c.nontrivial(); if (total >= 40) c.label("40 messages or more");
	w.down();
}
Property the_property = {"C06",
	"A case is 1-2 sessions to which bursts of datagrams on both ports, remote TCP data, status and close replies are sent at the same time, while the client stops and resumes reading (with small receive windows), writes to it are accepted only in part or fail, and the schedule is perturbed. Oracle: the byte stream parses as messages of types 2-6 of at most 4096 bytes; every payload is one of the datagrams sent (each at most once, in order) or the next bytes of the remote host; no more replies than are due; nothing is left over at the end. Non-trivial: at least 5 messages received.",
	world_process_init, run, 3000, 300000, 60,
	{"datagrams may be dropped by the kernel while a client does not read; an error in the middle of a partially accepted write is not generated"}};
