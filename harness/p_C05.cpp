// C05: TCP relay: faithful byte streams and one clear life cycle
#include "common.hpp"
struct Rec { // one TCP_OPEN (number 0: before the first)
	PeerP peer; size_t connno = 0; bool ok = false, fault = false;
	Bytes to_remote, from_remote;
	int sure = 0, maybe = 0;         // TCP_DATA that must / may be answered by TCP_CLOSE
	bool client_closed = false, remote_ended = false, loose_in = false, loose_out = false;
	bool ended() const { return client_closed || remote_ended; }
};
struct Seg { bool status = false, zero = false; Bytes data; int closes = 0; }; // as seen by the client
struct Sess {
	Case &c; World &w; ClientP cl; std::vector<Rec> recs; std::vector<Seg> segs; size_t udp_got = 0, udp_sent = 0;
	bool dirty_in = false; int unsynced = 0; std::map<int, size_t> conn_of; int slot = 0;
	Sess(Case &c, World &w) : c(c), w(w) { recs.emplace_back(); segs.emplace_back(); }
	Rec &cur() { return recs.back(); }
	std::shared_ptr<Ep> conn(const Rec &r) { return r.ok && r.peer->conns.size() > r.connno ? r.peer->conns[r.connno] : nullptr; }
	void take() {
		w.pump();
		for (; !cl->msgs.empty(); cl->msgs.pop_front()) {
			Msg &m = cl->msgs.front();
			if (m.type == UDP_DATA || m.type == UDP_CTL) { udp_got++; continue; }
			if (m.type == TCP_STATUS) {
				CHECK(c, segs.size() < recs.size(), "%zu TCP_STATUS for %zu TCP_OPEN", segs.size(), recs.size() - 1);
				const Rec &before = recs[segs.size() - 1];
				if (before.ok) CHECK(c, segs.back().closes > 0, "TCP_STATUS number %zu came before the TCP_CLOSE of connection %zu", segs.size(), segs.size() - 1);
				Seg s; s.status = true; s.zero = m.data == Bytes(4, 0); segs.push_back(s);
				const Rec &r = recs[segs.size() - 1];
				CHECK(c, s.zero == r.ok, "TCP_STATUS of open %zu is %s, but the connection %s", segs.size() - 1, hex(m.data.data(), 4).c_str(), r.ok ? "can be made" : "cannot be made");
				continue;
			}
			size_t i = segs.size() - 1; Seg &s = segs.back(); const Rec &r = recs[i];
			if (m.type == TCP_CLOSE) { s.closes++; int most = r.sure + r.maybe + (r.ok && (r.ended() || i + 1 < recs.size()) ? 1 : 0) + (i + 1 == recs.size() && r.ok ? unsynced : 0);
				CHECK(c, s.closes <= most, "TCP_CLOSE number %d after open %zu, at most %d are due", s.closes, i, most); continue; }
			CHECK(c, m.type == TCP_DATA, "unexpected message %s", show(m).c_str());
			CHECK(c, i > 0 && s.zero, "TCP_DATA although no connection is open (open %zu): %s", i, show(m).c_str());
			CHECK(c, r.ok && s.closes == 0, "TCP_DATA after the TCP_CLOSE of connection %zu: %s", i, show(m).c_str());
			size_t o = s.data.size();
			bool fit = o + m.data.size() <= r.from_remote.size() && std::equal(m.data.begin(), m.data.end(), r.from_remote.begin() + o);
			CHECK(c, fit, "connection %zu: %zu bytes at offset %zu (%s) are not what the remote host sent there (%s, %zu in all)", i, m.data.size(), o, hex(m.data.data(), m.data.size(), 16).c_str(), o < r.from_remote.size() ? hex(&r.from_remote[o], r.from_remote.size() - o, 16).c_str() : "nothing", r.from_remote.size());
			s.data.insert(s.data.end(), m.data.begin(), m.data.end());
		}
		CHECK(c, !cl->gone(), "the session ended (errno %d)", cl->ep->err);
		for (size_t i = 0; i < recs.size(); i++) {
			auto e = conn(recs[i]); if (!e) continue; const Rec &r = recs[i];
			bool fit = e->rx.size() <= r.to_remote.size() && std::equal(e->rx.begin(), e->rx.end(), r.to_remote.begin());
			CHECK(c, fit, "connection %zu: the remote host received %zu bytes that are not a prefix of the %zu sent", i, e->rx.size(), r.to_remote.size());
		}
	}
	std::string state() { Rec &r = cur(); Seg &s = segs.back(); auto e = conn(r); return strf("open %zu of %zu answered, last: %s, %zu of %zu bytes to client, %zu of %zu to remote, %d TCP_CLOSE (due %d, perhaps %d)", segs.size() - 1, recs.size() - 1, r.ok ? "connected" : "no connection", s.data.size(), r.from_remote.size(), e ? e->rx.size() : 0, r.to_remote.size(), s.closes, r.sure + (r.ok && r.ended()), r.maybe); }
	void waitfor(const char *what, const std::function<bool()> &f) { auto g = [&] { take(); return f(); }; if (cl->ep->paused && w.wait(g, 0.03)) return; cl->ep->paused = false; if (!w.wait(g)) c.fail("did not happen: %s (%s)", what, state().c_str()); }
	bool settled() {
		if (segs.size() < recs.size()) return false;
		Rec &r = cur(); Seg &s = segs.back(); auto e = conn(r);
		if (r.ok && !e) return false;
		if (s.closes < r.sure + (r.ok && r.ended() ? 1 : 0)) return false;
		if (r.ok && !r.loose_in && s.data.size() < r.from_remote.size()) return false;
		if (r.ok && !r.loose_out && e->rx.size() < r.to_remote.size()) return false;
		if (r.ok && r.ended() && e->fd >= 0 && !e->gone()) return false;
		return true;
	}
	void sync() { waitfor("everything in transit arrives", [&] { return settled(); }); dirty_in = false; if (!cur().ended()) unsynced = 0; }
	void raw(const Bytes &b) {
		size_t o = 0; uint64_t dl = mono_ns() + 30000000000ull;
		while (o < b.size()) {
			ssize_t r = ::send(cl->ep->fd, &b[o], b.size() - o, MSG_NOSIGNAL | MSG_DONTWAIT);
			if (r > 0) { o += r; continue; }
			if (errno != EAGAIN) c.fail("the session broke: %s", strerror(errno));
			cl->ep->paused = false;
			take(); if (mono_ns() > dl) c.fail("the proxy stopped reading from the client");
			usleep(200);
		}
	}
	void open(PeerP p, uint32_t addr, bool ok) {
		Rec &o = cur();
		if (o.ok && !o.client_closed) { if (dirty_in) o.loose_in = o.loose_out = true; if (o.remote_ended) { if (dirty_in) o.loose_in = true; } o.maybe += o.remote_ended ? 0 : 0; o.client_closed = true; }
		Rec r; r.peer = p; r.ok = ok; if (ok) r.connno = conn_of[p->k]++; recs.push_back(r); dirty_in = false; unsynced = 0;
		raw(enc(TCP_OPEN, addr, {}));
	}
	void data(const Bytes &pl) {
		Rec &r = cur();
		if (!pl.empty()) {
			if (!r.ok || r.client_closed || (r.remote_ended && segs.size() == recs.size() && segs.back().closes > r.sure + r.maybe)) r.sure++;
			else if (r.remote_ended) { r.maybe++; r.to_remote.insert(r.to_remote.end(), pl.begin(), pl.end()); r.loose_out = true; }
			else { unsynced++; r.to_remote.insert(r.to_remote.end(), pl.begin(), pl.end()); }
		}
		raw(enc(TCP_DATA, (uint32_t)c.bits(32), pl));
	}
	void close() {
		Rec &r = cur(); if (r.ok && !r.client_closed) { if (dirty_in) r.loose_in = r.loose_out = true; r.client_closed = true; }
		raw(enc(TCP_CLOSE, 0, {}));
	}
	bool remote_live() { Rec &r = cur(); auto e = conn(r); return r.ok && !r.ended() && e && e->fd >= 0; }
	void remote_data(const Bytes &pl) {
		Rec &r = cur(); auto e = conn(r); r.from_remote.insert(r.from_remote.end(), pl.begin(), pl.end()); dirty_in = true;
		size_t o = 0; uint64_t dl = mono_ns() + 30000000000ull;
		while (o < pl.size()) {
			ssize_t k = ::send(e->fd, &pl[o], pl.size() - o, MSG_NOSIGNAL | MSG_DONTWAIT);
			if (k > 0) { o += k; continue; }
			if (errno != EAGAIN) c.fail("the relayed connection broke: %s", strerror(errno));
			cl->ep->paused = false; take(); if (mono_ns() > dl) c.fail("the proxy stopped reading from the remote host"); usleep(200);
		}
	}
	void remote_end(int how) { // 0 half close, 1 reset
		Rec &r = cur(); auto e = conn(r); r.remote_ended = true; r.maybe += unsynced; if (unsynced) r.loose_out = true;
		if (how == 0) ::shutdown(e->fd, SHUT_WR); else { r.loose_in |= dirty_in; r.loose_out = true; e->shut(); }
		unsynced = 0;
	}
};
static std::string dot(uint32_t a) { return inet_ntoa(in_addr{a}); }
// a foreign address, of any length in writing
static uint32_t foreign(Case &c) {
	uint32_t a = 0; bool tiny = c.chance(20), huge = !tiny && c.chance(25);
	for (int i = 0; i < 4; i++) { unsigned o; switch (tiny ? 0 : huge ? 2 : c.draw(4)) { case 0: o = c.draw(10); break; case 1: o = 10 + c.draw(90); break; case 2: o = 100 + c.draw(156); break; default: o = c.pick(std::vector<int>{255, 0, 1, 9, 10, 99, 100, 200, 224, 254}); } a = a << 8 | o; }
	if (a >> 24 == 127) a -= 1u << 24; if (!a) a = 0x01020304; return htonl(a);
}
static void run(Case &c) {
	World w(c); Conf cf; cf.slots = 1 + c.draw(3); cf.vary(c);
	if (c.chance(35)) shim::short_send(10 + c.draw(80), c.draw(1000), c.chance(50) ? 0 : 1 + c.draw(60));
	if (c.chance(35)) shim::short_recv(10 + c.draw(80), c.draw(1000), c.chance(50) ? 0 : 1 + c.draw(60));
	gen_perturb(c, 50, 800);
	w.up(cf);
	std::vector<PeerP> peers; for (int i = 1; i <= 2; i++) peers.push_back(w.peer(i));
	for (int i = (int)c.draw(cf.slots); i > 0; i--) w.login(simple_call(50 + i)); // others, idle
	Sess s(c, w); s.cl = w.login("W1AW"); s.slot = w.learn_slot(s.cl, peers[0]); c.note("session on slot %d of %d", s.slot, cf.slots);
	int ops = 2 + c.draw(c.thorough ? 60 : 28); bool refopen = false, quick = false; std::vector<uint32_t> away; int lastop = -1; size_t big = 0;
	for (int i = 0; i < ops; i++) {
		s.take(); bool live = s.cur().ok && !s.cur().ended();
		int op = live ? c.weighted({2, 9, 9, 5, 5, 6, 2, 2, 1}) : c.weighted({10, 2, 0, 2, 0, 4, 1, 1});
		if ((op == 2 || op == 4)) { if (!live) continue; if (!s.remote_live()) s.waitfor("the connection reaches the remote host", [&] { return s.segs.size() >= 1 && s.conn(s.cur()) != nullptr; }); }
		switch (op) {
		case 0: {
			int kind = c.weighted({10, 2, 1, 2}); PeerP p = c.pick(peers);
			if (lastop == 3 || lastop == 0) { quick = true; c.label("reopened at once"); }
			if (kind == 0) { uint32_t a = p->ip; if (c.chance(30)) { a = foreign(c); shim::redirect(a, p->ip); away.push_back(a); c.label("foreign address"); } c.note("TCP_OPEN to listening host %d, %s", p->k, inet_ntoa(in_addr{a})); s.open(p, a, true); if (a != p->ip) { s.waitfor("the connection reaches the remote host", [&] { return s.conn(s.cur()) != nullptr; }); shim::redirect(0, 0); }
				if (c.chance(40)) { c.note("  which sends a banner as soon as it is connected"); s.waitfor("the connection reaches the remote host", [&] { return s.conn(s.cur()) != nullptr; }); s.remote_data(c.blob(1 + c.draw(60))); } }
			else if (kind == 1) { c.note("TCP_OPEN to a host that does not listen"); refopen = true; s.open(p, shim::ip(2, 100 + c.draw(50)), false); }
			else if (kind == 2) { uint32_t a = foreign(c); away.push_back(a); c.note("TCP_OPEN to unreachable %s", inet_ntoa(in_addr{a})); refopen = true; s.open(p, a, false); }
			else { shim::Kind k = c.pick(std::vector<shim::Kind>{shim::K_CONNECT, shim::K_SOCKET, shim::K_BIND}); c.note("TCP_OPEN while %s fails", shim::kind_name[k]); refopen = true; s.waitfor("earlier opens are answered", [&] { return s.segs.size() == s.recs.size(); }); shim::fault(k, 1, ENETDOWN); s.open(p, p->ip, false); s.waitfor("the open is answered", [&] { return s.segs.size() == s.recs.size(); }); shim::fault_clear(); }
			break; }
		case 1: { size_t n = c.length(c.thorough ? 120000 : 30000, {0, 1, 4086, 4087, 4096, 4097, 8192, 8193}); if (c.chance(60)) n %= 300; big = std::max(big, n); c.note("client: TCP_DATA, %zu bytes", n); s.data(c.blob(n)); break; }
		case 2: { size_t n = 1 + c.length(c.thorough ? 200000 : 40000, {1, 4086, 4087, 4096, 8174, 8192}); if (c.chance(60)) n = 1 + n % 300; big = std::max(big, n); c.note("remote host sends %zu bytes", n); s.remote_data(c.blob(n)); break; }
		case 3: c.note("client: TCP_CLOSE"); s.close(); break;
		case 4: { int how = c.draw(3); c.note("remote host %s", how == 0 ? "closes" : how == 1 ? "closes once everything has arrived" : "resets"); if (how == 1) s.sync();
			if (how == 2) s.waitfor("the open is answered", [&] { return s.segs.size() == s.recs.size(); }); // a reset that overtakes the answer may make connect fail
			s.remote_end(how == 2 ? 1 : 0); break; }
		case 5: c.note("wait for everything to arrive"); s.cl->ep->paused = false; s.sync(); break;
		case 6: { c.note("datagram to the client"); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = w.slot_ip(s.slot); a.sin_port = htons(5198); uint8_t b[3] = {1, 2, 3}; ::sendto(peers[0]->data->fd, b, 3, 0, (sockaddr *)&a, sizeof a); s.udp_sent++; break; }
		case 8: { // the kernel refuses to send to the remote host, which is alive
			s.cl->ep->paused = false; s.sync(); s.waitfor("datagrams arrive", [&] { return s.udp_got >= s.udp_sent; }); w.quiesce(); s.take(); if (!s.remote_live()) break;
			int e = c.pick(std::vector<int>{ENETDOWN, EHOSTUNREACH, ETIMEDOUT, ENOBUFS, EPIPE}); size_t n = 1 + c.length(20000, {1, 4096, 4097}); c.note("client: TCP_DATA, %zu bytes, which cannot be sent on (%s)", n, strerror(e)); c.label("relay refused by the kernel");
			Rec &r = s.cur(); r.maybe++; PeerP p = r.peer; Bytes pl = c.blob(n);
			if (c.chance(60)) { // while data of the remote host are being forwarded
				shim::Kind k = c.pick(std::vector<shim::Kind>{shim::K_LOCK, shim::K_UNLOCK, shim::K_RECV, shim::K_SEND}); long nth = 1 + c.draw(8); unsigned us = 200 + c.draw(3000); c.note("  the remote host has just sent something (delay %u us at %s number %ld)", us, shim::kind_name[k], nth); c.label("relay refused while data arrive");
				shim::perturb_at(k, nth, us); s.remote_data(c.blob(1 + c.length(20000, {1, 4086, 4087}))); r.loose_in = r.loose_out = true; usleep(c.draw(us)); }
			r.client_closed = true; shim::refuse_send(p->ip, e); s.raw(enc(TCP_DATA, 0, pl)); s.waitfor("after a failed relay the client gets TCP_CLOSE and the remote host the end", [&] { return s.settled(); }); bool fired = shim::fault_fired(); shim::refuse_send(p->ip, 0); CHECK(c, fired, "the data were not sent on"); break; }
		case 7: s.cl->ep->paused = !s.cl->ep->paused; c.note("client %s reading", s.cl->ep->paused ? "stops" : "resumes"); break;
		}
		lastop = op;
		if (c.chance(15)) { usleep(c.draw(1500)); c.note("(a moment passes)"); }
	}
	s.cl->ep->paused = false;
	c.note("end: wait for everything, then TCP_CLOSE"); s.sync();
	if (s.cur().ok && !s.cur().ended()) { s.close(); s.sync(); }
	// the session is as good as new
	s.data(Bytes{1}); s.waitfor("TCP_CLOSE in reply to TCP_DATA without a connection", [&] { return s.segs.back().closes >= s.cur().sure + (s.cur().ok ? 1 : 0); });
	s.waitfor("datagrams arrive", [&] { return s.udp_got >= s.udp_sent; });
	w.quiesce(); s.take();
	CHECK(c, s.udp_got == s.udp_sent, "%zu datagrams delivered, %zu sent", s.udp_got, s.udp_sent);
	w.wait([&] { s.take(); return s.cl->ep->avail() == 0; }); // part of a message may still be held back by the TCP stack
	CHECK(c, s.cl->ep->avail() == 0, "incomplete message at the end: %s", hex(&s.cl->ep->rx[s.cl->ep->off], s.cl->ep->avail()).c_str());
	size_t oks = 0;
	for (size_t i = 0; i < s.recs.size(); i++) {
		Rec &r = s.recs[i]; Seg &g = s.segs[i]; int least = r.sure + (r.ok ? 1 : 0);
		CHECK(c, g.closes >= least && g.closes <= least + r.maybe, "open %zu: %d TCP_CLOSE, must be %d to %d", i, g.closes, least, least + r.maybe);
		if (!r.ok) continue;
		oks++; auto e = s.conn(r);
		if (!r.loose_in) CHECK(c, g.data == r.from_remote, "connection %zu: the client received %zu of the %zu bytes the remote host sent before TCP_CLOSE", i, g.data.size(), r.from_remote.size());
		s.waitfor("the connection has reached the remote host", [&] { e = s.conn(r); return e != nullptr; });
		if (e->fd >= 0) {
			s.waitfor("the remote host sees the end of the connection", [&] { return e->gone(); });
			if (!r.loose_out) { CHECK(c, e->rx == r.to_remote, "connection %zu: the remote host received %zu of %zu bytes", i, e->rx.size(), r.to_remote.size()); CHECK(c, e->eof, "connection %zu: the remote host saw error %d instead of the end of the stream", i, e->err); }
			sockaddr_in a{}; socklen_t n = sizeof a; if (getpeername(e->fd, (sockaddr *)&a, &n) == 0) CHECK(c, a.sin_addr.s_addr == w.slot_ip(s.slot), "connection %zu came from %s", i, inet_ntoa(a.sin_addr));
		}
	}
	auto out = shim::take_outside(); CHECK(c, out.size() == away.size(), "%zu connections to foreign addresses instead of %zu", out.size(), away.size());
	for (size_t i = 0; i < out.size(); i++) CHECK(c, out[i].tcp && out[i].dst_ip == away[i] && out[i].dst_port == 5200 && out[i].local_ip == w.slot_ip(s.slot), "%s to %s:%d from %s where a connection to %s:5200 was asked for", out[i].tcp ? "a connection" : "a datagram", dot(out[i].dst_ip).c_str(), out[i].dst_port, dot(out[i].local_ip).c_str(), dot(away[i]).c_str());
	size_t arrived = 0; for (auto &p : peers) arrived += p->conns.size();
	CHECK(c, arrived == oks, "%zu connections were made for %zu successful opens", arrived, oks);
	if (c.chance(10)) { // data announced with far more than can follow: what has arrived is sent on
		PeerP p = c.pick(peers); s.open(p, p->ip, true); Rec &r = s.cur(); s.waitfor("the connection reaches the remote host", [&] { return s.segs.size() == s.recs.size() && s.conn(r) != nullptr; }); auto e = s.conn(r);
		uint32_t size = c.chance(60) ? c.pick(std::vector<uint32_t>{0x7fffffffu, 0x80000000u, 0x80001000u, 0xfffff000u, 0xffffffffu, 0x40000000u}) : 0x40000000u + (uint32_t)c.bits(30) * 3; int k = 1 + c.draw(4); Bytes pl = c.blob(k * 4096 + (c.chance(50) ? c.draw(4096) : 0)); c.note("TCP_DATA announced with %u bytes, %zu of them follow", size, pl.size());
		Bytes m = enc(TCP_DATA, 0, {}); memcpy(&m[5], &size, 4); m.insert(m.end(), pl.begin(), pl.end()); s.raw(m); w.must([&] { return e->rx.size() >= (size_t)k * 4096 || e->gone() || s.cl->gone(); }, "the beginning of a large message");
		CHECK(c, e->rx.size() >= (size_t)k * 4096 && e->rx.size() <= pl.size() && !memcmp(e->rx.data(), pl.data(), e->rx.size()), "of a message of %u bytes %zu bytes arrived and %zu were sent on%s", size, pl.size(), e->rx.size(), e->gone() ? ", then the connection ended" : ""); CHECK(c, !s.cl->gone(), "the session ended within a large message"); c.label("announced with 1 GiB or more");
	}
	if (oks && s.recs.size() > 2) c.nontrivial();
	if (refopen) c.label("failed open"); if (quick) c.label("no wait between connections"); if (big > 4096) c.label("large data");
	w.down();
}
Property the_property = {"C05",
	"A case is a random history of one session's TCP relay: opens to listening, silent and unreachable hosts and with injected failures, data both ways (up to 40000 bytes a time), TCP_CLOSE, data announced with 1 to 4 GiB of which only the beginning arrives, half close and reset by the remote host, relayed sends refused by the kernel, replacing opens, with or without waiting in between, a client that stops reading, partial writes and reads, perturbed schedules. Oracle: model of the history: one TCP_STATUS per open and its value, data a prefix of / equal to what was sent, number and position of TCP_CLOSE, end of stream at the remote host, source address. Non-trivial: at least two opens, one successful.",
	world_process_init, run, 6000, 300000, 90,
	{"data in flight towards a side that resets, or that closes without having read everything, may be lost (TCP semantics)"}};
