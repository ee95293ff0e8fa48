// C07: how a client's bytes are segmented never matters
#include "common.hpp"
struct Obs {
	std::map<std::pair<int, bool>, std::vector<Bytes>> dg; std::vector<std::string> outside; std::map<int, std::vector<std::pair<Bytes, bool>>> tcp; std::vector<std::string> replies; Bytes raw; bool gone = false;
	bool operator==(const Obs &o) const { return dg == o.dg && outside == o.outside && tcp == o.tcp && replies == o.replies && raw == o.raw && gone == o.gone; }
	std::string diff(const Obs &o) const {
		std::string s;
		if (gone != o.gone) s += strf("session %s / %s; ", gone ? "ended" : "stays", o.gone ? "ended" : "stays");
		if (raw != o.raw) s += "before login: " + hex(raw.data(), raw.size()) + " / " + hex(o.raw.data(), o.raw.size()) + "; ";
		if (replies != o.replies) { s += "replies:"; for (auto &r : replies) s += " " + r; s += " /"; for (auto &r : o.replies) s += " " + r; s += "; "; }
		if (outside != o.outside) s += strf("datagrams to foreign hosts: %zu / %zu; ", outside.size(), o.outside.size());
		auto d = [](const Obs &x) { std::string t; for (auto &k : x.dg) { t += strf(" host %d %s:", k.first.first, k.first.second ? "control" : "data"); for (auto &b : k.second) t += strf(" %zu(%s)", b.size(), hex(b.data(), b.size(), 4).c_str()); } return t; };
		if (dg != o.dg) s += "datagrams:" + d(*this) + " /" + d(o) + "; ";
		auto t = [](const Obs &x) { std::string t; for (auto &k : x.tcp) for (auto &b : k.second) t += strf(" host %d: %zu bytes (%s)%s", k.first, b.first.size(), hex(b.first.data(), b.first.size(), 6).c_str(), b.second ? " ended" : ""); return t; };
		if (tcp != o.tcp) s += "connections:" + t(*this) + " /" + t(o) + "; ";
		return s;
	}
};
static void run(Case &c) {
	World w(c); Conf cf; cf.slots = 3; cf.password = gen_password(c, 40); cf.vary(c);
	bool forced = c.chance(50); uint32_t v = c.bits(31); if (forced) shim::force_rand({v, v, v});
	gen_perturb(c, 25, 400);
	w.up(cf); std::vector<PeerP> peers; for (int i = 1; i <= 2; i++) peers.push_back(w.peer(i));
	std::vector<Obs> obs(2); std::map<uint32_t, int> who; // source address -> run
	std::map<int, size_t> seen_conn; std::vector<std::pair<std::shared_ptr<Ep>, std::pair<int, int>>> cs; // connection, (run, peer)
	std::vector<ClientP> cl(2); bool admitted = false;
	auto collect = [&] {
		w.pump();
		auto run_of = [&](uint32_t a) { auto i = who.find(a); if (i == who.end()) { int s = w.slot_ip_index(a); CHECK(c, s >= 0, "traffic came from %s", inet_ntoa(in_addr{a})); int r = cl[1] ? 1 : 0; who[a] = r; return r; } return i->second; };
		for (auto &p : peers) {
			for (int t = 0; t < 2; t++) { auto &q = t ? p->ctl->dg : p->data->dg; for (; !q.empty(); q.pop_front()) obs[run_of(q.front().src_ip)].dg[{p->k, (bool)t}].push_back(q.front().data); }
			for (size_t &i = seen_conn[p->k]; i < p->conns.size(); i++) { sockaddr_in a{}; socklen_t n = sizeof a; getpeername(p->conns[i]->fd, (sockaddr *)&a, &n); if (n == 0 || !a.sin_addr.s_addr) { cs.push_back({p->conns[i], {cl[1] ? 1 : 0, p->k}}); continue; } cs.push_back({p->conns[i], {run_of(a.sin_addr.s_addr), p->k}}); }
		}
		for (auto &o : shim::take_outside()) obs[run_of(o.local_ip)].outside.push_back(strf("%s:%d %s", inet_ntoa(in_addr{o.dst_ip}), o.dst_port, hex(o.data.data(), o.data.size(), 9999).c_str()));
		for (auto &o : obs) o.tcp.clear();
		for (auto &x : cs) obs[x.second.first].tcp[x.second.second].push_back({x.first->rx, x.first->gone()});
		for (int r = 0; r < 2; r++) if (cl[r]) {
			auto &k = cl[r]; obs[r].gone = k->gone();
			if (!admitted) { obs[r].raw.assign(k->ep->rx.begin() + k->ep->off, k->ep->rx.end()); continue; }
			for (; !k->msgs.empty(); k->msgs.pop_front()) { Msg &m = k->msgs.front(); obs[r].replies.push_back(m.type == TCP_STATUS ? (m.data == Bytes(4, 0) ? "connected" : "not-connected") : m.type == TCP_CLOSE ? "closed" : show(m)); }
		}
	};
	// ---- the bytes
	std::string call = gen_callsign(c); int ending = c.weighted({8, 2, 2, 2}); // 0 open, 1 wrong answer, 2 invalid message, 3 cut off
	admitted = ending != 1; std::vector<Bytes> parts; bool tcp = false; size_t total = 0;
	std::string script = strf("callsign %s", quoted(call).c_str());
	if (ending != 1) {
		int n = 1 + c.draw(c.thorough ? 24 : 12);
		for (int i = 0; i < n; i++) {
			PeerP p = c.pick(peers); size_t len = c.length(c.thorough ? 20000 : 9000, {0, 1, 4095, 4096, 4097, 8192}); if (c.chance(70)) len %= 120; if (total > 20000) len %= 50;
			switch (c.weighted({8, 4, 4, 6, 3, 1})) {
			case 0: { bool ctl = c.chance(40); parts.push_back(enc(ctl ? UDP_CTL : UDP_DATA, p->ip, c.blob(len))); total += len; script += strf("; %s %zu bytes to host %d", ctl ? "control" : "data", len, p->k); break; }
			case 1: { uint32_t a = htonl(0x0a000000 | c.bits(24)); parts.push_back(enc(UDP_DATA, a, c.blob(len))); script += strf("; data %zu bytes to a foreign host", len); break; }
			case 2: parts.push_back(enc(TCP_OPEN, p->ip, {})); tcp = true; script += strf("; TCP_OPEN host %d", p->k); break;
			case 3: parts.push_back(enc(TCP_DATA, c.bits(32), c.blob(len))); script += strf("; TCP_DATA %zu bytes", len); break;
			case 4: parts.push_back(enc(TCP_CLOSE, c.bits(32), {})); script += "; TCP_CLOSE"; break;
			case 5: parts.push_back(enc(TCP_OPEN, shim::ip(2, 120), {})); script += "; TCP_OPEN to a host that does not listen"; break;
			}
		}
		// all replies due before the end are written before the last message is read
		parts.push_back(enc(TCP_CLOSE, 0, {})); parts.push_back(enc(TCP_DATA, 0, {1}));
		if (c.chance(50)) { parts.push_back(enc(TCP_OPEN, peers[0]->ip, {})); tcp = true; script += "; TCP_CLOSE; TCP_DATA; TCP_OPEN host 1"; parts.push_back(enc(TCP_DATA, 0, c.blob(5))); }
		if (ending == 2) { uint8_t t = c.pick(std::vector<uint8_t>{0, 4, 7, 8, 255, 128, 'A'}); parts.push_back(enc_hdr(t, c.bits(32), c.bits(8))); script += strf("; message of type %d", t); }
		if (ending == 3) { Bytes m = enc(c.pick(std::vector<uint8_t>{UDP_DATA, UDP_CTL, TCP_DATA}), peers[1]->ip, c.blob(1 + c.draw(6000))); size_t n = 1 + c.draw(m.size() - 1); m.resize(n); parts.push_back(m); script += strf("; first %zu bytes of a message", n); }
	} else script += "; wrong answer";
	c.note("bytes: %s", script.c_str());
	auto greeting = [&](const std::string &digits) { auto r = response_for(digits, cf.password); if (ending == 1) r[3] ^= 1; Bytes g(call.begin(), call.end()); g.push_back('\n'); g.insert(g.end(), r.begin(), r.end()); return g; };
	// is the challenge predictable?
	std::string d0; if (forced) { auto pr = w.connect(); w.get_challenge(pr); d0 = pr->digits; w.leave(pr); w.quiesce(); }
	// ---- run 0: one message at a time
	cl[0] = w.connect(); w.get_challenge(cl[0]); cl[0]->parsing = admitted; cl[0]->call = call;
	cl[0]->send(greeting(cl[0]->digits)); if (admitted) w.quiesce(); 
	for (auto &m : parts) { cl[0]->send(m); w.quiesce(1); collect(); }
	w.quiesce(); collect();
	if (ending == 1 || ending == 2) { w.expect_gone(cl[0], "it must end here"); usleep(2000); w.quiesce(); collect(); who.clear(); }
	// seen so far belongs to run 0
	bool predict = forced && d0 == cl[0]->digits;
	if (c.chance(60)) shim::short_recv(20 + c.draw(80), c.draw(1000), c.chance(60) ? 0 : 1 + c.draw(12));
	if (c.chance(30)) shim::short_send(20 + c.draw(80), c.draw(1000), c.chance(60) ? 0 : 1 + c.draw(30));
	// ---- run 1: the same bytes, differently
	cl[1] = w.connect(); cl[1]->call = call; bool early = predict && c.chance(60);
	if (!early) { w.get_challenge(cl[1]); cl[1]->parsing = admitted; }
	Bytes all = greeting(early ? d0 : cl[1]->digits); size_t glen = all.size(); for (auto &m : parts) all.insert(all.end(), m.begin(), m.end());
	int style = c.draw(5); size_t o = 0; int pieces = 0;
	while (o < all.size()) {
		size_t n;
		switch (style) {
		case 0: n = all.size(); break;
		case 1: n = o < 400 ? 1 : 1 + c.draw(500); break;
		case 2: n = 1 + c.draw(o < 100 ? 12 : 3000); break;
		case 3: n = o < glen ? glen - 1 : 1 + c.draw(10000); break;
		default: n = 1 + c.draw(all.size()); break;
		}
		n = std::min(n, all.size() - o); cl[1]->send(Bytes(all.begin() + o, all.begin() + o + n)); o += n; pieces++;
		if (pieces < 200 && o < all.size()) switch (c.draw(4)) { case 0: w.quiesce(0.3); collect(); break; case 1: usleep(c.draw(400)); break; default: break; }
	}
	c.note("run 1: %d pieces%s", pieces, early ? ", from before the challenge was read" : "");
	if (early) { w.get_challenge(cl[1]); if (cl[1]->digits != d0) c.discard("challenge not predictable"); cl[1]->parsing = admitted; c.label("before the challenge"); }
	auto same = [&] { collect(); return obs[0] == obs[1] && (ending == 0 || ending == 3 || obs[0].gone); };
	w.wait(same); w.quiesce(); w.wait(same);
	CHECK(c, obs[0] == obs[1], "one message at a time / in %d pieces%s differ: %s", pieces, early ? " from before the challenge" : "", obs[0].diff(obs[1]).c_str());
	if (ending == 1 || ending == 2) CHECK(c, obs[0].gone, "the session did not end");
	else CHECK(c, !obs[0].gone, "the session ended");
	if (ending == 3) { for (auto &k : cl) ::shutdown(k->ep->fd, SHUT_WR); for (auto &k : cl) w.expect_gone(k, "its stream ended within a message"); w.wait(same); w.quiesce(); w.wait(same); CHECK(c, obs[0] == obs[1], "after the end of the stream, runs differ: %s", obs[0].diff(obs[1]).c_str()); }
	if (admitted) { size_t n = 0; for (auto &k : obs[0].dg) n += k.second.size(); if (n + obs[0].replies.size() >= 2) c.nontrivial(); }
	else if (!obs[0].raw.empty()) c.nontrivial();
	if (tcp) c.label("TCP"); c.label("style %d", style);
	w.down();
}
Property the_property = {"C07",
	"A case is one byte sequence of a client (greeting right or wrong, then messages of all types up to 9000 bytes, possibly ending with an invalid or incomplete message) sent twice: one message at a time waiting for the effects, and again cut differently (single bytes, across message borders, all at once, even before the challenge is read when it is predictable) with reads and writes shortened. Oracle: both runs have the same notice, replies in order, datagrams per destination, bytes per relayed connection, and end. Non-trivial: at least two observed effects (or a notice).",
	world_process_init, run, 5000, 300000, 60,
	{"the remote hosts are passive, so that the effects are determined by the client's bytes"}};
