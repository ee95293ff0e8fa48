// C03: client UDP messages leave unaltered from the right socket
#include "common.hpp"
struct Key { uint32_t src, dst; bool ctl; bool operator<(const Key &o) const { return std::tie(src, dst, ctl) < std::tie(o.src, o.dst, o.ctl); } };
typedef std::map<Key, std::deque<Bytes>> Book;
static std::string ks(const Key &k) { std::string a = inet_ntoa(in_addr{k.src}); return strf("%s from %s to %s", k.ctl ? "control" : "data", a.c_str(), inet_ntoa(in_addr{k.dst})); }
static void run(Case &c) {
	World w(c); Conf cf; cf.slots = 1 + c.draw(3); cf.vary(c);
	if (c.chance(40)) shim::short_recv(20 + c.draw(70), c.draw(1000), c.chance(50) ? 0 : 1 + c.draw(20));
	gen_perturb(c, 25, 300);
	w.up(cf);
	int np = 1 + c.draw(4); std::vector<PeerP> peers; for (int i = 1; i <= np; i++) peers.push_back(w.peer(i));
	std::vector<ClientP> cls; int nc = 1 + c.draw(cf.slots);
	for (int i = 0; i < nc; i++) { auto cl = w.login(simple_call(i)); w.learn_slot(cl, peers[0]); cls.push_back(cl); }
	c.note("%d slot(s), %d client(s), %d peer(s)", cf.slots, nc, np);
	Book want, got; typedef std::pair<Key, Bytes> Sent; std::map<uint32_t, std::deque<Sent>> outw, outg;
	uint32_t refused = htonl(0x0a000000 | c.draw(1 << 16)); int rerr = c.pick(std::vector<int>{ENETUNREACH, EPERM, EHOSTUNREACH, ENOBUFS, EINVAL, EMSGSIZE, ECONNREFUSED, EACCES, EPIPE, EINTR});
	shim::refuse_send(refused, rerr);
	std::set<uint32_t> noone;
	auto collect = [&] {
		w.pump();
		for (auto &p : peers) for (int t = 0; t < 2; t++) {
			auto &q = t ? p->ctl->dg : p->data->dg;
			for (; !q.empty(); q.pop_front()) {
				Dgram &d = q.front(); CHECK(c, d.src_port == (t ? 5199 : 5198), "%s datagram came from port %d", t ? "control" : "data", d.src_port);
				got[Key{d.src_ip, p->ip, (bool)t}].push_back(d.data);
			}
		}
		for (auto &o : shim::take_outside()) { CHECK(c, !o.tcp, "unexpected connect"); CHECK(c, o.local_port == o.dst_port && (o.dst_port == 5198 || o.dst_port == 5199), "datagram to %s:%d left from port %d", inet_ntoa(in_addr{o.dst_ip}), o.dst_port, o.local_port); outg[o.local_ip].push_back({Key{o.local_ip, o.dst_ip, o.dst_port == 5199}, o.data}); }
	};
	int ops = 1 + c.draw(c.thorough ? 50 : 24); int sent = 0; bool big = false, hadref = false; size_t inflight = 0;
	for (int i = 0; i < ops; i++) {
		auto cl = cls[c.draw(cls.size())]; int slot = cl->slot; bool ctl = c.chance(40);
		int kind = c.weighted({10, 6, 3, 2, 1});
		size_t n = c.length(c.thorough ? 40000 : 13000, {0, 1, 2, 9, 4086, 4087, 4088, 4095, 4096, 4097, 8191, 8192, 8193, 12288});
		if (c.chance(60)) n %= 200;
		Bytes pl = c.blob(n); uint32_t dst;
		if (kind == 4) { // other messages in between
			if (c.chance(50)) { c.note("client %d: TCP_CLOSE", cl->k); cl->send(enc(TCP_CLOSE, 0, {})); } else { c.note("client %d: barrier", cl->k); w.barrier(cl); }
			continue;
		}
		if (kind == 0) dst = c.pick(peers)->ip;
		else if (kind == 1) dst = c.chance(15) ? c.pick(std::vector<uint32_t>{0, 0xffffffffu, htonl(0xe0000001), htonl(0x0a0a0a0a), htonl(0x01020304)}) : htonl(c.bits(32));
		else if (kind == 2) dst = refused;
		else { dst = shim::ip(2, 100 + c.draw(20)); noone.insert(dst); } // nobody listens there
		if ((ntohl(dst) >> 16) == (127u << 8 | (unsigned)shim::base) && kind == 1) continue;
		c.note("client on slot %d: %s message to %s, %zu bytes", slot, ctl ? "control" : "data", inet_ntoa(in_addr{dst}), n);
		Bytes m = enc(ctl ? UDP_CTL : UDP_DATA, dst, pl);
		send_cut(c, cl, m, c.chance(30) ? 4 : 1);
		uint32_t src = w.slot_ip(slot);
		for (size_t o = 0; o < n; o += 4096) {
			Bytes part(pl.begin() + o, pl.begin() + std::min(n, o + 4096));
			if (kind == 0) { want[Key{src, dst, ctl}].push_back(part); inflight += 8192 + part.size(); }
			else if (kind == 1 && dst != refused) outw[src].push_back({Key{src, dst, ctl}, part});
		}
		if (n > 4096) big = true;
		if (dst == refused) { hadref = true; c.label("refused by the network"); }
		sent++; if (n == 0) c.label("empty"); if (n > 4096) c.label("over 4096 bytes"); if (n == 4096) c.label("exactly 4096");
		if (inflight > 60000) { for (auto &x : cls) w.barrier(x); collect(); inflight = 0; } else collect();
	}
	for (auto &x : cls) w.barrier(x);
	// the kernel may deliver a little after the send has returned
	w.wait([&] { collect(); for (auto &k : want) if (got[k.first].size() < k.second.size()) return false; return true; });
	w.quiesce(); collect();
	for (auto &k : want) {
		auto &g = got[k.first];
		for (size_t i = 0; i < k.second.size(); i++) {
			CHECK(c, i < g.size(), "%s: %zu of %zu datagrams arrived", ks(k.first).c_str(), g.size(), k.second.size());
			CHECK(c, g[i] == k.second[i], "%s: datagram %zu is %zu bytes %s, must be %zu bytes %s", ks(k.first).c_str(), i, g[i].size(), hex(g[i].data(), g[i].size()).c_str(), k.second[i].size(), hex(k.second[i].data(), k.second[i].size()).c_str());
		}
	}
	for (auto &k : got) CHECK(c, k.second.size() == (want.count(k.first) ? want[k.first].size() : 0), "%s: %zu datagrams arrived, only %zu were sent; the last is %s", ks(k.first).c_str(), k.second.size(), want.count(k.first) ? want[k.first].size() : 0, hex(k.second.back().data(), k.second.back().size()).c_str());
	for (auto &k : outw) {
		auto &g = outg[k.first];
		for (size_t i = 0; i < k.second.size(); i++) {
			CHECK(c, i < g.size(), "%zu of %zu datagrams to foreign addresses left", g.size(), k.second.size());
			CHECK(c, !(g[i].first < k.second[i].first) && !(k.second[i].first < g[i].first) && g[i].second == k.second[i].second, "foreign datagram %zu is %s, %zu bytes; must be %s, %zu bytes", i, ks(g[i].first).c_str(), g[i].second.size(), ks(k.second[i].first).c_str(), k.second[i].second.size());
		}
	}
	for (auto &k : outg) CHECK(c, k.second.size() == outw[k.first].size(), "%zu datagrams left for foreign addresses, must be %zu; the last is %s", k.second.size(), outw[k.first].size(), ks(k.second.back().first).c_str());
	for (auto &x : cls) w.expect_none(x, "only UDP messages were sent");
	if (c.chance(12)) { // a message too large to be sent as a whole: what has arrived of it is sent on
		auto cl = cls[c.draw(cls.size())]; auto p = c.pick(peers); bool ctl = c.chance(40); uint32_t size = c.chance(60) ? c.pick(std::vector<uint32_t>{0x7fffffffu, 0x80000000u, 0x80000001u, 0x80001000u, 0xfffff000u, 0xffffffffu, 0xffff1000u, 0x40000000u}) : 0x40000000u + (uint32_t)c.bits(30) * 3; int k = 1 + c.draw(4); Bytes pl = c.blob(k * 4096 + (c.chance(50) ? c.draw(4096) : 0));
		c.note("client on slot %d: %s message announced with %u bytes, %zu of them follow", cl->slot, ctl ? "control" : "data", size, pl.size());
		auto ep = ctl ? p->ctl : p->data; ep->dg.clear(); uint32_t src = w.slot_ip(cl->slot); Bytes m = enc(ctl ? UDP_CTL : UDP_DATA, p->ip, {}); memcpy(&m[5], &size, 4); m.insert(m.end(), pl.begin(), pl.end()); send_cut(c, cl, m, c.chance(50) ? 4 : 1);
		w.must([&] { return (int)ep->dg.size() >= k; }, "the datagrams of a large message"); w.quiesce();
		CHECK(c, (int)ep->dg.size() == k, "%zu datagrams arrived for %zu bytes of a message of %u bytes", ep->dg.size(), pl.size(), size);
		for (int i = 0; i < k; i++) CHECK(c, ep->dg[i].data == Bytes(pl.begin() + i * 4096, pl.begin() + (i + 1) * 4096) && ep->dg[i].src_ip == src && ep->dg[i].src_port == (ctl ? 5199 : 5198), "datagram %d of a message of %u bytes is %zu bytes %s", i, size, ep->dg[i].data.size(), hex(ep->dg[i].data.data(), ep->dg[i].data.size()).c_str());
		w.expect_none(cl, "a message is incomplete"); c.label("announced with 1 GiB or more");
	}
	if (sent >= 2) c.nontrivial();
	if (big) c.label("chunked");
	w.down();
}
Property the_property = {"C03",
	"A case is 1-3 sessions that send a random sequence of data and control messages (0 to 13000 bytes, sizes around 4087/4096/8192; to peers, to addresses nobody listens on, to foreign addresses captured in the shim, to an address the network refuses), at the end sometimes the beginning of a message announced with 1 to 4 GiB, cut into segments and read in shortened pieces. Oracle: per destination socket the exact list of datagrams, with source address and port; for foreign destinations the total order per session. Non-trivial: at least two messages.",
	world_process_init, run, 10000, 400000, 60,
	{"datagrams between loopback sockets are not lost while less than 60 KB is in flight"}};
