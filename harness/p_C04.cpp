// C04: datagrams reach the client once, intact and attributed
#include "common.hpp"
struct Want { uint32_t src; Bytes data; bool whole; }; // not whole: longer than a message can carry
static int sender(Case &c, uint32_t ip, int port) {
	int fd = ::socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = ip; a.sin_port = htons(port);
	if (::bind(fd, (sockaddr *)&a, sizeof a) < 0) { int e = errno; ::close(fd); c.fail("harness: sender socket: %s", strerror(e)); }
	return fd;
}
static void run(Case &c) {
	World w(c); Conf cf; cf.slots = 1 + c.draw(3); cf.vary(c);
	if (c.chance(30)) shim::short_send(10 + c.draw(80), c.draw(1000), c.chance(50) ? 0 : 1 + c.draw(40));
	gen_perturb(c, 25, 300);
	w.up(cf);
	int nc = 1 + c.draw(cf.slots); std::vector<ClientP> cls; auto p = w.peer(1);
	for (int i = 0; i < nc; i++) { auto cl = w.login(simple_call(i)); w.learn_slot(cl, p); cls.push_back(cl); }
	int ns = 1 + c.draw(4); struct Snd { uint32_t ip; int port; int fd; }; std::vector<Snd> snd;
	struct CloseAll { std::vector<Snd> &s; ~CloseAll() { for (auto &x : s) ::close(x.fd); } } closer{snd};
	for (int i = 0; i < ns; i++) {
		Snd s; bool known = c.chance(40);
		if (known) { s.ip = p->ip; s.fd = -1; s.port = c.chance(50) ? 5198 : 5199; s.fd = dup(s.port == 5198 ? p->data->fd : p->ctl->fd); }
		else { s.ip = shim::ip(10 + c.draw(246), c.draw(256)); s.port = c.chance(30) ? c.pick(std::vector<int>{5198, 5199, 5200, 1024, 65535}) : 0; for (auto &o : snd) if (o.ip == s.ip) s.port = 0; s.fd = sender(c, s.ip, s.port); }
		snd.push_back(s); c.note("sender %d: %s port %d", i, inet_ntoa(in_addr{s.ip}), s.port);
	}
	std::map<std::pair<int, bool>, std::vector<Want>> want; 
	int ops = 1 + c.draw(c.thorough ? 80 : 40), outst = 0; size_t sent = 0; bool edge = false;
	std::string why;
	// compares what client k got so far on a port with what it must get; true when everything is there
	auto verdict = [&](int k, int t, bool final) -> bool {
		auto &ws = want[{k, (bool)t}]; std::vector<const Msg *> g;
		for (auto &m : cls[k]->msgs) if ((m.type == UDP_CTL) == (t == 1)) g.push_back(&m);
		std::set<size_t> st = {0};
		for (auto &x : ws) {
			std::set<size_t> nx;
			for (size_t s : st) {
				if (x.data.empty()) { nx.insert(s); continue; }
				bool eq = s < g.size() && g[s]->addr == x.src && g[s]->data.size() <= x.data.size() && std::equal(g[s]->data.begin(), g[s]->data.end(), x.data.begin());
				if (x.whole) { if (eq && g[s]->data.size() == x.data.size()) nx.insert(s + 1); }
				else { nx.insert(s); if (eq) nx.insert(s + 1); }
			}
			if (nx.empty()) {
				size_t far = *st.rbegin(); if (!final && far >= g.size()) return false;
				why = strf("client %d, %s port: message %zu must be %zu bytes from %s (%s), got %s", k, t ? "control" : "data", far, x.data.size(), inet_ntoa(in_addr{x.src}), hex(x.data.data(), x.data.size(), 24).c_str(), far < g.size() ? show(*g[far]).c_str() : "nothing more");
				return false;
			}
			st = nx;
		}
		if (final && !st.count(g.size())) { why = strf("client %d, %s port: %zu messages were delivered for %zu datagrams; the last is %s", k, t ? "control" : "data", g.size(), ws.size(), show(*g.back()).c_str()); return false; }
		return true;
	};
	auto sync = [&] {
		w.wait([&] { for (int k = 0; k < nc; k++) if (!cls[k]->gone()) for (int t = 0; t < 2; t++) if (!verdict(k, t, false)) return !why.empty(); return true; });
		for (int k = 0; k < nc; k++) { CHECK(c, !cls[k]->gone(), "client %d was disconnected", k); for (int t = 0; t < 2; t++) if (!verdict(k, t, false)) { verdict(k, t, true); c.fail("%s", why.c_str()); } }
		outst = 0;
	};
	bool paused = false;
	for (int i = 0; i < ops; i++) {
		int op = c.weighted({28, 2, 3, 2});
		int k = c.draw(nc);
		if (op == 1) { if (!paused && c.chance(70)) { paused = true; for (auto &x : cls) x->ep->paused = true; c.note("the clients stop reading"); c.label("paused"); } else if (paused) { paused = false; for (auto &x : cls) x->ep->paused = false; c.note("the clients read again"); } continue; }
		if (op == 2 && !paused && c.chance(50)) { // from one session to another, or to itself
			int j = c.draw(nc); bool ctl = c.chance(40); Bytes pl = c.blob(1 + c.length(4086, {0, 1, 8, 1399, 4086})); c.note("client %d sends %zu bytes to the %s port of slot %d", j, pl.size(), ctl ? "control" : "data", cls[k]->slot); c.label("from session to session");
			sync(); cls[j]->send(enc(ctl ? UDP_CTL : UDP_DATA, w.slot_ip(cls[k]->slot), pl)); want[{k, ctl}].push_back({w.slot_ip(cls[j]->slot), pl, true}); sync(); sent++; continue; }
		if (op == 2) { c.note("client %d sends a datagram", k); cls[k]->send(enc(UDP_DATA, shim::ip(2, 77), c.blob(1 + c.draw(30)))); continue; }
		if (op == 3) { if (!paused) { sync(); c.note("all delivered"); } continue; }
		bool ctl = c.chance(40); auto &s = snd[c.draw(snd.size())];
		size_t n = c.length(4087, {0, 1, 2, 9, 1400, 4085, 4086, 4087, 2048, 8});
		if (c.chance(8)) { n = c.pick(std::vector<size_t>{4088, 4089, 4095, 4096, 4097, 5000, 9000, 20000}); edge = true; c.label("too long"); }
		if (n == 0) { edge = true; c.label("empty"); } if (n == 4087) { c.label("largest"); edge = true; }
		Bytes pl = c.blob(n);
		sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = w.slot_ip(cls[k]->slot); a.sin_port = htons(ctl ? 5199 : 5198);
		c.note("%zu bytes from %s to the %s port of slot %d", n, inet_ntoa(in_addr{s.ip}), ctl ? "control" : "data", cls[k]->slot);
		ssize_t r = ::sendto(s.fd, pl.data(), n, MSG_NOSIGNAL, (sockaddr *)&a, sizeof a);
		CHECK(c, r == (ssize_t)n, "harness: sendto: %s", strerror(errno));
		want[{k, ctl}].push_back({s.ip, pl, n <= 4087}); sent++; outst += n > 4096 ? 4 : 1;
		if (outst >= 14) { if (paused) { paused = false; for (auto &x : cls) x->ep->paused = false; c.note("the clients read again"); } sync(); w.quiesce(1); }
	}
	for (auto &x : cls) x->ep->paused = false;
	sync(); for (auto &x : cls) w.barrier(x); w.quiesce(); w.pump();
	for (int k = 0; k < nc; k++) {
		CHECK(c, !cls[k]->gone(), "client %d was disconnected", k);
		for (auto &m : cls[k]->msgs) CHECK(c, m.type == UDP_DATA || m.type == UDP_CTL, "client %d got a message nothing asked for: %s", k, show(m).c_str());
		w.wait([&] { return cls[k]->ep->avail() == 0; }); // part of a message may still be held back by the TCP stack
		CHECK(c, cls[k]->ep->avail() == 0, "client %d got an incomplete message", k);
		for (int t = 0; t < 2; t++) if (!verdict(k, t, true)) c.fail("%s", why.c_str());
	}
	if (sent >= 2) c.nontrivial(); (void)edge; if (nc > 1) c.label("several sessions");
	w.down();
}
Property the_property = {"C04",
	"A case is 1-3 sessions and a random sequence of datagrams (0, 1..4087 and longer; random senders and ports, random interleaving over sessions and both ports) arriving at the slots' external addresses, while clients send, pause reading, and writes to them are accepted in part. Oracle: per session and port the exact list of messages (type, sender, length, content); empty datagrams deliver nothing, longer ones at most a prefix. Non-trivial: at least two datagrams.",
	world_process_init, run, 10000, 300000, 60,
	{"at most about 14 datagrams are in flight, so that the kernel drops none"}};
