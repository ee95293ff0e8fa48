// generators shared by several properties
#pragma once
#include "world.hpp"
#include <algorithm>
#include <array>
#include <cerrno>
#include <cstring>
#include <poll.h>
#include <set>
#include <sys/socket.h>
#include <unistd.h>

static inline std::string gen_password(Case &c, size_t maxlen = 200) {
	static const std::string edge = "aAzZ`{@[09mM~^_|}!#$%&*+-./:;<>?='\"\\";
	if (c.chance(15)) return c.pick(std::vector<std::string>{"PUBLIC", "public", "Public", "secret", "Secret1", "A", "z"});
	size_t n = 1 + c.draw(c.chance(15) ? maxlen : 14); std::string s;
	for (size_t i = 0; i < n; i++) switch (c.weighted({6, 3, 2, 1})) {
		case 0: s += (char)('a' + c.draw(26)); break;
		case 1: s += edge[c.draw(edge.size())]; break;
		case 2: s += (char)('A' + c.draw(26)); break;
		default: s += (char)(128 + c.draw(128)); break;
		}
	if (s == "notset") s = "Notset";
	return s;
}
static inline std::string gen_callsign(Case &c) {
	size_t n = c.chance(30) ? c.pick(std::vector<size_t>{0, 1, 10, 9, 5, 2}) : c.draw(11);
	static const std::string al = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-/*abz ";
	std::string s; bool odd = c.chance(15);
	for (size_t i = 0; i < n; i++) s += odd ? (char)(1 + c.draw(255)) : al[c.draw(al.size())];
	for (char &ch : s) if (ch == '\n') ch = '\r';
	return s;
}
static inline std::string simple_call(int i) { return strf("K%dABC", i); }
// schedule perturbation drawn from the case: half of the cases run undisturbed
static inline void gen_perturb(Case &c, unsigned percent = 50, unsigned max_us = 1500) {
	if (!c.chance(percent)) return;
	using namespace shim;
	uint64_t m = 0; int style = c.draw(5); unsigned prob, us;
	auto in = [](int k) { return 1ull << k; }; auto out = [](int k) { return 1ull << (k + 32); };
	switch (style) {
	case 0: m = in(K_SEND) | out(K_SEND) | out(K_RECV); break;
	case 1: m = in(K_LOCK) | out(K_UNLOCK); break;
	case 2: m = in(K_SIGNAL) | out(K_SIGNAL) | out(K_WAIT) | in(K_WAIT); break;
	case 3: m = in(K_CLOSE) | out(K_CLOSE) | in(K_SHUTDOWN) | out(K_SHUTDOWN) | out(K_CONNECT) | out(K_BIND); break;
	default: m = ~0ull; break;
	}
	prob = 20 + c.draw(300); us = 20 + c.draw(max_us);
	perturb(m, prob, us, c.draw(1 << 20));
	c.note("schedule: perturbation style %d, probability %u/1024, up to %u us", style, prob, us);
	c.label("perturbed");
}
// sends bytes cut into pieces drawn from the case
static inline void send_cut(Case &c, ClientP &cl, const Bytes &b, int maxpieces) {
	size_t o = 0; int pieces = maxpieces > 1 ? 1 + (int)c.draw(maxpieces) : 1;
	for (int i = 0; i < pieces && o < b.size(); i++) {
		size_t n = i + 1 == pieces ? b.size() - o : 1 + c.draw(b.size() - o);
		cl->send(Bytes(b.begin() + o, b.begin() + o + n)); o += n;
		if (o < b.size()) switch (c.draw(3)) { case 0: break; case 1: cl->w.quiesce(1); break; case 2: usleep(200); }
	}
	if (o < b.size()) cl->send(Bytes(b.begin() + o, b.end()));
}
// waits until the proxy has let go of every client connection but `live` ones
static inline void settled(World &w, size_t live) {
	w.wait([&] { return shim::accepted_total() - shim::accepted_closed() == live; });
	w.quiesce();
}
struct Hole { int lis = -1; std::vector<int> fill; };
static inline Hole blackhole(Case &c, int k, int net = 2, int port = 5200) { // a host that never answers a TCP connection attempt
	Hole h; h.lis = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = shim::ip(net, k); a.sin_port = htons(port); int one = 1;
	setsockopt(h.lis, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
	if (::bind(h.lis, (sockaddr *)&a, sizeof a) < 0 || ::listen(h.lis, 0) < 0) c.fail("harness: blackhole: %s", strerror(errno));
	for (int i = 0; i < 3; i++) { int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0); ::connect(fd, (sockaddr *)&a, sizeof a); h.fill.push_back(fd); }
	return h;
}
static inline void close_hole(Hole &h) { for (int f : h.fill) ::close(f); if (h.lis >= 0) ::close(h.lis); h = Hole(); }
// pairs of different callsigns with the same hash: in case, as prefix, in the first 8, as anagram, in the tail only
static inline const std::vector<std::pair<std::string, std::string>> &colliding_pairs() {
	static const std::vector<std::pair<std::string, std::string>> v = {{"K8EU", "k8Eu"}, {"W0IUZ-L", "w0iUz-l"}, {"A0OIO-L", "a0oIO-l"}, {"N5JGZ", "n5jgZ"}, {"K2VNW-L", "K2VNW-LVM"}, {"K3CAO", "K3CAOOGX"}, {"G1RV", "G1RVMEQF3"}, {"N1MIT-R", "N1MIT-RHLZ"}, {"V5TP-R-6N", "V5TP-R-6U8"}, {"G7OTU-LPFF", "G7OTU-LPB"}, {"G5SLU-RB5-", "G5SLU-RB16"}, {"V5NL-L4GSL", "V5NL-L4GR0"}, {"W1YN-R", "1NWR-Y"}, {"A0WT-R", "-T0RAW"}, {"W9KQL-R", "KL-QWR9"}, {"N5QW-R", "QN5RW-"}, {"G7OS-R", "XJOS-R"}, {"N2WX", "SXWX"}, {"W1VDE-R", "0WVDE-R"}, {"A1GHE", "PAGHE"}};
	return v;
}
// callsigns that share their 8-bit Pearson hash with others of the list
static inline const std::vector<std::string> &colliding_calls() {
	static const std::vector<std::string> v = {"A6DGZ", "W3UPA", "W0IBN-R", "N5XSW", "A6QXF", "W2EIN", "A6FIM-R", "N3DCC-R", "A3KIC", "K2UAI-L", "N3EUB", "K1PKN-R",
		"W1OTD", "K1GNF", "N4VUM", "A1VFY-R", "W8SRM-L", "N8GZJ", "K7CBX", "K6QNK", "K2WRY", "N8IIZ", "W2JRC", "A1IPA-L"};
	return v;
}
