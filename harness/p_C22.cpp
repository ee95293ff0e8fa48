// C22: the connection layer reads exactly, unblocks and names peers
#include "common.hpp"
#include <condition_variable>
#include <mutex>
#include <thread>
extern "C" {
#include "conn.h"
}
namespace {
struct Job { // one call made on a thread of its own
	struct Sh { std::mutex m; std::condition_variable cv; bool done = false; int r = 0; uint64_t t0 = 0, t1 = 0; }; std::shared_ptr<Sh> sh = std::make_shared<Sh>(); std::thread t; Case &c; std::string what;
	Job(Case &c, const std::string &what, std::function<int()> fn) : c(c), what(what) { auto s = sh; t = std::thread([s, fn] { uint64_t a = mono_ns(); int r = fn(); uint64_t b = mono_ns(); std::lock_guard<std::mutex> g(s->m); s->r = r; s->t0 = a; s->t1 = b; s->done = true; s->cv.notify_all(); }); }
	~Job() { if (t.joinable()) t.detach(); }
	bool wait(double secs) { std::unique_lock<std::mutex> g(sh->m); return sh->cv.wait_for(g, std::chrono::microseconds((long)(secs * 1e6)), [&] { return sh->done; }); }
	int result(double secs = PATIENCE) { if (!wait(secs)) { t.detach(); c.fail("%s did not return within %.0f s", what.c_str(), secs); } t.join(); return sh->r; }
	double ms() { return (sh->t1 - sh->t0) / 1e6; }
};
int bounded(Case &c, const std::string &what, std::function<int()> fn) { Job j(c, what, fn); return j.result(); }
struct Sock { int fd = -1; Sock() {} explicit Sock(int f) : fd(f) {} Sock(Sock &&o) : fd(o.fd) { o.fd = -1; } Sock &operator=(Sock &&o) { close(); fd = o.fd; o.fd = -1; return *this; } ~Sock() { close(); } void close() { if (fd >= 0) ::close(fd); fd = -1; } void rst() { if (fd < 0) return; linger l{1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); close(); } };
struct Conn { conn_handle h{}; std::string addr, port; Case &c; Conn(Case &c, CONN_TYPE t, const std::string &a, const std::string &p) : addr(a), port(p), c(c) { init(t); }
	Conn(const Conn &) = delete;
	void init(CONN_TYPE t) { memset(&h, 0, sizeof h); h.type = t; h.source_addr = addr.empty() ? nullptr : addr.c_str(); h.source_port = port.empty() ? nullptr : port.c_str(); int r = conn_init(&h); CHECK(c, r == 0, "conn_init returned %d", r); }
	bool freed = false; void free() { if (freed) return; freed = true; auto hp = &h; bounded(c, "conn_free", [hp] { conn_free(hp); return 0; }); }
	~Conn() { if (!freed && h.priv) {} } };
sockaddr_in sa(uint32_t ip, int port) { sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = ip; a.sin_port = htons(port); return a; }
Sock sock(Case &c, int type, uint32_t ip, int port) { Sock s(::socket(AF_INET, type | SOCK_CLOEXEC, 0)); auto a = sa(ip, port); int one = 1; if (type == SOCK_STREAM) setsockopt(s.fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); if (::bind(s.fd, (sockaddr *)&a, sizeof a) < 0) { s.close(); } return s; }
int local_port(int fd) { sockaddr_in6 a{}; socklen_t n = sizeof a; getsockname(fd, (sockaddr *)&a, &n); return ntohs(a.sin6_port); }
int only_fd(Case &c, const std::vector<int> &before) { auto v = shim::owned_fds(); for (int f : v) if (std::find(before.begin(), before.end(), f) == before.end()) return f; c.fail("no socket was made"); }
enum { KEEP_IDLE = 4, KEEP_STEP, KEEP_COUNT }; // netinet/tcp.h clashes with the names of the protocol
int opt(int fd, int level, int o) { int v = -1; socklen_t n = sizeof v; return getsockopt(fd, level, o, &v, &n) < 0 ? -1 : v; }
void write_all(int fd, const Bytes &b, Case *c = nullptr) { size_t o = 0; while (o < b.size()) { ssize_t n = ::send(fd, b.data() + o, b.size() - o, MSG_NOSIGNAL); if (n <= 0) return; o += n; } }
// an established pair: kind 0 the code accepted, 1 the code connected
struct Pair { std::unique_ptr<Conn> listener, conn; Sock peer; int kind; std::string name; };
int g_port = 20000; // listening ports rotate so that nothing old interferes
int next_port() { g_port = g_port >= 28000 ? 20000 : g_port + 1; return g_port; }
Pair make_pair_(Case &c, int kind, int peer_d = 0, int peer_port = 0, int v6 = 0) { // v6: 1 an IPv6 peer, 2 an IPv4 peer of a connection listening on all addresses of both kinds
	Pair p; p.kind = kind; 
	if (kind == 0) {
		int port = next_port(); auto before = shim::owned_fds(); p.listener.reset(new Conn(c, CONN_TYPE_TCP, v6 == 1 ? "::1" : v6 ? "::" : shim::ips(0, 7), v6 ? "" : strf("%d", port))); p.conn.reset(new Conn(c, CONN_TYPE_TCP, "", ""));
		int r = conn_listen(&p.listener->h); CHECK(c, r >= 0, "conn_listen returned %d", r); CHECK(c, conn_in_use(&p.listener->h) == 1, "a listening connection is not in use"); if (v6) port = local_port(only_fd(c, before));
		if (v6 == 1) { p.peer = Sock(::socket(AF_INET6, SOCK_STREAM | SOCK_CLOEXEC, 0)); sockaddr_in6 a{}; a.sin6_family = AF_INET6; a.sin6_addr = in6addr_loopback; a.sin6_port = htons(peer_port); int one = 1; setsockopt(p.peer.fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); if (::bind(p.peer.fd, (sockaddr *)&a, sizeof a) < 0) c.discard("port %d in use", peer_port); a.sin6_port = htons(port); if (::connect(p.peer.fd, (sockaddr *)&a, sizeof a) < 0) c.fail("connecting to the listening connection: %s", strerror(errno)); }
		else { p.peer = sock(c, SOCK_STREAM, shim::ip(6, 1 + peer_d), peer_port); if (p.peer.fd < 0) c.discard("port %d in use", peer_port); auto a = sa(shim::ip(0, 7), port); if (::connect(p.peer.fd, (sockaddr *)&a, sizeof a) < 0) { if (errno == EADDRNOTAVAIL || errno == EADDRINUSE) c.discard("address in use"); c.fail("connecting to the listening connection: %s", strerror(errno)); } }
		before = shim::owned_fds(); auto l = &p.listener->h, a = &p.conn->h; r = bounded(c, "conn_accept", [=] { return conn_accept(l, a); }); CHECK(c, r >= 0, "conn_accept returned %d", r);
		{ int f = only_fd(c, before), on = opt(f, SOL_SOCKET, SO_KEEPALIVE), idle = opt(f, IPPROTO_TCP, KEEP_IDLE), step = opt(f, IPPROTO_TCP, KEEP_STEP), n = opt(f, IPPROTO_TCP, KEEP_COUNT); CHECK(c, on > 0, "a peer that vanishes silently would never be noticed: no keep-alive on an accepted connection"); CHECK(c, idle > 0 && step > 0 && n > 0 && idle + (long)step * n <= 1800, "a peer that vanishes silently would be noticed only after %d + %d x %d s", idle, step, n); }
		p.name = v6 == 1 ? strf("[::1]:%d", local_port(p.peer.fd)) : strf(v6 ? "[::ffff:%s]:%d" : "%s:%d", shim::ips(6, 1 + peer_d).c_str(), local_port(p.peer.fd));
	} else {
		Sock l = sock(c, SOCK_STREAM, shim::ip(6, 1 + peer_d), 0); ::listen(l.fd, 4); int port = local_port(l.fd); p.conn.reset(new Conn(c, CONN_TYPE_TCP, c.index & 1 ? shim::ips(0, 7) : "", "")); auto h = &p.conn->h; std::string a = shim::ips(6, 1 + peer_d), ps = strf("%d", port);
		int r = bounded(c, "conn_connect", [=] { return conn_connect(h, a.c_str(), ps.c_str()); }); CHECK(c, r >= 0, "conn_connect returned %d", r); p.peer = Sock(::accept4(l.fd, nullptr, nullptr, SOCK_CLOEXEC)); p.name = strf("%s:%d", a.c_str(), port);
	}
	CHECK(c, conn_in_use(&p.conn->h) == 1, "an established connection is not in use"); return p;
}
std::string remote(conn_handle *h) { std::vector<char> b(54, '#'); char *d = (char *)malloc(54); memset(d, '#', 54); conn_get_remote_addr(h, d); std::string s(d, strnlen(d, 54)); ::free(d); return s; }
void clean(Case &c) { auto r = shim::res(); CHECK(c, r.fds == 0 && r.blocks == 0 && r.addrinfos == 0, "after freeing everything is left: %s (%s)", shim::res_str(r).c_str(), shim::describe_open().c_str()); CHECK(c, shim::bad_closes() == 0, "a descriptor was closed that is not open"); }
struct Guard { uint8_t *p; size_t n; Guard(size_t n) : p((uint8_t *)malloc(n + 16)), n(n) { memset(p, 0xC3, n + 16); } ~Guard() { ::free(p); } uint8_t *b() { return p + 8; } void check(Case &c, const char *what) { for (int i = 0; i < 8; i++) CHECK(c, p[i] == 0xC3 && p[8 + n + i] == 0xC3, "%s wrote outside the %zu bytes of its buffer", what, n); } };
// ---------------------------------------------------------------- the families
void exact(Case &c) {
	Pair p = make_pair_(c, c.draw(2), c.draw(40)); size_t total = c.chance(15) ? c.length(c.thorough ? 2000000 : 200000, {4096, 65536, 65537}) : c.draw(600); Bytes data = c.blob(total);
	if (c.chance(60)) shim::short_recv(c.pick(std::vector<unsigned>{30, 80, 100}), c.draw(1000), c.pick(std::vector<size_t>{0, 1, 7})); bool rst = c.chance(25); std::vector<size_t> cuts; { size_t o = 0; while (o < total && cuts.size() < 12) { size_t n = 1 + c.draw(total - o); cuts.push_back(n); o += n; } if (o < total) cuts.push_back(total - o); } int pace = c.draw(3);
	std::vector<std::pair<bool, size_t>> plan; size_t o = 0; while (plan.size() < 20) { size_t left = total - o, n = c.weighted({6, 2, 1}); n = n == 0 ? c.draw(std::min<size_t>(left + 1, 300)) : n == 1 ? left : left + 1 + c.draw(50); bool any = c.chance(25); plan.push_back({any, n}); if (!any) o += n; if (o >= total || n > left) break; }
	c.note("%s connection, %zu bytes in %zu pieces, then %s; %zu receives", p.kind ? "connected" : "accepted", total, cuts.size(), rst ? "reset" : "end", plan.size()); c.label("exact receive");
	std::atomic<bool> go{false}; bool late = c.chance(50); int pfd = p.peer.fd; std::thread wr([&, pfd] { size_t o = 0; for (size_t n : cuts) { if (pace == 1) usleep(150); if (pace == 2) std::this_thread::yield(); write_all(pfd, Bytes(data.begin() + o, data.begin() + o + n)); o += n; } if (!rst) ::shutdown(pfd, SHUT_WR); });
	struct J { std::thread &t; ~J() { if (t.joinable()) t.detach(); } } jj{wr};
	size_t at = 0; bool failed = false;
	for (auto &pl : plan) {
		size_t n = pl.second; if (pl.first && n == 0) continue; auto g = std::make_shared<Guard>(n); auto h = &p.conn->h; bool any = pl.first; if (rst && at + n > total && !any) { wr.join(); p.peer.rst(); }
		if (any && at >= total) continue;
		int r = bounded(c, strf("conn_recv%s of %zu bytes with %zu to come", any ? "_any" : "", n, total - at), [=] { uint32_t a; uint16_t po; return any ? conn_recv_any(h, g->b(), n, &a, &po) : conn_recv(h, g->b(), n); }); g->check(c, "a receive"); c.note("  receive %s %zu -> %d", any ? "any" : "exactly", n, r);
		if (any) { CHECK(c, r > 0 && (size_t)r <= n && (size_t)r <= total - at, "conn_recv_any of at most %zu bytes returned %d (%zu to come)", n, r, total - at); CHECK(c, std::equal(g->b(), g->b() + r, data.begin() + at), "conn_recv_any returned other bytes than were sent, at %zu", at); at += r; }
		else if (at + n <= total) { CHECK(c, r >= 0, "conn_recv of %zu of the remaining %zu bytes failed with %d", n, total - at, r); CHECK(c, n == 0 || std::equal(g->b(), g->b() + n, data.begin() + at), "conn_recv of %zu bytes at %zu returned other bytes than were sent", n, at); at += n; }
		else { CHECK(c, r < 0, "conn_recv of %zu bytes succeeded with %d although only %zu came before the end", n, r, total - at); failed = true; break; }
	}
	if (wr.joinable()) { if (at < total) ::shutdown(pfd, SHUT_RDWR); bounded(c, "harness", [&] { wr.join(); return 0; }); }
	if (!failed && at == total && !rst) for (int k = 0; k < 2; k++) { auto g = std::make_shared<Guard>(5); auto h = &p.conn->h; int r = bounded(c, "a receive after the end", [=] { return k ? conn_recv(h, g->b(), 5) : conn_recv_any(h, g->b(), 5, nullptr, nullptr); }); CHECK(c, r < 0, "a receive after the peer has closed returned %d", r); g->check(c, "a receive"); c.label("end of stream"); }
	if (total > 1 && plan.size() > 1) c.nontrivial(); p.conn->free(); if (p.listener) p.listener->free();
}
void sending(Case &c) {
	Pair p = make_pair_(c, c.draw(2), c.draw(40)); if (c.chance(60)) shim::short_send(c.pick(std::vector<unsigned>{30, 80, 100}), c.draw(1000), c.pick(std::vector<size_t>{0, 1000, 1}));
	int n = 1 + c.draw(5); std::vector<Bytes> msgs; Bytes all; for (int i = 0; i < n; i++) { Bytes b = c.blob(c.chance(20) ? c.length(c.thorough ? 3000000 : 400000, {65536}) : c.draw(2000)); if (b.size() > 3000) shim::short_send(c.draw(60), c.draw(1000), 0); msgs.push_back(b); all.insert(all.end(), b.begin(), b.end()); }
	int how = c.weighted({6, 2, 2}); size_t quit = how ? c.draw(all.size() + 1) : all.size() + 1; bool slow = c.chance(30); bool recv_too = c.chance(30); int pfd = p.peer.fd; if (slow) { int sz = 32768; setsockopt(pfd, SOL_SOCKET, SO_RCVBUF, &sz, sizeof sz); }
	c.note("%s connection, %d sends of %zu bytes in all, peer %s%s", p.kind ? "connected" : "accepted", n, all.size(), how == 0 ? "reads everything" : how == 1 ? "closes in between" : "resets in between", slow ? " slowly" : ""); c.label(how ? "send, peer goes" : "send");
	auto got = std::make_shared<Bytes>(); std::atomic<bool> stop{false};
	Job rd(c, "harness reader", [=] { uint8_t b[8192]; int turns = 0; for (;;) { size_t want = std::min<size_t>(sizeof b, quit > got->size() ? quit - got->size() : 0); if (!want) break; ssize_t k = ::recv(pfd, b, want, 0); if (k <= 0) break; got->insert(got->end(), b, b + k); if (slow && ++turns % 8 == 1) usleep(1000); } if (how == 1) ::shutdown(pfd, SHUT_RDWR); if (how == 2) { linger l{1, 0}; setsockopt(pfd, SOL_SOCKET, SO_LINGER, &l, sizeof l); int d = dup(pfd); ::close(d); } return 0; });
	if (how) { p.peer.fd = -1; } Bytes other = recv_too && !how ? c.blob(1 + c.draw(3000)) : Bytes(); std::unique_ptr<Job> rx; auto rb = std::make_shared<Guard>(other.size()); if (!other.empty()) { auto h = &p.conn->h; size_t on = other.size(); rx.reset(new Job(c, "a receive during sends", [=] { return conn_recv(h, rb->b(), on); })); write_all(pfd, other); c.label("both directions"); }
	bool err = false; size_t ok = 0; for (auto &m : msgs) { auto h = &p.conn->h; auto mp = std::make_shared<Bytes>(m); int r = bounded(c, strf("conn_send of %zu bytes", m.size()), [=] { uint8_t *q = (uint8_t *)malloc(mp->size() + 1); if (mp->size()) memcpy(q, mp->data(), mp->size()); int r = conn_send(h, q, mp->size()); ::free(q); return r; }); if (r < 0) { err = true; CHECK(c, how, "conn_send failed with %d although the peer reads", r); break; } ok += m.size(); }
	if (rx) { int r = rx->result(); CHECK(c, r >= 0, "a receive failed with %d while sending", r); rb->check(c, "a receive"); CHECK(c, std::equal(other.begin(), other.end(), rb->b()), "a receive during sends returned other bytes"); }
	p.conn->free(); int r = rd.result(20); (void)r; if (how) ::close(pfd);
	CHECK(c, got->size() <= all.size() && std::equal(got->begin(), got->end(), all.begin()), "the peer received other bytes than were sent (%zu of %zu)", got->size(), all.size());
	if (!how) CHECK(c, got->size() == all.size(), "all sends succeeded but the peer received %zu of %zu bytes", got->size(), all.size());
	if (p.listener) p.listener->free(); if (all.size() > 1) c.nontrivial();
}
struct Udp { std::unique_ptr<Conn> u; int port; };
Udp make_udp(Case &c) { Udp u; for (int i = 0;; i++) { u.port = next_port(); u.u.reset(new Conn(c, CONN_TYPE_UDP, shim::ips(0, 8), strf("%d", u.port))); int r = conn_listen(&u.u->h); if (r >= 0) break; u.u->free(); CHECK(c, i < 50, "conn_listen on UDP returned %d", r); } return u; }
void datagrams(Case &c) {
	Udp u = make_udp(c); auto h = &u.u->h; int nsend = 1 + c.draw(3); std::vector<Sock> s; std::vector<int> sd; for (int i = 0; i < nsend; i++) { int d = 1 + c.draw(60); sd.push_back(d); s.push_back(sock(c, SOCK_DGRAM, shim::ip(6, d), c.chance(50) ? 1024 + c.draw(64500) : 0)); if (s.back().fd < 0) c.discard("port in use"); }
	auto to = sa(shim::ip(0, 8), u.port); int n = 1 + c.draw(6); c.note("%d datagrams from %d senders", n, nsend); c.label("datagrams");
	for (int i = 0; i < n; i++) {
		int k = c.draw(nsend); int empties = c.chance(25) ? 1 + c.draw(3) : 0; for (int e = 0; e < empties; e++) ::sendto(s[c.draw(nsend)].fd, "", 0, 0, (sockaddr *)&to, sizeof to);
		if (c.chance(60)) {
			Bytes d = c.blob(1 + (c.chance(20) ? c.length(60000, {1, 2047, 2048, 4096}) : c.draw(300))); size_t bl = c.chance(70) ? d.size() + c.draw(100) : 1 + c.draw(d.size()); auto g = std::make_shared<Guard>(bl); struct R { uint32_t a = 0; uint16_t p = 0; }; auto rr = std::make_shared<R>(); bool first = c.chance(50), want = c.chance(80);
			auto put = [&] { if (::sendto(s[k].fd, d.data(), d.size(), 0, (sockaddr *)&to, sizeof to) != (ssize_t)d.size()) c.fail("harness: sendto: %s", strerror(errno)); };
			if (first) put(); Job j(c, "conn_recv_any", [=] { return conn_recv_any(h, g->b(), bl, want ? &rr->a : nullptr, want ? &rr->p : nullptr); }); if (!first) { if (c.chance(30)) usleep(200); put(); } int r = j.result(); g->check(c, "conn_recv_any"); size_t ex = std::min(bl, d.size()); int sp = local_port(s[k].fd); c.note("  datagram of %zu bytes from 127.x.6.%d:%d into %zu -> %d", d.size(), sd[k], sp, bl, r);
			CHECK(c, r == (int)ex, "a datagram of %zu bytes into a buffer of %zu returned %d", d.size(), bl, r); CHECK(c, std::equal(d.begin(), d.begin() + ex, g->b()), "the datagram's content is changed");
			if (want) { CHECK(c, rr->a == shim::ip(6, sd[k]), "the sender is given as %s instead of %s", inet_ntoa(in_addr{rr->a}), shim::ips(6, sd[k]).c_str()); CHECK(c, rr->p == sp, "the sender's port is given as %u instead of %d", rr->p, sp); }
			std::string nm = strf("%s:%d", shim::ips(6, sd[k]).c_str(), sp), got = remote(h); CHECK(c, nm == got, "the sender %s is named %s", nm.c_str(), got.c_str());
		} else {
			for (auto &x : s) { char b[65536]; while (::recv(x.fd, b, sizeof b, MSG_DONTWAIT) >= 0); } Bytes d = c.blob(1 + (c.chance(20) ? c.length(60000, {2048, 4096}) : c.draw(300))); int r = conn_send_to(h, d.data(), d.size(), shim::ip(6, sd[k]), local_port(s[k].fd)); c.note("  send %zu bytes to 127.x.6.%d:%d -> %d", d.size(), sd[k], local_port(s[k].fd), r); CHECK(c, r >= 0, "conn_send_to returned %d", r);
			pollfd pf{s[k].fd, POLLIN, 0}; CHECK(c, poll(&pf, 1, 8000) == 1, "the datagram did not arrive"); std::vector<uint8_t> b(70000); sockaddr_in f{}; socklen_t fl = sizeof f; ssize_t k2 = ::recvfrom(s[k].fd, b.data(), b.size(), MSG_DONTWAIT, (sockaddr *)&f, &fl); CHECK(c, k2 == (ssize_t)d.size() && std::equal(d.begin(), d.end(), b.begin()), "a datagram of %zu bytes arrived as %zd bytes or changed", d.size(), k2); CHECK(c, f.sin_addr.s_addr == shim::ip(0, 8) && ntohs(f.sin_port) == u.port, "the datagram came from %s:%d", inet_ntoa(f.sin_addr), ntohs(f.sin_port));
			for (auto &x : s) CHECK(c, ::recv(x.fd, b.data(), b.size(), MSG_DONTWAIT) < 0, "one send produced more than one datagram");
		}
	}
	c.nontrivial(); u.u->free();
}
void unblock(Case &c) {
	int what = c.draw(6); static const char *names[] = {"conn_recv on an accepted connection", "conn_recv on a connected one", "conn_recv_any on an accepted connection", "conn_recv_any on a connected one", "conn_recv_any on UDP", "conn_accept"};
	int how = c.draw(3); if (how == 2 && what != 0 && what != 2) how = c.draw(2); static const char *hows[] = {"conn_close", "conn_shutdown", "conn_drop"}; int nthr = c.chance(20) && what != 5 ? 2 : 1; unsigned delay = c.chance(30) ? c.draw(60) : c.draw(1500);
	gen_perturb(c, 40, 800); Pair p; Udp u; std::unique_ptr<Conn> lis, acc; conn_handle *h, *ah = nullptr;
	if (what < 4) { p = make_pair_(c, what & 1, c.draw(40)); h = &p.conn->h; } else if (what == 4) { u = make_udp(c); h = &u.u->h; } else { lis.reset(new Conn(c, CONN_TYPE_TCP, shim::ips(0, 7), strf("%d", next_port()))); acc.reset(new Conn(c, CONN_TYPE_TCP, "", "")); int r = conn_listen(&lis->h); CHECK(c, r >= 0, "conn_listen returned %d", r); h = &lis->h; ah = &acc->h; }
	Bytes some = what < 4 && c.chance(40) ? c.blob(1 + c.draw(50)) : Bytes(); if (!some.empty()) write_all(p.peer.fd, some); size_t want = some.size() + 1 + c.draw(100); bool twice = c.chance(30), stall = c.chance(30);
	c.note("%s%s, then %s from another thread after %u us", names[what], nthr > 1 ? " by two threads" : "", hows[how], delay); c.label("unblock %s by %s", names[what], hows[how]);
	std::vector<std::unique_ptr<Job>> js; std::vector<std::shared_ptr<Guard>> gs; size_t anyn = some.size();
	for (int i = 0; i < nthr; i++) { auto g = std::make_shared<Guard>(want); gs.push_back(g); js.emplace_back(new Job(c, names[what], [=] { if (what == 5) return conn_accept(h, ah); if (what == 0 || what == 1) return conn_recv(h, g->b(), want); size_t left = anyn; for (;;) { int r = conn_recv_any(h, g->b(), want, nullptr, nullptr); if (r < 0 || (size_t)r > left) return r; left -= r; } })); }
	if (stall) for (auto &j : js) j->wait(0.002); else if (delay) usleep(delay);
	int r = bounded(c, strf("%s while %s is blocked", hows[how], names[what]), [=] { how == 0 ? conn_close(h) : how == 1 ? conn_shutdown(h) : conn_drop(h); return 0; }); if (twice) bounded(c, strf("a second %s", hows[how]), [=] { how == 0 ? conn_close(h) : how == 1 ? conn_shutdown(h) : conn_drop(h); return 0; });
	for (auto &j : js) { int r = j->result(); CHECK(c, r < 0, "%s returned %d after %s", names[what], r, hows[how]); } for (auto &g : gs) g->check(c, "a receive");
	if (how != 1) { CHECK(c, conn_in_use(h) == 0, "the connection is still in use after %s", hows[how]); uint8_t b[4]; int r = bounded(c, "a receive after closing", [&] { return what < 4 ? conn_recv(h, b, 4) : conn_recv_any(h, b, 4, nullptr, nullptr); }); CHECK(c, r < 0, "a receive after closing returned %d", r); }
	else { uint8_t b[4]; auto h2 = h; int r = what == 5 ? bounded(c, "conn_accept after conn_shutdown", [=] { return conn_accept(h2, ah); }) : bounded(c, "a receive after conn_shutdown", [&] { return conn_recv_any(h, b, 4, nullptr, nullptr); }); CHECK(c, r < 0 || !some.empty(), "after conn_shutdown the operation returned %d", r); }
	if (ah) CHECK(c, conn_in_use(ah) == 0, "nothing was accepted but the connection is in use");
	if (what < 4) { pollfd pf{p.peer.fd, POLLIN, 0}; CHECK(c, poll(&pf, 1, 8000) == 1, "the peer does not notice %s", hows[how]); }
	if (what == 5 && how == 0 && c.chance(60)) { int r = conn_listen(h); CHECK(c, r >= 0, "listening again after closing returned %d", r); int port = atoi(lis->port.c_str()); Sock s = sock(c, SOCK_STREAM, shim::ip(6, 3), 0); auto a = sa(shim::ip(0, 7), port); CHECK(c, ::connect(s.fd, (sockaddr *)&a, sizeof a) == 0, "connecting after listening again: %s", strerror(errno)); r = bounded(c, "conn_accept", [=] { return conn_accept(h, ah); }); CHECK(c, r >= 0, "accepting after listening again returned %d", r); Bytes b = {1, 2, 3}; write_all(s.fd, b); uint8_t q[3]; r = bounded(c, "conn_recv", [&] { return conn_recv(ah, q, 3); }); CHECK(c, r >= 0 && q[0] == 1 && q[2] == 3, "receiving after reopening returned %d", r); c.label("reopened"); }
	for (auto *q : {p.conn.get(), p.listener.get(), u.u.get(), acc.get(), lis.get()}) if (q) q->free();
	c.nontrivial();
}
void timeouts(Case &c) {
	int what = c.draw(6); static const char *names[] = {"conn_recv on an accepted connection", "conn_recv on a connected one", "conn_recv_any on an accepted connection", "conn_recv_any on a connected one", "conn_recv_any on UDP", "conn_accept"};
	Pair p; Udp u; std::unique_ptr<Conn> lis, acc; conn_handle *h, *ah = nullptr; int port = 0;
	if (what < 4) { p = make_pair_(c, what & 1, c.draw(40)); h = &p.conn->h; } else if (what == 4) { u = make_udp(c); h = &u.u->h; } else { port = next_port(); lis.reset(new Conn(c, CONN_TYPE_TCP, shim::ips(0, 7), strf("%d", port))); acc.reset(new Conn(c, CONN_TYPE_TCP, "", "")); int r = conn_listen(&lis->h); CHECK(c, r >= 0, "conn_listen returned %d", r); h = &lis->h; ah = &acc->h; }
	uint32_t ms = c.weighted({16, 4}) == 0 ? 20 + c.draw(30) : c.chance(25) ? c.pick(std::vector<uint32_t>{1000, 1001, 1050}) : c.pick(std::vector<uint32_t>{4294967295u, 86400000u, 0, 5000}); if (c.chance(20)) { int r = conn_set_timeout(h, 30 + c.draw(5000)); CHECK(c, r >= 0, "conn_set_timeout returned %d", r); }
	int r = conn_set_timeout(h, ms); CHECK(c, r >= 0, "conn_set_timeout(%u) on %s returned %d", ms, names[what], r); bool never = ms == 0 || ms >= 5000; bool arrives = never || c.chance(30); unsigned wait_us = never ? 20000 + c.draw(30000) : c.draw(ms * 500); Bytes part = what < 2 && c.chance(40) ? c.blob(1 + c.draw(20)) : Bytes(); size_t want = part.size() + 1 + c.draw(20); if (!part.empty()) write_all(p.peer.fd, part);
	c.note("%s with a timeout of %u ms, %s", names[what], ms, arrives ? strf("answered after %u us", wait_us).c_str() : "nothing comes"); c.label(never ? "long or no timeout" : arrives ? "in time" : "timeout"); auto g = std::make_shared<Guard>(want); Job j(c, names[what], [=] { return what == 5 ? conn_accept(h, ah) : what < 2 ? conn_recv(h, g->b(), want) : conn_recv_any(h, g->b(), want, nullptr, nullptr); }); Bytes rest = c.blob(want - part.size()); Sock s;
	if (arrives) { bool early = j.wait(wait_us / 1e6); if (early && never) c.fail("%s with a timeout of %u ms returned %d after %.1f ms", names[what], ms, j.result(), j.ms());
		if (what < 4) write_all(p.peer.fd, rest); else if (what == 4) { s = sock(c, SOCK_DGRAM, shim::ip(6, 2), 0); auto a = sa(shim::ip(0, 8), u.port); ::sendto(s.fd, rest.data(), rest.size(), 0, (sockaddr *)&a, sizeof a); } else { s = sock(c, SOCK_STREAM, shim::ip(6, 2), 0); auto a = sa(shim::ip(0, 7), port); if (::connect(s.fd, (sockaddr *)&a, sizeof a) < 0) c.fail("harness: connect: %s", strerror(errno)); } }
	r = j.result(never ? PATIENCE : PATIENCE + ms / 1000.0); g->check(c, "a receive"); c.note("  -> %d after %.1f ms", r, j.ms());
	if (never) CHECK(c, r >= 0, "%s with a timeout of %u ms failed with %d after %.1f ms", names[what], ms, r, j.ms());
	else if (!arrives) CHECK(c, r < 0, "%s returned %d although nothing came", names[what], r);
	if (r < 0) CHECK(c, j.ms() >= ms - 11.0, "%s with a timeout of %u ms expired after %.1f ms", names[what], ms, j.ms());
	if (r >= 0 && what < 2) { Bytes all = part; all.insert(all.end(), rest.begin(), rest.end()); CHECK(c, std::equal(all.begin(), all.end(), g->b()), "conn_recv returned other bytes"); }
	for (auto *q : {p.conn.get(), p.listener.get(), u.u.get(), acc.get(), lis.get()}) if (q) q->free();
	c.nontrivial();
}
void refused(Case &c) { // sequences of operations that must fail, and failures that must leave the handle usable
	int state = c.draw(6); static const char *names[] = {"never opened TCP", "never opened UDP", "closed TCP", "closed UDP", "open UDP", "established TCP"}; Pair p; Udp u; std::unique_ptr<Conn> f; Conn *k;
	if (state == 5 || state == 2) { p = make_pair_(c, c.draw(2), c.draw(40)); k = p.conn.get(); } else if (state == 4 || state == 3) { u = make_udp(c); k = u.u.get(); } else { f.reset(new Conn(c, state == 1 ? CONN_TYPE_UDP : CONN_TYPE_TCP, shim::ips(0, 7), "")); k = f.get(); }
	auto h = &k->h; if (state == 2 || state == 3) { bounded(c, "conn_close", [=] { conn_close(h); return 0; }); } bool tcp = state == 0 || state == 2 || state == 5, open = state >= 4; Sock w = sock(c, SOCK_DGRAM, shim::ip(6, 70), 0); int wp = local_port(w.fd); Sock wl = sock(c, SOCK_STREAM, shim::ip(6, 71), 0); ::listen(wl.fd, 5); int wlp = local_port(wl.fd);
	Bytes pend; if (state == 5 && c.chance(50)) { pend = c.blob(1 + c.draw(30)); write_all(p.peer.fd, pend); } Bytes pd; Sock us; if (state == 4) { pd = c.blob(1 + c.draw(30)); us = sock(c, SOCK_DGRAM, shim::ip(6, 72), 0); auto a = sa(shim::ip(0, 8), u.port); ::sendto(us.fd, pd.data(), pd.size(), 0, (sockaddr *)&a, sizeof a); }
	c.note("%s connection", names[state]); c.label("refused: %s", names[state]); int ops = 1 + c.draw(8); auto fds0 = shim::owned_fds();
	for (int i = 0; i < ops; i++) { int op = c.draw(8); auto g = std::make_shared<Guard>(8); int r = -1; const char *nm = ""; Conn a(c, CONN_TYPE_TCP, "", ""); auto ah = &a.h;
		switch (op) {
		case 0: nm = "conn_recv"; if (state == 5) break; r = bounded(c, nm, [=] { return conn_recv(h, g->b(), 8); }); break;
		case 1: nm = "conn_recv_any"; if (open) break; r = bounded(c, nm, [=] { return conn_recv_any(h, g->b(), 8, nullptr, nullptr); }); break;
		case 2: nm = "conn_send"; if (state == 5) break; r = bounded(c, nm, [=] { return conn_send(h, (const uint8_t *)"ZZZZZZZZ", 8); }); break;
		case 3: nm = "conn_send_to"; if (state == 4) break; r = bounded(c, nm, [=] { return conn_send_to(h, (const uint8_t *)"ZZZZZZZZ", 8, shim::ip(6, 70), wp); }); break;
		case 4: nm = "conn_set_timeout"; if (open) break; r = bounded(c, nm, [=] { return conn_set_timeout(h, 50); }); break;
		case 5: nm = "conn_accept"; r = bounded(c, nm, [=] { return conn_accept(h, ah); }); break;
		case 6: nm = "conn_connect"; if (tcp) break; r = bounded(c, nm, [=] { return conn_connect(h, shim::ips(6, 71).c_str(), strf("%d", wlp).c_str()); }); break;
		case 7: nm = "conn_close"; if (open) break; { int hw = c.draw(3); r = bounded(c, nm, [=] { hw == 0 ? conn_close(h) : hw == 1 ? conn_shutdown(h) : conn_drop(h); return -1; }); } break;
		}
		c.note("  %s -> %d", nm, r); CHECK(c, r < 0, "%s on %s connection returned %d", nm, names[state], r); g->check(c, nm); for (int q = 0; q < 8; q++) CHECK(c, g->b()[q] == 0xC3 || state == 4 || state == 5, "%s failed but changed the buffer", nm);
		CHECK(c, conn_in_use(h) == (open ? 1 : 0), "after %s, %s connection is %s", nm, names[state], open ? "no longer in use" : "in use"); CHECK(c, conn_in_use(ah) == 0, "a failed accept left a connection in use"); a.free(); CHECK(c, shim::owned_fds() == fds0, "%s on %s connection changed the open descriptors", nm, names[state]); }
	if (state < 2) { std::string nm = remote(h); CHECK(c, nm.size() < 54, "the name of an unknown peer has %zu characters", nm.size()); }
	uint8_t b[64]; CHECK(c, ::recv(w.fd, b, sizeof b, MSG_DONTWAIT) < 0, "a refused operation sent a datagram"); { pollfd pf{wl.fd, POLLIN, 0}; CHECK(c, poll(&pf, 1, 0) == 0, "a refused operation made a connection"); }
	if (state == 5) { // still works, nothing lost
		if (!pend.empty()) { int r = bounded(c, "conn_recv", [&] { return conn_recv(h, b, pend.size()); }); CHECK(c, r >= 0 && std::equal(pend.begin(), pend.end(), b), "after refused operations the pending bytes are lost (%d)", r); } int r = conn_send(h, (const uint8_t *)"ok", 2); CHECK(c, r >= 0, "conn_send after refused operations returned %d", r); pollfd pf{p.peer.fd, POLLIN, 0}; CHECK(c, poll(&pf, 1, 8000) == 1 && ::recv(p.peer.fd, b, 64, MSG_DONTWAIT) == 2 && !memcmp(b, "ok", 2), "a send after refused operations did not arrive alone");
	} else if (state == 4) { int r = bounded(c, "conn_recv_any", [&] { return conn_recv_any(h, b, 64, nullptr, nullptr); }); CHECK(c, r == (int)pd.size() && std::equal(pd.begin(), pd.end(), b), "after refused operations the waiting datagram is lost (%d)", r); }
	else if (tcp && c.chance(70)) { // then it fails to open, and then opens
		bool ls = c.chance(50); int bad = c.draw(ls ? 4 : 5); std::string port = k->port, addr = k->addr; k->h.source_port = nullptr; int r; Sock busy;
		auto open_ = [&](const std::string &a, const std::string &po) { if (ls) { k->h.source_addr = a.c_str(); k->h.source_port = po.c_str(); return bounded(c, "conn_listen", [=] { return conn_listen(h); }); } return bounded(c, "conn_connect", [=] { return conn_connect(h, a.c_str(), po.c_str()); }); };
		std::string ga = ls ? shim::ips(0, 7) : shim::ips(6, 71); int gp = ls ? next_port() : wlp; k->h.source_addr = nullptr; std::string src = "not an address";
		if (ls && bad == 0) { busy = sock(c, SOCK_STREAM, shim::ip(0, 7), gp); ::listen(busy.fd, 1); } bool inj = bad == (ls ? 3 : 4); if (inj) { using namespace shim; Kind kd = ls ? c.pick(std::vector<Kind>{K_SOCKET, K_SETSOCKOPT, K_BIND, K_LISTEN, K_GETADDRINFO}) : c.pick(std::vector<Kind>{K_SOCKET, K_SETSOCKOPT, K_BIND, K_CONNECT, K_GETADDRINFO}); c.note("  %s is made to fail", kind_name[kd]); fault(kd, 1, kd == K_SOCKET ? EMFILE : ENOBUFS); }
		if (!ls && bad == 3) k->h.source_addr = src.c_str();
		r = bad == 0 ? ls ? open_(ga, strf("%d", gp)) : open_(shim::ips(6, 73), "1") : bad == 1 ? open_("not an address", strf("%d", gp)) : bad == 2 ? open_(ga, "not a port") : open_(ga, strf("%d", gp)); bool fired = shim::fault_fired(); shim::fault_clear(); if (inj && !fired) c.discard("not reached"); c.note("  failing %s (%d) -> %d", ls ? "conn_listen" : "conn_connect", bad, r);
		CHECK(c, r < 0, "%s that cannot work returned %d", ls ? "conn_listen" : "conn_connect", r); CHECK(c, conn_in_use(h) == 0, "in use after it failed to open"); CHECK(c, shim::owned_fds() == fds0, "a failed opening left a descriptor"); busy.close(); k->h.source_addr = nullptr; k->h.source_port = nullptr;
		r = open_(ga, strf("%d", gp)); CHECK(c, r >= 0, "opening after a failure returned %d", r); CHECK(c, conn_in_use(h) == 1, "not in use after opening"); c.label("failed, then opened"); bounded(c, "conn_close", [=] { conn_close(h); return 0; }); }
	for (auto *q : {p.conn.get(), p.listener.get(), u.u.get(), f.get()}) if (q) q->free();
	c.nontrivial();
}
void names(Case &c) {
	if (c.chance(30)) { unsigned start = c.draw(65536), n = c.chance(10) ? 65536 : 1 + c.draw(3000); c.note("%u port numbers from %u", n, start); for (unsigned i = 0; i < n; i++) { uint16_t v = (uint16_t)(start + i); char *b = (char *)malloc(6); memset(b, '#', 6); conn_port_to_str(v, b); std::string s(b, strnlen(b, 6)); ::free(b); CHECK(c, s == strf("%u", v), "port %u is printed as %s", v, quoted(s).c_str()); } c.label("port numbers"); c.nontrivial(); return; }
	int v6 = c.chance(40) ? 1 + c.draw(2) : 0; if (v6) { int t = ::socket(AF_INET6, SOCK_STREAM, 0); sockaddr_in6 a{}; a.sin6_family = AF_INET6; a.sin6_addr = in6addr_loopback; bool ok = t >= 0 && ::bind(t, (sockaddr *)&a, sizeof a) == 0; if (t >= 0) ::close(t); if (!ok) c.discard("no IPv6"); }
	int port = c.weighted({4, 1, 1, 1}); port = port == 0 ? 1024 + c.draw(64512) : port == 1 ? 1 + c.draw(9) : port == 2 ? 10 + c.draw(90) : 100 + c.draw(900); shim::allow_v6 = v6; int d = c.draw(200); c.note("a client from %s port %d", v6 == 1 ? "::1" : shim::ips(6, 1 + d).c_str(), port);
	Pair p = make_pair_(c, 0, d, port, v6); shim::allow_v6 = false; std::string got = remote(&p.conn->h); CHECK(c, got == p.name, "the peer %s is named %s", p.name.c_str(), quoted(got).c_str());
	if (c.chance(30)) { Bytes b = c.blob(1 + c.draw(20)); write_all(p.peer.fd, b); uint8_t q[32]; auto h = &p.conn->h; int r = bounded(c, "conn_recv_any", [&] { return conn_recv_any(h, q, 32, nullptr, nullptr); }); CHECK(c, r > 0, "conn_recv_any returned %d", r); got = remote(h); CHECK(c, got == p.name, "after a receive the peer %s is named %s", p.name.c_str(), quoted(got).c_str()); }
	p.conn->free(); p.listener->free(); c.label(v6 == 1 ? "IPv6 peer" : v6 ? "IPv4 peer of an IPv6 socket" : "IPv4 peer"); c.nontrivial();
}
}
static void run(Case &c) {
	shim::reset(); shim::ledger_forget(); struct Off { ~Off() { shim::perturb_off(); shim::short_recv(0, 0); shim::short_send(0, 0); shim::allow_v6 = false; } } off;
	uint64_t t0 = mono_ns(); int fam = c.weighted({6, 4, 5, 7, 2, 4, 4}); struct T { uint64_t t; int f; ~T() { if (FILE *ff = getenv("VP_T") ? fopen(getenv("VP_T"), "a") : nullptr) fprintf(ff, "T %d %llu\n", f, (unsigned long long)(mono_ns() - t) / 1000), fclose(ff); } } tt{t0, fam}; switch (fam) { case 0: exact(c); break; case 1: sending(c); break; case 2: datagrams(c); break; case 3: unblock(c); break; case 4: timeouts(c); break; case 5: refused(c); break; default: names(c); }
	clean(c);
}
Property the_property = {"C22",
	"A case is one of: fixed-length and any-length receives of generated sizes over an accepted or connected connection whose peer sends generated bytes in generated pieces and then ends or resets (with shortened reads); sends with partial acceptance to a fast, slow, closing or resetting peer, also with receives at the same time; datagrams of 0 to 60000 bytes from and to several senders, larger and smaller than the buffer; a receive or accept blocked in one or two threads ended by close, shutdown or drop after 0-1500 us under perturbed schedules, then reuse; timeouts from 0 to 4294967295 ms; sequences of operations on connections that are not open or of the wrong kind, openings that fail and then succeed; port numbers and peers' names (IPv4, IPv6, ports of 1 to 5 digits). Oracle: the bytes, sizes, senders and names known to the harness, guard bytes around buffers, bounded durations, the descriptor ledger. Non-trivial: more than one byte and receive; every case of the other kinds.",
	world_process_init, run, 16000, 500000, 60, {"a timeout may expire up to 11 ms early (granularity of kernel timers)", "that the kernel ends a connection whose keep-alive probes go unanswered is taken from the socket options, not waited for", "conn_drop is only generated for accepted connections, its documented use", "IPv6 peers only where ::1 exists"}};
