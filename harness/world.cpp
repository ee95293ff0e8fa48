#include "world.hpp"
#include <algorithm>
#include <array>
#include <cerrno>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <mutex>
enum { TCP_NODELAY = 1, TCP_QUICKACK = 12 };
#include <poll.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <unistd.h>
#include <exception>

// ------------------------------------------------------------------ MD5 (RFC 1321)
void md5(const void *p, size_t n, uint8_t out[16]) {
	static const int S[64] = {7,12,17,22,7,12,17,22,7,12,17,22,7,12,17,22,5,9,14,20,5,9,14,20,5,9,14,20,5,9,14,20,4,11,16,23,4,11,16,23,4,11,16,23,4,11,16,23,6,10,15,21,6,10,15,21,6,10,15,21,6,10,15,21};
	static uint32_t K[64];
	if (!K[1]) for (int i = 0; i < 64; i++) { double v = __builtin_fabs(__builtin_sin(i + 1.0)) * 4294967296.0; K[i] = (uint32_t)(uint64_t)v; }
	Bytes m((const uint8_t *)p, (const uint8_t *)p + n);
	m.push_back(0x80); while (m.size() % 64 != 56) m.push_back(0);
	uint64_t bl = (uint64_t)n * 8; for (int i = 0; i < 8; i++) m.push_back((uint8_t)(bl >> (8 * i)));
	uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
	for (size_t o = 0; o < m.size(); o += 64) {
		uint32_t w[16]; for (int i = 0; i < 16; i++) w[i] = m[o + 4 * i] | m[o + 4 * i + 1] << 8 | m[o + 4 * i + 2] << 16 | (uint32_t)m[o + 4 * i + 3] << 24;
		uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
		for (int i = 0; i < 64; i++) {
			uint32_t f; int g;
			if (i < 16) { f = (b & c) | (~b & d); g = i; } else if (i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; }
			else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) % 16; } else { f = c ^ (b | ~d); g = (7 * i) % 16; }
			uint32_t t = d; d = c; c = b; uint32_t x = a + f + K[i] + w[g]; b = b + (x << S[i] | x >> (32 - S[i])); a = t;
		}
		h[0] += a; h[1] += b; h[2] += c; h[3] += d;
	}
	for (int i = 0; i < 16; i++) out[i] = (uint8_t)(h[i / 4] >> (8 * (i % 4)));
}
std::string md5_hex_upper(const std::string &s) { uint8_t d[16]; md5(s.data(), s.size(), d); std::string o; for (int i = 0; i < 16; i++) o += strf("%02X", d[i]); return o; }
std::string upper_ascii(std::string s) { for (char &ch : s) if (ch >= 'a' && ch <= 'z') ch -= 32; return s; }
std::array<uint8_t, 16> response_for(const std::string &digits, const std::string &pw) {
	std::array<uint8_t, 16> r; std::string t = upper_ascii(pw) + digits; md5(t.data(), t.size(), r.data()); return r;
}
std::string scratch_file(const std::string &name, const std::string &content) {
	std::string p = scratch_dir() + "/" + name; FILE *f = fopen(p.c_str(), "w"); if (f) { fwrite(content.data(), 1, content.size(), f); fclose(f); } return p;
}

void world_process_init() {
	static int lockfd = -1; if (lockfd >= 0) return;
	unsigned s = (unsigned)getpid();
	for (int t = 0; t < 400; t++) {
		int b = 1 + (s * 7 + t) % 250;
		sockaddr_un u{}; u.sun_family = AF_UNIX; int n = snprintf(u.sun_path + 1, 80, "vp-openelp-base-%d", b);
		int fd = ::socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
		if (::bind(fd, (sockaddr *)&u, offsetof(sockaddr_un, sun_path) + 1 + n) == 0) { lockfd = fd; shim::base = b; return; }
		::close(fd); if (t == 250) usleep(100000);
	}
	fprintf(stderr, "no free address block\n"); _exit(9);
}

// ------------------------------------------------------------------ sockets
static void setnb(int fd) { fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK); }
Ep::~Ep() { shut(); }
void Ep::shut() {
	if (fd < 0) return;
	if (!dgram && !listener) { linger l{1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
	::close(fd); fd = -1; for (int p : pending) ::close(p); pending.clear();
}
void Ep::close_fin() { if (fd >= 0) { ::close(fd); fd = -1; } }
std::shared_ptr<Ep> World::add(int fd, bool dgram, bool listener) {
	if (!dgram && !listener) { int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); setsockopt(fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one); }
	auto e = std::make_shared<Ep>(); e->fd = fd; e->dgram = dgram; e->listener = listener; setnb(fd); eps.push_back(e); return e;
}
int tcp_socket_from(uint32_t ip) {
	int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = ip; int one = 1;
	setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
	if (::bind(fd, (sockaddr *)&a, sizeof a) < 0) { ::close(fd); return -1; }
	return fd;
}
std::string show(const Msg &m) { return strf("type %d addr %s %zu bytes %s", m.type, inet_ntoa(in_addr{m.addr}), m.data.size(), hex(m.data.data(), m.data.size(), 24).c_str()); }
Bytes enc_hdr(uint8_t t, uint32_t a, uint32_t n) { Bytes b(9); b[0] = t; memcpy(&b[1], &a, 4); memcpy(&b[5], &n, 4); return b; }
Bytes enc(uint8_t t, uint32_t a, const Bytes &d) { Bytes b = enc_hdr(t, a, d.size()); b.insert(b.end(), d.begin(), d.end()); return b; }

void Client::parse() {
	if (!parsing) return;
	while (ep->avail() >= 9) {
		const uint8_t *p = &ep->rx[ep->off]; uint32_t n; memcpy(&n, p + 5, 4);
		if (p[0] < 2 || p[0] > 6) w.c.fail("client '%s' received a message of type %d (not 2..6): stream %s", call.c_str(), p[0], hex(p, ep->avail()).c_str());
		if ((uint64_t)n + 9 > 4096) w.c.fail("client '%s' received a message announcing %u bytes (over 4096 in all): %s", call.c_str(), n, hex(p, ep->avail()).c_str());
		if (p[0] == TCP_CLOSE && n != 0) w.c.fail("TCP_CLOSE with %u bytes", n);
		if (p[0] == TCP_STATUS && n != 4) w.c.fail("TCP_STATUS with %u bytes", n);
		if (p[0] != TCP_CLOSE && n == 0) w.c.fail("message of type %d without payload", p[0]);
		if (ep->avail() < 9 + n) break;
		Msg m; m.type = p[0]; memcpy(&m.addr, p + 1, 4); m.data.assign(p + 9, p + 9 + n); msgs.push_back(m);
		ep->off += 9 + n;
	}
	if (ep->off > 65536) { ep->rx.erase(ep->rx.begin(), ep->rx.begin() + ep->off); ep->off = 0; }
}
void World::pump() {
	static thread_local uint8_t buf[65536];
	for (size_t i = 0; i < eps.size(); i++) {
		auto e = eps[i]; if (e->fd < 0 || e->paused) continue;
		if (e->listener) {
			for (;;) { int a = ::accept4(e->fd, nullptr, nullptr, SOCK_CLOEXEC | SOCK_NONBLOCK); if (a < 0) break; e->pending.push_back(a); }
		} else if (e->dgram) {
			for (;;) { sockaddr_in s{}; socklen_t n = sizeof s; ssize_t r = ::recvfrom(e->fd, buf, sizeof buf, MSG_DONTWAIT, (sockaddr *)&s, &n); if (r < 0) break; e->dg.push_back({s.sin_addr.s_addr, ntohs(s.sin_port), Bytes(buf, buf + r)}); }
		} else if (!e->gone()) {
			bool got = false;
			for (;;) {
				ssize_t r = ::recv(e->fd, buf, sizeof buf, MSG_DONTWAIT);
				if (r > 0) { e->rx.insert(e->rx.end(), buf, buf + r); got = true; continue; }
				if (r == 0) e->eof = true; else if (errno != EAGAIN && errno != EINTR) e->err = errno;
				break;
			}
			if (got) { int one = 1; setsockopt(e->fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one); } // the proxy's small writes wait for acknowledgements
		}
	}
	for (auto &kv : peers) { auto &p = kv.second; if (p->lis) while (!p->lis->pending.empty()) { int fd = p->lis->pending.front(); p->lis->pending.pop_front(); p->conns.push_back(add(fd, false, false)); } }
	if (parse_clients) for (auto &cl : clients) cl->parse();
	if (on_pump) on_pump();
}
bool World::wait(const std::function<bool()> &pred, double secs) {
	uint64_t dl = mono_ns() + (uint64_t)(secs * 1e9); int spins = 0;
	for (;;) {
		pump(); if (pred()) return true;
		if (mono_ns() > dl) { pump(); return pred(); }
		if (spins++ < 20) { sched_yield(); continue; }
		std::vector<pollfd> pf; for (auto &e : eps) if (e->fd >= 0 && !e->paused && !e->gone()) pf.push_back({e->fd, POLLIN, 0});
		timespec ts{0, spins < 200 ? 100000 : 1000000}; ppoll(pf.data(), pf.size(), &ts, nullptr);
	}
}
void World::must(const std::function<bool()> &pred, const char *what, double secs) { if (!wait(pred, secs)) c.fail("did not happen within %.0f s: %s", secs, what); }

static bool all_sleeping() {
	pid_t self = (pid_t)syscall(SYS_gettid); DIR *d = opendir("/proc/self/task"); if (!d) return true; bool ok = true;
	while (dirent *e = readdir(d)) {
		if (e->d_name[0] == '.' || atoi(e->d_name) == self) continue;
		char p[64], b[512]; snprintf(p, sizeof p, "/proc/self/task/%s/stat", e->d_name); int fd = ::open(p, O_RDONLY | O_CLOEXEC); if (fd < 0) continue;
		ssize_t n = ::read(fd, b, sizeof b - 1); ::close(fd); if (n <= 0) continue; b[n] = 0;
		char *q = strrchr(b, ')'); if (q && q[2] != 'S' && q[2] != 'Z' && q[2] != 'X') { ok = false; break; }
	}
	closedir(d); return ok;
}
bool World::quiesce(double secs) {
	uint64_t dl = mono_ns() + (uint64_t)(secs * 1e9); int good = 0; uint64_t ev = ~0ull;
	while (good < 3) {
		pump();
		uint64_t e = shim::events;
		bool ok = shim::delays_active == 0 && e == ev && all_sleeping() && shim::delays_active == 0 && shim::events == e;
		good = ok ? good + 1 : 0; ev = e;
		if (good < 3) { if (mono_ns() > dl) { c.label("not quiescent"); return false; } usleep(ok ? 150 : 80); }
	}
	pump(); return true;
}
void World::bounded(const char *what, double secs, const std::function<void()> &fn) {
	struct Sh { std::mutex m; std::condition_variable cv; bool done = false; }; auto sh = std::make_shared<Sh>();
	std::thread t([sh, fn] { fn(); std::lock_guard<std::mutex> g(sh->m); sh->done = true; sh->cv.notify_all(); });
	bool ok;
	uint64_t dl = mono_ns() + (uint64_t)(secs * 1e9);
	for (;;) { { std::unique_lock<std::mutex> g(sh->m); ok = sh->cv.wait_for(g, std::chrono::milliseconds(2), [&] { return sh->done; }); } if (ok || mono_ns() > dl) break; pump(); }
	if (!ok) { t.detach(); c.fail("%s did not finish within %.0f s; open: %s", what, secs, shim::describe_open().c_str()); }
	t.join();
}

// ------------------------------------------------------------------ proxy
std::string Conf::text() const {
	std::string t = "Password = " + password + "\n";
	t += strf("Port=%d\n", port);
	if (any_listen != 1) t += "BindAddress=" + (any_listen == 3 ? "" : any_listen ? "0.0.0.0" : shim::ips(0, listen_d)) + "\n";
	if (any_ext != 1) t += "ExternalBindAddress=" + (any_ext == 3 ? "" : any_ext ? "0.0.0.0" : shim::ips(1, ext_off + 1)) + "\n";
	if (slots > 1) { t += "AdditionalExternalBindAddresses="; for (int i = 2; i <= slots; i++) t += (i > 2 ? "," : "") + shim::ips(ext_c(ext_off + i), ext_d(ext_off + i)); t += "\n"; }
	if (!allowed.empty()) t += "CallsignsAllowed=" + allowed + "\n";
	if (!denied.empty()) t += "CallsignsDenied=" + denied + "\n";
	if (!reg_name.empty()) t += "RegistrationName=" + reg_name + "\n";
	if (!reg_comment.empty()) t += "RegistrationComment=" + reg_comment + "\n";
	if (!public_addr.empty()) t += "PublicAddress=" + public_addr + "\n";
	return t + extra;
}
World::World(Case &c) : c(c) { shim::reset(); shim::socket_timeouts_div(1000); } // a time limit on a socket of the proxy passes quickly
World::~World() {
	if (std::uncaught_exceptions()) {
		// a failing case ends the process; just get the threads out of the way
		if (acceptor.joinable()) acceptor.detach();
		return;
	}
	down();
}
int World::init() { memset(&ph, 0, sizeof ph); int r = proxy_init(&ph); inited = r >= 0; return r; }
int World::load(const Conf &cf) { conf = cf; return proxy_load_conf(&ph, scratch_file("proxy.conf", cf.text()).c_str()); }
int World::open() {
	proxy_log_level(&ph, (enum LOG_LEVEL)(LOG_LEVEL_DEBUG - c.weighted({12, 4, 1, 1, 2}))); proxy_log_select_medium(&ph, LOG_MEDIUM_FILE, "/dev/null");
	int r = proxy_open(&ph); opened = r >= 0; return r;
}
int World::start() { return proxy_start(&ph); }
void World::accept_loop() {
	acc_stop = false; acc_done = false; acc_err = 0; acc_errs = 0;
	acceptor = std::thread([this] {
		while (!acc_stop) { int r = proxy_process(&ph); if (r < 0) { acc_err = r; acc_errs++; if (acc_stop) break; usleep(200); } }
		acc_done = true;
	});
}
void World::up(const Conf &cf) {
	int r;
	if (!inited) { r = init(); CHECK(c, r == 0, "proxy_init failed: %d", r); }
	if ((r = load(cf)) < 0) c.fail("proxy_load_conf failed (%d) on\n%s", r, cf.text().c_str());
	if ((r = open()) < 0) c.fail("proxy_open failed (%d)", r);
	if ((r = start()) < 0) c.fail("proxy_start failed (%d)", r);
	accept_loop();
}
void World::shutdown() {
	acc_stop = true;
	bounded("proxy_shutdown", 10, [this] { proxy_shutdown(&ph); });
	if (acceptor.joinable()) {
		if (!wait([this] { return acc_done.load(); })) c.fail("proxy_process did not return within %.0f s of proxy_shutdown", PATIENCE);
		acceptor.join();
	}
}
void World::close() {
	if (!opened) return;
	if (acceptor.joinable()) shutdown();
	bounded("proxy_close", 12, [this] { proxy_close(&ph); });
	opened = false;
}
void World::free() { if (inited) { bounded("proxy_free", 12, [this] { proxy_free(&ph); }); inited = false; } }
void World::down() {
	close(); free();
	clients.clear(); for (auto &e : eps) e->shut();
	eps.clear(); peers.clear();
}

// ------------------------------------------------------------------ actors
ClientP World::connect(int k) {
	static thread_local int rot = 0;
	if (k < 0) { k = 1 + (rot++ % 200); if (c.chance(20)) k = 201 + c.draw(2); } // sometimes several clients from one host
	auto cl = std::make_shared<Client>(*this, k);
	int fd = tcp_socket_from(shim::ip(3, k)); CHECK(c, fd >= 0, "harness: client socket: %s", strerror(errno));
	uint64_t acc0 = shim::accepted_total();
	setnb(fd); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = conf.listen_ip(); a.sin_port = htons(conf.port);
	int r = ::connect(fd, (sockaddr *)&a, sizeof a);
	if (r < 0 && errno != EINPROGRESS) { int e = errno; ::close(fd); c.fail("connecting to the proxy failed: %s", strerror(e)); }
	cl->ep = add(fd, false, false); cl->ep->paused = true;
	// wait for the handshake (it can take a SYN retransmission, the backlog is 0)
	uint64_t dl = mono_ns() + 15000000000ull; pollfd p{fd, POLLOUT, 0};
	while (poll(&p, 1, 1) == 0) { pump(); if (mono_ns() > dl) c.fail("the proxy did not take a TCP connection within 15 s"); }
	int so = 0; socklen_t sl = sizeof so; getsockopt(fd, SOL_SOCKET, SO_ERROR, &so, &sl);
	if (so) c.fail("connecting to the proxy failed: %s", strerror(so));
	cl->ep->paused = false;
	// one connection at a time in the accept queue (it holds one), or a SYN or ACK is dropped and costs a second
	if (acceptor.joinable() && !acc_stop) wait([&] { return shim::accepted_total() > acc0 || cl->ep->gone(); }, 3);
	clients.push_back(cl); return cl;
}
void World::get_challenge(ClientP &cl) {
	must([&] { return cl->ep->avail() >= 8 || cl->gone(); }, "challenge of 8 digits");
	CHECK(c, cl->ep->avail() >= 8, "client was disconnected (errno %d) instead of being challenged; got %s", cl->ep->err, hex(cl->ep->rx.data(), cl->ep->rx.size()).c_str());
	cl->digits.assign((char *)&cl->ep->rx[cl->ep->off], 8); cl->ep->off += 8;
	for (char ch : cl->digits) CHECK(c, isxdigit((unsigned char)ch), "challenge is not 8 hexadecimal digits: %s", quoted(cl->digits).c_str());
}
void Client::send(const Bytes &b) {
	size_t o = 0; uint64_t dl = mono_ns() + (uint64_t)(PATIENCE * 2e9);
	while (o < b.size()) {
		ssize_t r = ::send(ep->fd, &b[o], b.size() - o, MSG_NOSIGNAL | MSG_DONTWAIT);
		if (r > 0) { o += r; continue; }
		if (errno == EAGAIN) { w.pump(); if (mono_ns() > dl) w.c.fail("the proxy stopped reading from client '%s'", call.c_str()); pollfd p{ep->fd, POLLOUT, 0}; poll(&p, 1, 1); continue; }
		return; // broken connection: seen by the reader
	}
}
bool Client::try_send(const uint8_t *p, size_t n) {
	while (n) { ssize_t r = ::send(ep->fd, p, n, MSG_NOSIGNAL | MSG_DONTWAIT); if (r <= 0) return false; p += r; n -= r; }
	return true;
}
void World::greet(ClientP &cl, const std::string &call, const std::string &pw) {
	auto r = response_for(cl->digits, pw); Bytes b(call.begin(), call.end()); b.push_back('\n'); b.insert(b.end(), r.begin(), r.end());
	cl->call = call; cl->send(b);
}
// TCP_DATA without a connection is answered by TCP_CLOSE: a barrier through the session
void World::barrier(ClientP &cl) {
	size_t n = 0; for (auto &m : cl->msgs) n += m.type == TCP_CLOSE;
	cl->send(enc(TCP_DATA, 0, Bytes{0}));
	must([&] { size_t k = 0; for (auto &m : cl->msgs) k += m.type == TCP_CLOSE; return k > n || cl->gone(); }, "reply to TCP_DATA without a connection");
	size_t k = 0; for (auto &m : cl->msgs) k += m.type == TCP_CLOSE;
	CHECK(c, k > n, "client '%s' was disconnected (errno %d, stream %s)", cl->call.c_str(), cl->ep->err, hex(cl->ep->rx.data(), cl->ep->rx.size()).c_str());
	for (size_t i = cl->msgs.size(); i-- > 0;) if (cl->msgs[i].type == TCP_CLOSE) { cl->msgs.erase(cl->msgs.begin() + i); break; }
}
void World::confirm_in(ClientP &cl) { cl->parsing = true; cl->in = true; barrier(cl); }
ClientP World::login(const std::string &call, int k) {
	auto cl = connect(k); get_challenge(cl); greet(cl, call, conf.password); confirm_in(cl); return cl;
}
static int bind_dg(Case &c, uint32_t ip, int port) {
	int fd = ::socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = ip; a.sin_port = htons(port);
	int sz = 1 << 20; setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &sz, sizeof sz);
	if (::bind(fd, (sockaddr *)&a, sizeof a) < 0) { int e = errno; ::close(fd); c.fail("harness: bind udp %d: %s", port, strerror(e)); }
	return fd;
}
PeerP World::peer(int k, bool tcp) {
	auto it = peers.find(k); if (it != peers.end()) return it->second;
	auto p = std::make_shared<Peer>(); p->k = k; p->ip = shim::ip(2, k);
	p->data = add(bind_dg(c, p->ip, 5198), true, false); p->ctl = add(bind_dg(c, p->ip, 5199), true, false);
	if (tcp) {
		int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = p->ip; a.sin_port = htons(5200); int one = 1;
		setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
		if (::bind(fd, (sockaddr *)&a, sizeof a) < 0 || ::listen(fd, 16) < 0) { int e = errno; ::close(fd); c.fail("harness: listen 5200: %s", strerror(e)); }
		p->lis = add(fd, false, true);
	}
	peers[k] = p; return p;
}
void World::drop_client(ClientP &cl) {
	clients.erase(std::remove(clients.begin(), clients.end(), cl), clients.end());
	eps.erase(std::remove(eps.begin(), eps.end(), cl->ep), eps.end());
	cl->ep->shut();
}
void World::leave(ClientP &cl, bool rst) {
	if (cl->ep->fd >= 0) { if (rst) cl->ep->shut(); else cl->ep->close_fin(); }
	drop_client(cl);
}
Msg World::next(ClientP &cl, const char *why) {
	if (!wait([&] { return !cl->msgs.empty() || cl->gone(); }) || cl->msgs.empty())
		c.fail("client '%s': expected %s, %s (pending bytes: %s)", cl->call.c_str(), why, cl->gone() ? "but was disconnected" : "nothing came", hex(cl->ep->rx.data() + cl->ep->off, cl->ep->avail()).c_str());
	Msg m = cl->msgs.front(); cl->msgs.pop_front(); return m;
}
void World::expect_none(ClientP &cl, const char *why) {
	pump();
	if (!cl->msgs.empty()) c.fail("client '%s' received an unexpected message (%s): %s", cl->call.c_str(), why, show(cl->msgs.front()).c_str());
	if (cl->ep->avail()) c.fail("client '%s' received %zu stray bytes (%s): %s", cl->call.c_str(), cl->ep->avail(), why, hex(&cl->ep->rx[cl->ep->off], cl->ep->avail()).c_str());
}
void World::expect_gone(ClientP &cl, const char *why) { if (!wait([&] { return cl->gone(); })) c.fail("client %s was not disconnected: %s", quoted(cl->call).c_str(), why); }
int World::slot_ip_index(uint32_t ip) { for (int i = 0; i + conf.ext_off < 250 || i < conf.slots; i++) if (ip == slot_ip(i)) return i; return -1; }
int World::learn_slot(ClientP &cl, PeerP &p) {
	Bytes tag = {'s', 'l', 'o', 't', (uint8_t)cl->k, (uint8_t)(cl->ep->fd)};
	cl->send(enc(UDP_CTL, p->ip, tag));
	if (!wait([&] { return !p->ctl->dg.empty() || cl->gone(); }) || p->ctl->dg.empty()) c.fail("client '%s' %s; its control datagram never arrived", cl->call.c_str(), cl->gone() ? "was disconnected" : "is connected");
	Dgram d = p->ctl->dg.front(); p->ctl->dg.pop_front();
	CHECK(c, d.data == tag, "datagram arrived altered: %s", hex(d.data.data(), d.data.size()).c_str());
	CHECK(c, d.src_port == 5199, "control datagram came from port %d", d.src_port);
	int s = slot_ip_index(d.src_ip); CHECK(c, s >= 0, "control datagram came from %s, which is no configured external address", inet_ntoa(in_addr{d.src_ip}));
	cl->slot = s; return s;
}
bool World::settle(ClientP &) { return quiesce(); }
