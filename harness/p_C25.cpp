// C25: the bundled client greets a proxy correctly
#include "common.hpp"
#include <future>
#include <netdb.h>
extern "C" {
#include "proxy_client.h"
}
namespace {
int on_thread(Case &c, const char *what, std::function<int()> fn) {
	auto p = std::make_shared<std::promise<int>>(); auto f = p->get_future(); std::thread([p, fn] { p->set_value(fn()); }).detach();
	if (f.wait_for(std::chrono::seconds(8)) != std::future_status::ready) c.fail("%s did not return within 8 s", what);
	return f.get();
}
char *exact(const std::string &s) { char *p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; } // overreads are seen
int listener(uint32_t ip, int &port) {
	int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = ip; socklen_t n = sizeof a;
	if (::bind(fd, (sockaddr *)&a, n) < 0 || ::listen(fd, 4) < 0) { ::close(fd); return -1; }
	getsockname(fd, (sockaddr *)&a, &n); port = ntohs(a.sin_port); return fd;
}
bool readable(int fd, int ms) { pollfd p{fd, POLLIN, 0}; return ::poll(&p, 1, ms) > 0; }
struct H {
	proxy_client_handle h{}; std::string host, port, call, pw; bool has_call = true, has_pw = true, inited = false; int srv = -1, fd = -1;
	void set(uint32_t ip, int prt) { drop(); char b[20]; inet_ntop(AF_INET, &ip, b, sizeof b); host = b; port = strf("%d", prt); h.host_addr = exact(host); h.host_port = exact(port); h.callsign = has_call ? exact(call) : nullptr; h.password = has_pw ? exact(pw) : nullptr; }
	void drop() { ::free(h.host_addr); ::free(h.host_port); ::free(h.callsign); ::free(h.password); h.host_addr = h.host_port = h.callsign = h.password = nullptr; }
	void same(Case &c) { CHECK(c, host == h.host_addr && port == h.host_port && (has_call ? h.callsign && call == h.callsign : !h.callsign) && (has_pw ? h.password && pw == h.password : !h.password), "the caller's strings were changed"); }
	~H() { if (srv >= 0) ::close(srv); }
};
void run(Case &c) {
	std::vector<std::unique_ptr<H>> hs; int n = 1 + c.draw(2); size_t open = 0; bool interesting = false;
	for (int i = 0; i < n; i++) hs.emplace_back(new H);
	auto check_fds = [&](const char *when) { auto r = shim::res(); CHECK(c, r.fds == (long)open, "%s %ld descriptors are open instead of %zu (%s)", when, r.fds, open, shim::describe_open().c_str()); CHECK(c, r.addrinfos == 0, "%s an address list was kept", when); CHECK(c, shim::bad_closes() == 0, "%s a descriptor was closed that is not open", when); };
	int ops = 2 + c.draw(c.thorough ? 14 : 8);
	for (int op = 0; op < ops; op++) {
		H &h = *hs[c.draw(hs.size())];
		if (!h.inited) {
			if (c.chance(10)) { proxy_client_free(&h.h); c.note("free before init"); CHECK(c, !h.h.priv, "free before init left private data"); }
			bool fault = c.chance(15); if (fault) { shim::Kind k = c.chance(60) ? shim::K_ALLOC : shim::K_MUTEXINIT; shim::fault(k, 1 + c.draw(3), k == shim::K_ALLOC ? 0 : EAGAIN); }
			int r = proxy_client_init(&h.h); bool fired = fault && shim::fault_fired(); shim::fault_clear();
			if (fired) { c.note("init with a failing resource: %d", r); c.label("failing init"); interesting = true; CHECK(c, r < 0, "a resource failed in proxy_client_init, which returned %d", r); CHECK(c, !h.h.priv, "a failed init left private data"); check_fds("after a failed init"); if (c.chance(50)) proxy_client_free(&h.h); continue; }
			CHECK(c, r == 0 && h.h.priv, "proxy_client_init returned %d", r); h.inited = true;
		}
		if (h.fd >= 0 || c.chance(8)) { // disconnect or free
			bool fr = c.chance(35); int twice = c.chance(25);
			for (int k = 0; k <= twice; k++) on_thread(c, fr ? "proxy_client_free" : "proxy_client_disconnect", [&] { if (fr) proxy_client_free(&h.h); else proxy_client_disconnect(&h.h); return 0; });
			c.note("%s%s", fr ? "free" : "disconnect", twice ? " twice" : ""); if (fr) { h.inited = false; CHECK(c, !h.h.priv, "free left private data"); }
			if (h.fd >= 0) {
				CHECK(c, readable(h.srv, 8000), "the server does not see the end of the connection"); uint8_t b[64]; ssize_t k = ::recv(h.srv, b, sizeof b, MSG_DONTWAIT);
				CHECK(c, k == 0 || (k < 0 && errno == ECONNRESET), "after the greeting the client sent %zd more bytes", k); ::close(h.srv); h.srv = -1; h.fd = -1; open--;
			}
			check_fds("after disconnecting"); continue;
		}
		// connect
		h.has_call = !c.chance(8); h.call = c.chance(60) ? gen_callsign(c) : std::string(); if (h.call.empty() && c.chance(70)) { size_t k = c.chance(10) ? c.draw(200000) : c.draw(300); for (size_t i = 0; i < k; i++) h.call += (char)('A' + (i * 7 + k) % 26); }
		h.has_pw = !c.chance(20); h.pw = gen_password(c, 300);
		int port = 0; uint32_t ip = shim::ip(6, 1 + c.draw(40)); int l = listener(ip, port); if (l < 0) c.discard("no port"); struct L { int fd; ~L() { if (fd >= 0) ::close(fd); } } lg{l};
		int kind = c.weighted({12, 3, 2, 4, 2}); h.set(ip, port);
		uint32_t nonce = c.chance(25) ? c.pick(std::vector<uint32_t>{0, 1, 0xffffffffu, 0x80000000u, 0x0a0b0c0d, 0xabcdefab, 10, 0x12345678}) : (uint32_t)c.bits(32); std::string dig = strf("%08x", nonce); bool up = c.chance(15);
		std::string sent = dig; if (up) for (char &ch : sent) ch = toupper(ch);
		std::string extra; if (c.chance(40)) { Bytes b = c.blob(c.draw(40)); extra.assign(b.begin(), b.end()); }
		if (c.chance(40)) shim::short_recv(c.pick(std::vector<unsigned>{30, 100}), c.draw(1000), c.pick(std::vector<size_t>{0, 1, 3}));
		if (c.chance(40)) shim::short_send(c.pick(std::vector<unsigned>{30, 100}), c.draw(1000), h.call.size() > 1000 ? 0 : c.pick(std::vector<size_t>{0, 1, 7}));
		std::vector<size_t> cuts; { size_t o = 0, total = sent.size() + extra.size(); while (o < total && cuts.size() < 5) { size_t k = 1 + c.draw(total - o); cuts.push_back(k); o += k; } if (o < total) cuts.push_back(total - o); } int pace = c.draw(3);
		size_t stop = kind == 1 ? c.draw(8) : sent.size() + extra.size(); bool rst = kind == 1 && c.chance(40);
		shim::Kind fk = shim::K_SEND; if (kind == 3) { fk = c.pick(std::vector<shim::Kind>{shim::K_SOCKET, shim::K_CONNECT, shim::K_GETADDRINFO, shim::K_SEND, shim::K_RECV, shim::K_BIND, shim::K_SETSOCKOPT, shim::K_ALLOC}); shim::count_reset(); shim::fault(fk, 1 + c.draw(fk == shim::K_SEND || fk == shim::K_GETADDRINFO ? 3 : 1), fk == shim::K_SEND || fk == shim::K_RECV ? ECONNRESET : fk == shim::K_CONNECT ? ETIMEDOUT : fk == shim::K_GETADDRINFO ? EAI_NONAME : fk == shim::K_ALLOC ? 0 : EMFILE); }
		if (kind == 2) { ::close(l); lg.fd = -1; }
		static const char *kn[] = {"good server", "server that ends early", "nobody there", "a call fails", "disconnected while waiting"};
		c.note("connect: %s, callsign %s, password %s, challenge %s + %zu bytes", kn[kind], h.has_call ? quoted(h.call.substr(0, 40)).c_str() : "none", h.has_pw ? quoted(h.pw).c_str() : "none", sent.c_str(), extra.size()); c.label("%s", kn[kind]);
		auto before = shim::owned_fds(); std::string all = sent + extra; auto hp = &h.h;
		auto pr = std::make_shared<std::promise<int>>(); auto fu = pr->get_future(); std::thread([pr, hp] { pr->set_value(proxy_client_connect(hp)); }).detach();
		int s = -1; std::string want; { auto resp = response_for(dig, h.has_pw ? h.pw : "PUBLIC"); want = (h.has_call ? h.call : "") + "\n"; want.append((char *)resp.data(), 16); }
		std::string got; bool ended = false; auto take = [&](int ms) { while (s >= 0 && !ended && readable(s, ms)) { char b[4096]; ssize_t k = ::recv(s, b, sizeof b, MSG_DONTWAIT); if (k <= 0) { ended = true; break; } got.append(b, k); ms = 0; } };
		auto done = [&](int ms) { return fu.wait_for(std::chrono::milliseconds(ms)) == std::future_status::ready; };
		if (kind != 2) {
			for (int w = 0; w < 8000 && s < 0; w += 10) { if (readable(l, done(0) ? 0 : 10)) s = ::accept4(l, nullptr, nullptr, SOCK_CLOEXEC); else if (done(0) && !readable(l, 0)) break; }
			if (s < 0 && kind != 3) c.fail("no connection reached the server");
		}
		if (kind == 4 && s >= 0) { size_t k = c.draw(8); if (k) ::send(s, all.data(), k, MSG_NOSIGNAL); usleep(c.draw(1500)); CHECK(c, !done(0), "proxy_client_connect returned %d before the challenge was complete", fu.get()); take(0); CHECK(c, got.empty(), "the client sent %s before the challenge was complete", quoted(got).c_str()); // only a call already waiting is unblocked
			usleep(20000); on_thread(c, "proxy_client_disconnect", [hp] { proxy_client_disconnect(hp); return 0; }); }
		else if (s >= 0) {
			size_t o = 0; for (size_t k : cuts) { if (o >= stop) break; k = std::min(k, stop - o); if (kind == 0 && o < 8 && c.chance(20)) { take(0); CHECK(c, got.empty(), "the client sent %s before the challenge was complete", quoted(got).c_str()); CHECK(c, !done(0), "proxy_client_connect returned before the challenge was complete"); } ::send(s, all.data() + o, k, MSG_NOSIGNAL); o += k; if (pace == 1) usleep(300); if (pace == 2) std::this_thread::yield(); }
			if (kind == 1) { if (rst) { linger lo{1, 0}; setsockopt(s, SOL_SOCKET, SO_LINGER, &lo, sizeof lo); take(0); ::close(s); s = -1; } else ::shutdown(s, SHUT_WR); }
		}
		for (int w = 0; w < 1600 && !done(5); w++) take(0);
		if (!done(0)) c.fail("proxy_client_connect did not return within 8 s (%s)", kn[kind]);
		int r = fu.get(); bool fired = kind == 3 && shim::fault_fired(); shim::fault_clear(); shim::short_recv(0, 0); shim::short_send(0, 0); h.same(c);
		bool must_fail = kind == 1 || kind == 2 || kind == 4 || fired;
		if (kind == 3 && fk == shim::K_ALLOC && r == 0) must_fail = false; // going on without the memory is fine if the greeting is right
		if (must_fail) {
			interesting = true; CHECK(c, r < 0, "%s, yet proxy_client_connect returned %d", kn[kind], r);
			if (s >= 0) { for (int w = 0; w < 800 && !ended; w++) take(10); CHECK(c, ended, "a failed connect left the connection open"); CHECK(c, got.size() <= want.size() && want.compare(0, got.size(), got) == 0, "the client sent %s", quoted(got).c_str()); if (kind == 1 || kind == 4) CHECK(c, got.empty(), "without a complete challenge the client sent %s", quoted(got).c_str()); ::close(s); }
			check_fds("after a failed connect");
		} else {
			CHECK(c, r == 0, "a good server greeted the client, yet proxy_client_connect returned %d", r); CHECK(c, s >= 0, "connected, but not to this server");
			for (int w = 0; w < 800 && got.size() < want.size() && !ended; w++) take(10);
			take(c.chance(20) ? 3 : 0); CHECK(c, !ended, "the client did not stay connected"); CHECK(c, got == want, "the greeting is %s instead of %s", quoted(got).c_str(), quoted(want).c_str());
			open++; check_fds("after connecting"); for (int f : shim::owned_fds()) if (std::find(before.begin(), before.end(), f) == before.end()) h.fd = f; CHECK(c, h.fd >= 0, "no descriptor belongs to the connection"); h.srv = s;
			std::string rest; for (int w = 0; w < 800 && rest.size() < extra.size(); w++) if (readable(h.fd, 10)) { char b[64]; ssize_t k = ::recv(h.fd, b, sizeof b, MSG_DONTWAIT); if (k <= 0) break; rest.append(b, k); }
			CHECK(c, rest == extra, "what follows the challenge is %s to the client instead of %s", quoted(rest).c_str(), quoted(extra).c_str());
			if (!h.has_pw || h.call.size() > 10 || cuts.size() > 1) interesting = true;
		}
	}
	for (auto &h : hs) { if (h->inited) on_thread(c, "proxy_client_free", [&] { proxy_client_free(&h->h); return 0; }); h->drop(); }
	open = 0; check_fds("at the end"); auto r = shim::res(); CHECK(c, r.blocks == 0, "after freeing everything %ld blocks are left (%s)", r.blocks, shim::describe_open().c_str());
	if (interesting) c.nontrivial();
}
}
Property the_property = {"C25",
	"A case is a history over 1-2 client handles: init (also with a failing resource), connect to a server played by the harness (good; ending within the challenge, by end or reset; nobody there; a failing call of any kind; disconnected from another thread while waiting), disconnect and free (also twice or before init). Callsigns of 0 to 200000 characters or none, passwords of all bytes or none, challenges in either letter case and any pieces, short receives and partial sends, bytes right after the challenge. Oracle: independent MD5, exact greeting, nothing before the challenge, nothing after, following bytes untouched, open descriptors exactly the connected handles, strings unchanged, everything released. Non-trivial: a failing connect or init, a challenge in pieces, no password or a long callsign.",
	world_process_init, run, 5000, 120000, 60, {"servers are on 127/8; non-hexadecimal challenges are unspecified; connecting a handle that is connected is not generated"}};
