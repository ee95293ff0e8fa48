// C26: concurrent use is free of data races
#include "common.hpp"
#include <atomic>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
static std::string exe() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); std::string p(b, n > 0 ? n : 0); return p.substr(0, p.rfind('/')) + "/racehost"; }
static std::string slurp(const std::string &p) { std::string o; FILE *f = fopen(p.c_str(), "r"); if (!f) return o; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n); fclose(f); return o; }
static std::string dir() { return scratch_dir() + "/r"; }
// the program with the library inside, built with ThreadSanitizer
struct Host {
	Case &c; pid_t pid = 0; int fd = -1, st = 0; bool gone = false; std::string buf;
	explicit Host(Case &c) : c(c) {}
	~Host() { if (fd >= 0) ::close(fd); if (pid && !gone) { ::kill(pid, SIGKILL); waitpid(pid, &st, 0); } }
	static std::string filtered(const std::string &t, int &known) { // without the reports of the recorded finding: a descriptor is closed while another thread connects it
		std::string o; known = 0; for (size_t p = 0; p < t.size();) { size_t e = t.find("\n==================\n", p + 1); e = e == std::string::npos ? t.size() : e + 1; std::string b = t.substr(p, e - p); p = e;
			auto has = [&](const char *x) { return b.find(x) != std::string::npos; }; if (has("Location is file descriptor") && has("data race") && has("#0 close ") && has("#0 connect ")) known++; else o += b; }
		return o;
	}
	std::string reports() { std::string o; if (DIR *d = opendir(dir().c_str())) { while (dirent *e = readdir(d)) if (!strncmp(e->d_name, "ts.", 3)) o += slurp(dir() + "/" + e->d_name); closedir(d); } return o; }
	void spawn(unsigned seed, int prob, int maxus, int hold = 0) {
		if (DIR *d = opendir(dir().c_str())) { while (dirent *e = readdir(d)) if (e->d_name[0] != '.') ::unlink((dir() + "/" + e->d_name).c_str()); closedir(d); }
		for (int i = 0; i < 500; i++) { // the program of a case that was stopped may still be going away
			int t = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1; setsockopt(t, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = shim::ip(0, 1); a.sin_port = htons(8100); bool free = ::bind(t, (sockaddr *)&a, sizeof a) == 0 && ::listen(t, 1) == 0; ::close(t); if (free) break; usleep(10000);
		}
		int sv[2]; CHECK(c, socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv) == 0, "harness: socketpair: %s", strerror(errno));
		std::string bin = exe(), err = dir() + "/err", race = strf("%u,%d,%d", seed, prob, maxus), ts = "exitcode=66 log_path=" + dir() + "/ts detect_deadlocks=1 history_size=4 second_deadlock_stack=1 abort_on_error=0"; char reg[64]; uint32_t ri = shim::ip(4, 1); inet_ntop(AF_INET, &ri, reg, sizeof reg); pid_t me = getpid();
		pid = fork(); if (pid == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != me) _exit(1); int e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(sv[1], 0); dup2(sv[1], 1); dup2(e, 2); for (int f = 3; f < 4096; f++) ::close(f); for (int g = 1; g < 32; g++) signal(g, SIG_DFL); sigset_t none; sigemptyset(&none); sigprocmask(SIG_SETMASK, &none, nullptr);
			setenv("VP_RACE", race.c_str(), 1); setenv("VP_REG", reg, 1); if (hold) setenv("VP_HOLD", strf("%d", hold).c_str(), 1); setenv("TSAN_OPTIONS", ts.c_str(), 1); unsetenv("UBSAN_OPTIONS"); unsetenv("ASAN_OPTIONS"); execl(bin.c_str(), "racehost", (char *)nullptr); _exit(126);
		}
		::close(sv[1]); fd = sv[0];
	}
	void died(const char *during) { // never returns
		for (int i = 0; i < 300 && !gone; i++) { if (waitpid(pid, &st, WNOHANG) == pid) gone = true; else usleep(10000); }
		judge(); c.fail("the process ended (%s) during \"%s\": %s", !gone ? "not reaped" : WIFSIGNALED(st) ? strf("signal %d", WTERMSIG(st)).c_str() : strf("status %d", WEXITSTATUS(st)).c_str(), during, slurp(dir() + "/err").substr(0, 2000).c_str());
	}
	int cmd(const std::string &x, double secs = 30) {
		std::string l = x + "\n"; if (::send(fd, l.data(), l.size(), MSG_NOSIGNAL) != (ssize_t)l.size()) died(x.c_str());
		for (int left = (int)(secs * 10);;) { size_t p = buf.find('\n'); if (p != std::string::npos) { int r = atoi(buf.c_str()); buf.erase(0, p + 1); return r; }
			if (left <= 0) { judge(); c.fail("%s does not return", x.c_str()); } pollfd pf{fd, POLLIN, 0}; if (poll(&pf, 1, 100) <= 0) { left--; continue; } char b[256]; ssize_t n = ::recv(fd, b, sizeof b, 0); if (n <= 0) died(x.c_str()); buf.append(b, n); }
	}
	int known = 0;
	void judge() { std::string t = filtered(reports(), known); if (t.find("WARNING: ThreadSanitizer") != std::string::npos || t.find("ERROR: ThreadSanitizer") != std::string::npos) c.fail("ThreadSanitizer: %s", t.substr(0, 3500).c_str()); }
	void quit() { ::shutdown(fd, SHUT_WR); uint64_t dl = mono_ns() + 20000000000ull; while (!gone && mono_ns() < dl) { if (waitpid(pid, &st, WNOHANG) == pid) gone = true; else usleep(1000); } judge(); CHECK(c, gone, "the process does not end"); if (known) { c.label("the recorded finding shows"); if (WIFEXITED(st) && WEXITSTATUS(st) == 66) return; } CHECK(c, WIFEXITED(st) && WEXITSTATUS(st) == 0, "the process ended with status %x: %s", st, slurp(dir() + "/err").substr(0, 2000).c_str()); }
};
// ---- everybody else, each a thread with a script drawn beforehand
struct Act { int op; uint32_t arg; uint32_t ip; Bytes b; };
struct Script { std::string call, pw; int greet; unsigned delay_us; std::vector<Act> acts; int end; bool reads; int from; };
struct Stats { std::atomic<int> connected{0}, challenged{0}, served{0}, now{0}, most{0}, replies{0}; };
static int dial(int from, int port) { // the proxy's backlog is short: an attempt that is not taken at once is made again
	for (uint64_t dl = mono_ns() + 1500000000ull;;) {
		int fd = tcp_socket_from(shim::ip(3, from)); fcntl(fd, F_SETFL, O_NONBLOCK); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = shim::ip(0, 1); a.sin_port = htons(port); int r = ::connect(fd, (sockaddr *)&a, sizeof a), e = errno;
		if (r < 0 && e == EINPROGRESS) { pollfd pf{fd, POLLOUT, 0}; if (poll(&pf, 1, 5) > 0) { socklen_t l = sizeof e; getsockopt(fd, SOL_SOCKET, SO_ERROR, &e, &l); r = e ? -1 : 0; } }
		if (r == 0) { fcntl(fd, F_SETFL, 0); timeval tv{8, 0}; setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); timeval ts{0, 300000}; setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &ts, sizeof ts); return fd; }
		::close(fd); if (e == ECONNREFUSED || mono_ns() > dl) return -1; usleep(1000);
	}
}
static void hangup(int fd, bool rst) { if (rst) { linger l{1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); } ::close(fd); }
static bool all(int fd, const Bytes &b) { size_t o = 0; while (o < b.size()) { ssize_t n = ::send(fd, b.data() + o, b.size() - o, MSG_NOSIGNAL); if (n <= 0) return false; o += n; } return true; }
static bool challenge(int fd, std::string &ch, int ms) { timeval tv{ms / 1000, ms % 1000 * 1000}; setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); struct R { int fd; ~R() { timeval tv{8, 0}; setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); } } r{fd}; char b[8]; size_t n = 0; while (n < 8) { ssize_t r = ::recv(fd, b + n, 8 - n, 0); if (r <= 0) return false; n += r; } ch.assign(b, 8); return true; }
static void client(const Script &s, int port, Stats &st, std::atomic<bool> &stop) {
	if (s.delay_us) usleep(s.delay_us);
	int fd = dial(s.from, port); if (fd < 0) return; st.connected++; std::string ch; if (s.greet == 3) { hangup(fd, s.end == 1); return; }
	for (int t = 0; !challenge(fd, ch, 150); t++) { ::close(fd); if (t == 3 || stop || (fd = dial(s.from, port)) < 0) return; } /* (what overflows the backlog looks connected) */ st.challenged++; auto r = response_for(ch, s.pw); std::string g = s.call + "\n"; g.append((char *)r.data(), 16); if (s.greet == 2) g.resize(g.size() - 5);
	if (!all(fd, Bytes(g.begin(), g.end())) || s.greet == 2) { hangup(fd, s.end == 1); return; }
	bool in = false; auto drain = [&](int flags) { char b[65536]; for (;;) { ssize_t n = ::recv(fd, b, sizeof b, flags); if (n <= 0) return n == 0 ? 0 : errno == EAGAIN ? 1 : -1; st.replies++; if (!in && s.greet == 0) { in = true; st.served++; int m = ++st.now, o = st.most; while (o < m && !st.most.compare_exchange_weak(o, m)) ; } if (!flags) return 1; } };
	bool broken = false; for (auto &a : s.acts) { if (a.op == 0) { usleep(a.arg); continue; } if (!all(fd, enc(a.op, a.ip, a.b))) { broken = true; break; } if (s.reads && drain(MSG_DONTWAIT) <= 0) { broken = true; break; } }
	if (!broken && s.end == 2) for (uint64_t dl = mono_ns() + 8000000000ull; mono_ns() < dl && !stop;) { pollfd pf{fd, POLLIN, 0}; if (poll(&pf, 1, 20) > 0 && drain(MSG_DONTWAIT) <= 0) break; }
	else if (!broken && s.reads) { pollfd pf{fd, POLLIN, 0}; if (poll(&pf, 1, 30) > 0) drain(MSG_DONTWAIT); }
	if (in) st.now--; hangup(fd, s.end == 1);
}
struct Remote { // 127.B.2.1: datagram sockets and a listening socket
	int u[2], lis; std::thread t; std::atomic<bool> stop{false}; std::vector<std::thread> conns;
	Remote(Case &c, int slots, uint64_t seed, int udp_every_us) {
		for (int i = 0; i < 2; i++) { u[i] = ::socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = shim::ip(2, 1); a.sin_port = htons(5198 + i); CHECK(c, ::bind(u[i], (sockaddr *)&a, sizeof a) == 0, "harness: remote: %s", strerror(errno)); }
		lis = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0); int one = 1; setsockopt(lis, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = shim::ip(2, 1); a.sin_port = htons(5200); CHECK(c, ::bind(lis, (sockaddr *)&a, sizeof a) == 0 && ::listen(lis, 64) == 0, "harness: remote: %s", strerror(errno));
		t = std::thread([=] {
			uint64_t s = seed | 1; auto rnd = [&](unsigned n) { s = mix64(s); return (unsigned)(s % n); }; struct K { int fd; int left; }; std::vector<K> ks; char b[65536];
			while (!stop) {
				pollfd pf{lis, POLLIN, 0}; poll(&pf, 1, 0); usleep(udp_every_us); for (;;) { int k = ::accept4(lis, nullptr, nullptr, SOCK_CLOEXEC | SOCK_NONBLOCK); if (k < 0) break; ks.push_back({k, (int)rnd(6)}); if (rnd(3)) ::send(k, b, 1 + rnd(4000), MSG_NOSIGNAL); }
				for (size_t i = 0; i < ks.size(); i++) { auto &k = ks[i]; ssize_t n = ::recv(k.fd, b, sizeof b, 0); if (n == 0 || (n < 0 && errno != EAGAIN) || k.left-- <= 0) { if (rnd(2) || n == 0) { hangup(k.fd, rnd(3) == 0); ks.erase(ks.begin() + i--); continue; } k.left = rnd(20); } if (rnd(2)) ::send(k.fd, b, 1 + rnd(9000), MSG_NOSIGNAL); }
				for (int i = 0; i < 2; i++) { while (::recv(u[i], b, sizeof b, 0) >= 0) ; for (int j = rnd(4); j > 0; j--) { sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = shim::ip(1, 1 + rnd(slots)); a.sin_port = htons(5198 + i); ::sendto(u[i], b, 1 + rnd(600), 0, (sockaddr *)&a, sizeof a); } }
			}
			for (auto &k : ks) ::close(k.fd);
		});
	}
	~Remote() { stop = true; if (t.joinable()) t.join(); ::close(u[0]); ::close(u[1]); ::close(lis); }
};
struct Reg { // the registrar on 127.B.4.1:80; mode 1 answers, 2 hangs up, 3 answers late
	int lis = -1; std::thread t; std::atomic<bool> stop{false}; std::atomic<int> contacts{0};
	Reg(Case &c, int mode) { if (!mode) return; lis = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0); int one = 1; setsockopt(lis, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = shim::ip(4, 1); a.sin_port = htons(80); CHECK(c, ::bind(lis, (sockaddr *)&a, sizeof a) == 0 && ::listen(lis, 64) == 0, "harness: registrar: %s", strerror(errno));
		t = std::thread([this, mode] { while (!stop) { pollfd pf{lis, POLLIN, 0}; if (poll(&pf, 1, 20) <= 0) continue; int k = ::accept4(lis, nullptr, nullptr, SOCK_CLOEXEC); if (k < 0) continue; contacts++; timeval tv{0, 300000}; setsockopt(k, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); char b[8192]; if (mode != 2) { ::recv(k, b, sizeof b, 0); if (mode == 3) usleep(30000); ::send(k, "HTTP/1.1 200 OK\r\n\r\n", 19, MSG_NOSIGNAL); } ::close(k); } }); }
	~Reg() { stop = true; if (t.joinable()) t.join(); if (lis >= 0) ::close(lis); }
};
static Script gen_script(Case &c, const std::string &pw) {
	Script s; s.call = c.chance(70) ? simple_call(c.draw(6)) : c.chance(70) ? simple_call(c.draw(200)) : "BAD"; s.pw = pw; s.greet = c.weighted({12, 2, 1, 1}); if (s.greet == 1) s.pw = "wrong"; s.delay_us = c.chance(50) ? c.draw(4000) : 0; s.from = 1 + c.draw(3); s.reads = c.chance(85); s.end = c.weighted({4, 2, 2});
	int n = c.draw(c.chance(70) ? 8 : 40); for (int i = 0; i < n; i++) { Act a; a.op = c.weighted({3, 3, 2, 1, 0, 4, 4}); a.arg = c.draw(3000); a.ip = a.op == TCP_OPEN || a.op >= UDP_DATA ? shim::ip(2, c.chance(85) ? 1 : 9) : 0; if (a.op == TCP_DATA || a.op >= UDP_DATA) a.b = c.blob(1 + c.draw(c.chance(90) ? 600 : 6000)); s.acts.push_back(a); }
	return s;
}
static void proxy_case(Case &c) {
	int slots = 1 + c.draw(4), port = 8100, regmode = c.draw(4), rounds = 1 + c.draw(2), most = 0, served = 0, challenged = 0, ctl = 0; std::string conf = dir() + "/conf";
	int prob = c.pick(std::vector<int>{0, 10, 20, 60}), maxus = c.pick(std::vector<int>{50, 200, 500}); Host h(c); h.spawn(c.draw(1u << 30), prob, maxus);
	Conf cf; cf.slots = slots; cf.port = port; cf.denied = "^BAD"; if (regmode) cf.reg_name = "REG"; { FILE *f = fopen(conf.c_str(), "w"); std::string t = cf.text(); fwrite(t.data(), 1, t.size(), f); fclose(f); }
	c.note("%d slot(s), registrar %s, delays %d/1024 up to %d us", slots, regmode == 0 ? "off" : regmode == 1 ? "answers" : regmode == 2 ? "hangs up" : "answers late", prob, maxus);
	auto ok = [&](const std::string &x) { int r = h.cmd(x); CHECK(c, r == 0, "%s returned %d", x.c_str(), r); };
	ok("init"); int level = c.weighted({1, 1, 4}); ok(strf("level %d", level == 2 ? 5 : level)); ok("load " + conf);
	for (int round = 0; round < rounds; round++) {
		Reg reg(c, regmode); ok("log " + dir() + "/log"); ok("open"); ok("start"); bool early = c.chance(20); if (early && c.chance(50)) ok("update"); ok("serve");
		{ Remote rem(c, slots, c.draw(1u << 30), 100 + c.draw(2000)); Stats st; std::atomic<bool> stop{false};
			int bursts = c.draw(4) + 1; bool during = false;
			for (int b = 0; b < bursts; b++) {
				std::vector<Script> ss; int n = 1 + c.draw(c.thorough ? 12 : 8); for (int i = 0; i < n; i++) ss.push_back(gen_script(c, cf.password));
				std::vector<std::pair<unsigned, std::string>> ops; for (int k = c.weighted({3, 3, 2, 1}); k > 0; k--) { static const std::vector<std::string> what = {"drop", "update", "talk 5", "drop"}; ops.push_back({(unsigned)c.draw(12000), c.pick(what)}); }
				bool last = b == bursts - 1; during = last && c.chance(60); unsigned when = c.draw(15000); c.note("burst of %d client(s)%s", n, during ? ", shut down meanwhile" : ""); stop = false;
				std::vector<std::thread> ts; struct J { std::vector<std::thread> &t; std::atomic<bool> &s; ~J() { s = true; for (auto &x : t) if (x.joinable()) x.join(); } } j{ts, stop};
				for (auto &s : ss) ts.emplace_back([&, s] { client(s, port, st, stop); });
				for (auto &o : ops) { usleep(o.first); c.note("%s", o.second.c_str()); ok(o.second); ctl++; }
				if (during) { usleep(when); ok("shutdown"); ok("close"); ctl++; }
				else { if (c.chance(50)) { usleep(c.draw(20000)); ok("drop"); ctl++; } stop = true; }
			}
			most = std::max(most, (int)st.most); served += st.served; challenged += st.challenged;
			if (!during) { // all slots still work
				for (int i = 0; i < slots && c.chance(50); i++) ; std::vector<int> fds; struct F { std::vector<int> &f; ~F() { for (int x : f) ::close(x); } } fc{fds}; bool probe = c.chance(60);
				if (probe) for (int i = 0; i < slots; i++) for (uint64_t dl = mono_ns() + 20000000000ull;;) { int fd = dial(4, port); std::string ch; if (fd >= 0 && challenge(fd, ch, 500)) { auto r = response_for(ch, cf.password); std::string g = simple_call(i) + "\n"; g.append((char *)r.data(), 16); all(fd, Bytes(g.begin(), g.end())); Bytes m; for (int t = 0; t < 1; t++) { auto x = enc(TCP_OPEN, shim::ip(2, 1), {}); m.insert(m.end(), x.begin(), x.end()); } all(fd, m); char x[64]; ssize_t n = ::recv(fd, x, sizeof x, 0); if (n <= 0) { h.judge(); c.fail("client %d of %d gets no answer after the others left (%s)", i + 1, slots, n == 0 ? "closed" : strerror(errno)); } fds.push_back(fd); break; } if (fd >= 0) ::close(fd); if (mono_ns() > dl) { h.judge(); c.fail("client %d of %d is turned away although the others left", i + 1, slots); } usleep(5000); }
				ok("shutdown"); ok("close");
			}
		}
		h.judge(); if (regmode == 1 && reg.contacts == 0) c.label("registrar never contacted");
	}
	ok("free"); h.quit(); c.label("%s", rounds > 1 ? "two rounds" : "one round"); if (most >= 2) c.label("several sessions at once"); if (ctl) c.label("calls meanwhile"); if (regmode) c.label("registered"); if (challenged >= 4 && served >= 2) c.nontrivial();
}
struct Listen { int fd; Listen(Case &c, uint32_t ip) { fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0); int one = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = ip; a.sin_port = htons(8100); CHECK(c, ::bind(fd, (sockaddr *)&a, sizeof a) == 0 && ::listen(fd, 16) == 0, "harness: %s", strerror(errno)); } ~Listen() { ::close(fd); } };
static void client_case(Case &c) { // the bundled client, disconnected by another thread
	Host h(c); h.spawn(c.draw(1u << 30), c.pick(std::vector<int>{0, 20, 200}), c.pick(std::vector<int>{50, 500})); char host[64]; uint32_t ip = shim::ip(2, 2); inet_ntop(AF_INET, &ip, host, sizeof host); int meet = 0;
	Listen l(c, ip); int lis = l.fd;
	int r = h.cmd(strf("cinit %s 8100 K1ABC secret", host)); CHECK(c, r == 0, "proxy_client_init returned %d", r);
	for (int k = 1 + c.draw(4); k > 0; k--) {
		int how = c.draw(4); unsigned w1 = c.draw(3000), w2 = c.draw(3000); h.cmd("cconnect"); int fd = -1; for (int i = 0; i < 2000 && fd < 0; i++) { fd = ::accept4(lis, nullptr, nullptr, SOCK_CLOEXEC); if (fd < 0) usleep(1000); } CHECK(c, fd >= 0, "the client does not connect");
		usleep(w1); if (how >= 2) ::send(fd, "0123abcd", how == 2 ? 8 : 3, MSG_NOSIGNAL); if (how == 1) { ::close(fd); fd = -1; } usleep(w2); h.cmd("cdisconnect"); h.cmd("cjoin"); if (c.chance(50)) h.cmd("cdisconnect"); if (fd >= 0) ::close(fd); meet++;
	}
	h.cmd("cfree"); h.quit(); c.label("bundled client"); if (meet >= 2) c.nontrivial();
}
static bool close_while_connecting(Case &c) {
	Host h(c); h.spawn(1, 0, 0, 400000); char host[64]; uint32_t ip = shim::ip(2, 2); inet_ntop(AF_INET, &ip, host, sizeof host); Listen l(c, ip); h.cmd(strf("cinit %s 8100 K1ABC secret", host)); h.cmd("cconnect"); usleep(150000); h.cmd("cdisconnect"); h.cmd("cjoin"); h.cmd("cfree"); h.quit(); return h.known > 0;
}
static void run(Case &c) { if (c.chance(6)) client_case(c); else proxy_case(c); }
static void init() { world_process_init(); mkdir(dir().c_str(), 0755); }
Property the_property = {"C26",
	"A case is a process that runs the library under ThreadSanitizer with random delays around its locks and system calls, and 1-2 open-serve-close rounds on 1-4 slots in which bursts of simultaneous clients (right and wrong greetings, unfinished ones, shared callsigns, datagrams, relayed connections, ends, resets, idling, not reading), a remote host and a registrar talk to it while other threads drop everybody, update the registration, log and finally shut down and close, at generated moments; or the bundled client disconnected by another thread while connecting. Oracle: no data race, lock inversion or misuse of a lock reported, every call returns, open and start succeed, all slots serve again after a burst, the process ends normally. Non-trivial: at least four challenged and two served clients (or two bundled connections).",
	init, run, 700, 12000, 120, {"ThreadSanitizer sees conflicting accesses of executions that happened; the clients' timing is not replayed exactly"}, {{"close-while-connecting", "a bundled client disconnected by another thread before its connect() returns: the descriptor is closed while it is being connected", close_while_connecting}}};
