// C23: the daemon honours its options, signals and streams
#include "common.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
typedef std::vector<std::string> Args;
static std::string exe() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); std::string p(b, n > 0 ? n : 0); return p.substr(0, p.rfind('/')) + "/openelpd"; }
static std::string slurp(const std::string &p) { std::string o; FILE *f = fopen(p.c_str(), "r"); if (!f) return o; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n); fclose(f); return o; }
static void put(const std::string &p, const std::string &t) { FILE *f = fopen(p.c_str(), "w"); if (f) { fwrite(t.data(), 1, t.size(), f); fclose(f); } }
static bool has(const std::string &s, const std::string &x) { return s.find(x) != std::string::npos; }
static size_t lines(const std::string &s) { return std::count(s.begin(), s.end(), '\n'); }
static std::vector<pid_t> children() { std::vector<pid_t> v; DIR *d = opendir("/proc/self/task"); if (!d) return v; while (dirent *e = readdir(d)) { if (e->d_name[0] == '.') continue; FILE *f = fopen(strf("/proc/self/task/%s/children", e->d_name).c_str(), "r"); int p; if (!f) continue; while (fscanf(f, "%d", &p) == 1) v.push_back(p); fclose(f); } closedir(d); return v; }
static bool listening(int port) { // looks without touching
	FILE *f = fopen("/proc/net/tcp", "r"); if (!f) return false; char l[512]; bool r = false; uint32_t ip = shim::ip(0, 1); while (!r && fgets(l, sizeof l, f)) { unsigned a, p, st; if (sscanf(l, " %*d: %x:%x %*x:%*x %x", &a, &p, &st) == 3) r = a == ip && (int)p == port && st == 10; } fclose(f); return r;
}
static bool refused(int port) { int fd = tcp_socket_from(shim::ip(3, 199)); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = shim::ip(0, 1); a.sin_port = htons(port); int r = ::connect(fd, (sockaddr *)&a, sizeof a); ::close(fd); return r < 0; }
static bool free_port(int type, uint32_t ip, int port) { int fd = ::socket(AF_INET, type | SOCK_CLOEXEC, 0), one = 1; if (type == SOCK_STREAM) setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = ip; a.sin_port = htons(port); bool ok = ::bind(fd, (sockaddr *)&a, sizeof a) == 0 && (type != SOCK_STREAM || ::listen(fd, 1) == 0); ::close(fd); return ok; }
static std::string base() { return scratch_dir() + "/d"; }
static std::string cwd() { return base() + "/run"; }
static std::string show(const Args &a) { std::string s = "openelpd"; for (auto &x : a) s += " " + (x.empty() || has(x, " ") ? "'" + x + "'" : x); return s; }
struct Daemon {
	Case &c; pid_t first = 0, serving = 0; int st = 0; bool first_gone = false, gone = false; std::string out = base() + "/out", err = base() + "/err";
	explicit Daemon(Case &c) : c(c) {}
	void spawn(const Args &a, int outkind) {
		::unlink(out.c_str()); ::unlink(err.c_str()); pid_t me = getpid(); std::string bin = exe();
		first = fork(); if (first == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != me) _exit(1);
			if (chdir(cwd().c_str())) _exit(1); int i = open("/dev/null", O_RDONLY), o = open(outkind == 1 ? "/dev/full" : outkind == 2 ? "/dev/null" : out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600), e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
			dup2(i, 0); dup2(o, 1); dup2(e, 2); for (int f = 3; f < 4096; f++) ::close(f); for (int g = 1; g < 32; g++) signal(g, SIG_DFL); sigset_t none; sigemptyset(&none); sigprocmask(SIG_SETMASK, &none, nullptr); setenv("VP_SYSLOG", (base() + "/syslog").c_str(), 1);
			std::vector<char *> v; v.push_back((char *)"openelpd"); for (auto &x : a) v.push_back((char *)x.c_str()); v.push_back(nullptr); execv(bin.c_str(), v.data()); _exit(126);
		}
		serving = first;
	}
	bool poll_first() { if (!first_gone && waitpid(first, &st, WNOHANG) == first) { first_gone = true; if (serving == first) gone = true; } return first_gone; }
	bool poll() { if (gone) return true; if (serving == first) return poll_first(); if (waitpid(serving, &st, WNOHANG) == serving) gone = true; return gone; }
	std::string said() { return slurp(out) + slurp(err); }
	std::string status() { return WIFSIGNALED(st) ? strf("was killed by signal %d", WTERMSIG(st)) : strf("exited with status %d", WEXITSTATUS(st)); }
	bool crashed() { return WIFSIGNALED(st) || WEXITSTATUS(st) == 77 || WEXITSTATUS(st) == 126; }
	void kill_all() { if (first && !first_gone) { ::kill(first, SIGKILL); waitpid(first, &st, 0); } first_gone = true; for (int r = 0; r < 20; r++) { auto v = children(); if (v.empty()) break; for (pid_t p : v) { ::kill(p, SIGKILL); int s; waitpid(p, &s, 0); } } }
	~Daemon() { kill_all(); }
};
static void init() { world_process_init(); for (int g : {SIGINT, SIGTERM, SIGHUP, SIGALRM, SIGUSR1}) signal(g, SIG_DFL); // what the check was started with must not matter
	 prctl(PR_SET_CHILD_SUBREAPER, 1); mkdir(base().c_str(), 0755); mkdir(cwd().c_str(), 0755); mkdir((base() + "/etc").c_str(), 0755); }
enum End { NOTHING, HELP, VERSION, BAD };
struct Line { Args a; std::set<int> ends; bool d = false, F = false, q = false, S = false; std::string L, conf; };
// a command line that means something the model knows
static Line gen_line(Case &c, const std::string &conf, bool named, int log, const std::string &logpath, bool fg, bool dbg, bool quiet, int bad) {
	Line l; l.F = fg; l.d = dbg; l.q = quiet; l.S = log == 2; if (log == 1) l.L = logpath; if (named) l.conf = conf;
	// items: short letters (joined at random), long options, words
	struct Item { std::string shorts, word; bool path = false; }; std::vector<Item> it;
	auto sh = [&](char x) { it.push_back({std::string(1, x), "", false}); }; auto wd = [&](const std::string &s) { it.push_back({"", s, false}); };
	for (int k = dbg ? 1 + c.draw(2) : 0; k > 0; k--) if (c.chance(50)) sh('d'); else wd("--debug");
	for (int k = quiet ? 1 + c.draw(2) : 0; k > 0; k--) if (c.chance(50)) sh('q'); else wd("--quiet");
	for (int k = fg ? 1 + c.draw(2) : 0; k > 0; k--) sh('F');
	if (l.S) for (int k = 1 + c.draw(2); k > 0; k--) sh('S');
	if (log == 1) it.push_back({"L", "", true});
	if (named) wd(conf);
	switch (bad) {
	case 1: { static const std::string inv = "aABCDEGHIJKMNOPQRTUWXYZbcefgijklmnoprstuvwxyz0123456789=?@:/. -"; std::string x(1, inv[c.draw(inv.size() - 1)]); if (c.chance(40)) wd("-" + x + (c.chance(50) ? "d" : "")); else sh(x[0]); l.ends.insert(BAD); break; }
	case 2: wd(c.pick(std::vector<std::string>{"--", "--bogus", "--Debug", "--debu", "--debugg", "--quiet=1", "--d", "--log", "--foreground", "--F", "--syslog", "---debug", "--helpme", "--Version", "--version1", "--q", "--L", "---"})); l.ends.insert(BAD); break;
	case 3: wd(""); l.ends.insert(BAD); break;
	case 4: if (!named) wd(conf); wd(c.chance(50) ? conf : "other.conf"); l.ends.insert(BAD); break;
	case 5: if (log != 2) sh('S'); if (log != 1) it.push_back({"L", "", true}); l.L = logpath; l.ends.insert(BAD); break;
	case 6: l.ends.insert(BAD); break; // -L without a value, last
	case 7: if (c.chance(50)) sh('h'); else wd("--help"); l.ends.insert(HELP); break;
	case 8: if (c.chance(50)) sh('V'); else wd("--version"); l.ends.insert(VERSION); break;
	}
	for (size_t i = it.size(); i > 1; i--) std::swap(it[i - 1], it[c.draw(i)]);
	for (size_t i = 0; i < it.size();) {
		if (!it[i].word.empty() || it[i].shorts.empty()) { l.a.push_back(it[i].word); i++; continue; }
		std::string s = "-"; bool path = false; while (i < it.size() && !it[i].shorts.empty() && it[i].word.empty()) { s += it[i].shorts; path = it[i].path; i++; if (path || c.chance(50)) break; }
		if (path && c.chance(50)) l.a.push_back(s + logpath); else { l.a.push_back(s); if (path) l.a.push_back(logpath); }
	}
	if (bad == 6) l.a.push_back("-L");
	return l;
}
static void sweep() { for (auto p : {"/run/ELProxy.conf", "/etc/ELProxy.conf", "/run/p.log", "/p.log", "/run/l", "/run/S", "/run/-F", "/run/my.conf", "/run/other.conf", "/syslog", "/run/-", "/run/a b.conf", "/run/x=y"}) ::unlink((base() + p).c_str()); }
static void run(Case &c) {
	World w(c); sweep(); Conf cf; cf.slots = 1 + c.draw(3); cf.port = 8100 + c.draw(4); Conf wrong = cf; wrong.port = 8200; wrong.password = "other";
	int log = c.weighted({3, 3, 2}); bool fg = c.chance(60), dbg = c.chance(35), quiet = c.chance(25); int bad = c.chance(30) ? 1 + (int)c.draw(8) : 0, broken = !bad && c.chance(15) ? 1 + (int)c.draw(8) : 0, outkind = bad || broken ? 0 : c.weighted({8, 1, 1});
	// which file is named, and which is found
	std::string logpath = c.weighted({4, 4, 2, 2}) == 0 ? base() + "/p.log" : c.pick(std::vector<std::string>{"p.log", "p.log", "l", "S", "-F"}), logreal = logpath[0] == '/' ? logpath : cwd() + "/" + logpath, conf; bool named = c.chance(75), lognew = true, logbad = !bad && !broken && log == 1 && c.chance(8); std::string old;
	if (logbad) { logpath = base() + "/no/such/p.log"; logreal = logpath; } else if (log == 1 && c.chance(40)) { old = "what was there\nbefore\n"; put(logreal, old); lognew = false; }
	std::string text = cf.text(); int busy = -1;
	switch (broken) {
	case 1: text = "Password=notset\n" + text.substr(text.find('\n') + 1); break;
	case 2: text = text.substr(text.find('\n') + 1); break;
	case 3: text += c.pick(std::vector<std::string>{"Port=0x1F\n", "Port=65536\n", "Port=-1\n", "ConnectionTimeout=abc\n"}); break;
	case 4: text += "CallsignsAllowed=(\n"; break;
	case 5: text += "BindAddress=192.0.2.1\n"; break;
	case 6: busy = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); { sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = shim::ip(0, 1); a.sin_port = htons(cf.port); int one = 1; setsockopt(busy, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); CHECK(c, ::bind(busy, (sockaddr *)&a, sizeof a) == 0, "harness: %s", strerror(errno)); ::listen(busy, 5); } break;
	case 7: if (cf.slots > 1) text += "ExternalBindAddress=\n"; else text += "ExternalBindAddress=0.0.0.0\nAdditionalExternalBindAddresses=127.0.0.1\n"; break;
	case 8: break; // no such file
	}
	if (named) { std::string n = c.pick(std::vector<std::string>{"my.conf", "./my.conf", "-", "a b.conf", "x=y"}); conf = c.chance(50) ? n : cwd() + "/" + n; std::string real = conf[0] == '/' ? conf : cwd() + "/" + conf; if (broken != 8) put(real, text); if (c.chance(50)) put(cwd() + "/ELProxy.conf", wrong.text()); if (c.chance(30)) put(base() + "/etc/ELProxy.conf", wrong.text()); }
	else { bool here = c.chance(65); conf = cwd() + "/ELProxy.conf"; if (here) { if (broken != 8) put(conf, text); if (broken != 8 && c.chance(40)) put(base() + "/etc/ELProxy.conf", wrong.text()); } else if (broken != 8) put(base() + "/etc/ELProxy.conf", text); }
	Line l = gen_line(c, conf, named, log, logpath, fg, dbg, quiet, bad); Daemon d(c); c.note("%s", show(l.a).c_str());
	if (broken) c.note("configuration broken in way %d", broken); if (outkind) c.note("output goes to %s", outkind == 1 ? "/dev/full" : "/dev/null");
	int r = 0; (void)r; w.conf = cf;
	// ---- command lines and configurations that end it
	if (bad || broken) {
		d.spawn(l.a, 0); if (!w.wait([&] { return d.poll_first(); }, 12)) c.fail("the daemon did not end, although %s; it said: %s", bad ? "its command line asks for it" : "its configuration is unusable", quoted(d.said(), 400).c_str());
		int e = l.ends.empty() ? (int)BAD : *l.ends.begin(); CHECK(c, !d.crashed(), "the daemon %s: %s", d.status().c_str(), d.said().substr(0, 2000).c_str()); bool ok = WEXITSTATUS(d.st) == 0;
		if (e == BAD) { CHECK(c, !ok, "the daemon exited with status 0; it said: %s", quoted(d.said(), 400).c_str()); CHECK(c, !d.said().empty(), "the daemon gave no diagnostic (it %s)", d.status().c_str()); }
		else { CHECK(c, ok, "the daemon %s; it said: %s", d.status().c_str(), quoted(d.said(), 400).c_str()); std::string o = slurp(d.out); CHECK(c, !o.empty(), "nothing was printed"); if (e == HELP) for (auto x : {"-d", "--debug", "-F", "-h", "--help", "-L", "-q", "--quiet", "-S", "-V", "--version"}) CHECK(c, has(o, x), "the help does not mention %s: %s", x, quoted(o, 900).c_str()); else CHECK(c, lines(o) == 1 && o.size() < 60, "the version is printed as %s", quoted(o, 300).c_str()); }
		CHECK(c, children().empty(), "a process was left behind"); if (busy >= 0) ::close(busy); CHECK(c, !listening(cf.port) && !listening(8200) && refused(cf.port), "it accepts connections");
		c.label("%s", e == HELP ? "help" : e == VERSION ? "version" : bad ? strf("bad command line %d", bad).c_str() : strf("unusable configuration %d", broken).c_str()); c.nontrivial(); w.down(); return;
	}
	// ---- it serves
	auto end = [&](const char *why, bool strict) { if (!w.wait([&] { return d.poll(); }, 20)) c.fail("the daemon did not exit %s; it said: %s", why, quoted(d.said(), 600).c_str()); if (strict) CHECK(c, !d.crashed(), "the daemon %s %s: %s", d.status().c_str(), why, d.said().substr(0, 2500).c_str()); else CHECK(c, !(WIFEXITED(d.st) && d.crashed()) && !(WIFSIGNALED(d.st) && WTERMSIG(d.st) != SIGTERM && WTERMSIG(d.st) != SIGINT), "the daemon %s %s: %s", d.status().c_str(), why, d.said().substr(0, 2500).c_str()); };
	auto released = [&] { CHECK(c, children().empty(), "a process was left behind"); CHECK(c, refused(cf.port), "the port still accepts connections"); CHECK(c, free_port(SOCK_STREAM, shim::ip(0, 1), cf.port), "the port is not released"); for (int i = 0; i < cf.slots; i++) for (int p : {5198, 5199}) CHECK(c, free_port(SOCK_DGRAM, shim::ip(1, i + 1), p), "port %d of slot %d is not released", p, i); };
	d.spawn(l.a, outkind); int sig = c.chance(50) ? SIGTERM : SIGINT;
	if (fg && c.chance(12)) { int us = c.draw(60000); usleep(us); ::kill(d.first, sig); c.note("%s after %d us", strsignal(sig), us); end("after a signal while starting", false); released(); c.label("signal while starting"); c.nontrivial(); w.down(); return; }
	if (fg) { if (!w.wait([&] { return d.poll() || listening(cf.port); }, 15) || d.gone) c.fail("the daemon %s instead of serving; it said: %s", d.gone ? d.status().c_str() : "does not listen", d.said().substr(0, 2000).c_str()); }
	else { if (!w.wait([&] { return d.poll_first(); }, 15)) c.fail("the daemon did not detach; it said: %s", quoted(d.said(), 600).c_str()); CHECK(c, WIFEXITED(d.st) && WEXITSTATUS(d.st) == 0, "the detaching daemon %s; it said: %s", d.status().c_str(), d.said().substr(0, 2000).c_str()); auto v = children(); if (v.size() == 1) d.serving = v[0], d.gone = false; CHECK(c, v.size() == 1, "%zu processes serve after detaching; it said: %s", v.size(), d.said().substr(0, 1000).c_str()); CHECK(c, listening(cf.port) || d.poll(), "the detached daemon does not listen"); }
	auto p = w.peer(1); std::vector<ClientP> live; std::set<std::string> admitted; std::shared_ptr<Ep> stuck; std::vector<int> fill; int serial = 0; bool plain = true;
	auto alive = [&](const char *what) { CHECK(c, !d.poll(), "the daemon %s %s: %s", d.status().c_str(), what, d.said().substr(0, 2500).c_str()); };
	auto arrive = [&](const char *what) { for (uint64_t dl = mono_ns() + 10000000000ull;;) { auto cl = w.connect(); w.must([&] { return cl->ep->avail() >= 8 || cl->gone() || d.poll(); }, "challenge or refusal"); alive(what); if (cl->ep->avail() >= 8) { w.get_challenge(cl); return cl; } w.leave(cl); CHECK(c, mono_ns() < dl, "%s: a client is turned away although a slot is free", what); usleep(2000); } };
	int steps = c.draw(c.thorough ? 14 : 7);
	for (int s = 0; s < steps; s++) {
		int op = c.weighted({2, 5, 4, 4, 3, 1, 1, 1, 1}); if ((int)live.size() >= cf.slots && (op < 2 || op == 5)) op = 2 + c.draw(3); ClientP cl; if (!live.empty()) cl = live[c.draw(live.size())];
		if (op == 0) { cl = arrive("a new client"); cl->parsing = false; live.push_back(cl); plain = false; c.note("a client connects and waits"); continue; }
		if (op == 1 || !cl) { cl = arrive("a new client"); std::string call = simple_call(10 + serial++); w.greet(cl, call, cf.password); w.confirm_in(cl); admitted.insert(call); live.push_back(cl); c.note("%s logs in", call.c_str()); continue; }
		if (op == 5) { plain = false; cl = arrive("a new client"); cl->parsing = false; w.greet(cl, "K0BAD", "wrong"); w.expect_gone(cl, "wrong password"); w.leave(cl); c.note("a client with a wrong password"); continue; }
		if (((!cl->in || cl->slot <= -3) && op != 4) || cl->slot == -4) continue;
		switch (op) {
		case 2: for (bool data : {false, true}) { auto e = data ? p->data : p->ctl; e->dg.clear(); Bytes t = {'u', (uint8_t)++serial, (uint8_t)data}; cl->send(enc(data ? UDP_DATA : UDP_CTL, p->ip, t)); w.must([&] { return !e->dg.empty() || cl->gone() || d.poll(); }, "relayed datagram"); alive("while relaying"); CHECK(c, !e->dg.empty() && e->dg.front().data == t, "the datagram was not relayed"); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = e->dg.front().src_ip; a.sin_port = htons(data ? 5198 : 5199); ::sendto(e->fd, t.data(), t.size(), 0, (sockaddr *)&a, sizeof a); auto m = w.next(cl, "a datagram"); CHECK(c, m.type == (data ? UDP_DATA : UDP_CTL) && m.data == t, "delivered: %s", show(m).c_str()); } c.note("%s relays datagrams", cl->call.c_str()); break;
		case 3: { if (cl->slot == -2) break; size_t n = p->conns.size(); cl->send(enc(TCP_OPEN, p->ip, {})); auto m = w.next(cl, "TCP_STATUS"); CHECK(c, m.type == TCP_STATUS && m.data == Bytes(4, 0), "the answer to TCP_OPEN is %s", show(m).c_str()); w.must([&] { return p->conns.size() > n; }, "relayed connection"); auto e = p->conns.back(); Bytes b = c.blob(1 + c.draw(5000)); cl->send(enc(TCP_DATA, 0, b)); w.must([&] { return e->avail() >= b.size() || d.poll(); }, "relayed bytes"); CHECK(c, e->rx == b, "relayed bytes are wrong"); ::send(e->fd, b.data(), b.size(), MSG_NOSIGNAL); Bytes got; while (got.size() < b.size()) { auto m = w.next(cl, "TCP_DATA"); CHECK(c, m.type == TCP_DATA, "unexpected %s", show(m).c_str()); got.insert(got.end(), m.data.begin(), m.data.end()); } CHECK(c, got == b, "relayed bytes are wrong");
			if (c.chance(60)) { cl->send(enc(TCP_CLOSE, 0, {})); m = w.next(cl, "TCP_CLOSE"); CHECK(c, m.type == TCP_CLOSE, "unexpected %s", show(m).c_str()); w.must([&] { return e->gone(); }, "end of the connection"); } else cl->slot = -2; c.note("%s relays a connection", cl->call.c_str()); break; }
		case 4: { bool rst = c.chance(50); if (cl->slot <= -2) plain = false; if (cl->slot == -3) cl->ep->paused = false; live.erase(std::find(live.begin(), live.end(), cl)); w.leave(cl, rst); c.note("%s leaves%s", cl->call.c_str(), rst ? " rudely" : ""); break; }
		case 6: case 8: { // the remote host floods a client that does not read; it may also go away
			if (cl->slot <= -2) break; plain = false; size_t n = p->conns.size(); cl->send(enc(TCP_OPEN, p->ip, {})); auto m = w.next(cl, "TCP_STATUS"); CHECK(c, m.data == Bytes(4, 0), "the answer to TCP_OPEN is %s", show(m).c_str()); w.must([&] { return p->conns.size() > n; }, "relayed connection"); auto e = p->conns.back(); cl->ep->paused = true; static Bytes big(1 << 20, 'x'); for (int k = 0; k < 12; k++) { ::send(e->fd, big.data(), big.size(), MSG_NOSIGNAL | MSG_DONTWAIT); usleep(500); }
			if (op == 8) { live.erase(std::find(live.begin(), live.end(), cl)); w.leave(cl, true); for (int k = 0; k < 3; k++) { ::send(e->fd, big.data(), 5000, MSG_NOSIGNAL | MSG_DONTWAIT); usleep(300); } c.note("%s is reset in the middle of a flood", cl->call.c_str()); } else { cl->slot = -3; c.note("%s does not read a flood", cl->call.c_str()); } break; }
		case 7: { // a connection that stays pending
			if (cl->slot <= -2) break; plain = false; uint32_t ip = shim::ip(2, 77); if (fill.empty()) { int lf = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1; sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = ip; a.sin_port = htons(5200); setsockopt(lf, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); CHECK(c, ::bind(lf, (sockaddr *)&a, sizeof a) == 0 && ::listen(lf, 0) == 0, "harness: %s", strerror(errno)); fill.push_back(lf); for (int k = 0; k < 3; k++) { int x = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0); ::connect(x, (sockaddr *)&a, sizeof a); fill.push_back(x); } }
			cl->send(enc(TCP_OPEN, ip, {})); cl->slot = -4; usleep(c.draw(3000)); c.note("%s waits for a connection", cl->call.c_str()); break; }
		}
		alive("while serving");
	}
	if (!fg && steps) CHECK(c, getsid(d.serving) == d.serving || d.poll(), "the detached daemon is not in a session of its own");
	// ---- the signal
	usleep(c.chance(50) ? c.draw(3000) : 0); alive("without having been told to"); int more = c.chance(20) ? 1 + (int)c.draw(3) : 0; ::kill(d.serving, sig); for (int k = 0; k < more; k++) { usleep(c.draw(3000)); if (!d.poll()) ::kill(d.serving, c.chance(50) ? SIGTERM : SIGINT); } c.note("%s%s", sig == SIGTERM ? "SIGTERM" : "SIGINT", more ? ", and more" : "");
	for (auto &cl : live) { if (cl->slot == -3) cl->ep->paused = false; }
	end("after a signal", true); for (auto &cl : live) w.expect_gone(cl, "the daemon exited"); for (auto &cl : live) if (!cl->in) CHECK(c, cl->ep->avail() == 0, "a client that has not logged in received %zu more bytes: %s", cl->ep->avail(), hex(&cl->ep->rx[cl->ep->off], cl->ep->avail()).c_str()); else if (cl->slot != -3) CHECK(c, cl->ep->avail() == 0 || cl->ep->err, "%s received an incomplete message: %s", cl->call.c_str(), hex(&cl->ep->rx[cl->ep->off], cl->ep->avail()).c_str()); else c.label("not reading when the signal came");
	for (int f : fill) ::close(f); released();
	// ---- where the messages went
	std::string o = outkind ? slurp(d.err) : d.said(), file = slurp(logreal), sys = slurp(base() + "/syslog"), medium = log == 1 ? file : log == 2 ? sys : o; CHECK(c, !has(o, "ERROR: AddressSanitizer") && !has(o, "runtime error"), "%s", o.substr(0, 2500).c_str());
	if (log != 2) CHECK(c, sys.empty(), "the system's log was used: %s", quoted(sys, 200).c_str());
	if (log != 1 || logbad) CHECK(c, access(logreal.c_str(), F_OK) != 0, "a log file appeared"); else { CHECK(c, file.substr(0, old.size()) == old, "what was in the log file is gone: %s", quoted(file, 300).c_str()); if (!(quiet && fg)) CHECK(c, file.size() > old.size(), "nothing was logged to the file"); }
	if (log == 2 && !(quiet && fg)) CHECK(c, !sys.empty(), "nothing was logged to the system's log");
	if (quiet && plain && !logbad) CHECK(c, o.empty(), "in quiet mode the console got %s", quoted(o, 400).c_str());
	for (auto &call : admitted) { bool m = has(medium, call); if (log && !logbad) CHECK(c, !has(o, call), "the console mentions %s although the log goes elsewhere: %s", call.c_str(), quoted(o, 500).c_str()); if (!(quiet && fg) && !logbad && (log || fg) && !(outkind && !log)) CHECK(c, m, "client %s does not appear in the log: %s", call.c_str(), quoted(medium, 800).c_str()); }
	// the same without -d says less
	c.label("%s, log to %s%s%s", fg ? "foreground" : "detached", log == 1 ? "file" : log == 2 ? "syslog" : "console", dbg ? ", debug" : "", quiet ? ", quiet" : ""); c.label("%zu clients at the signal", live.size()); if (logbad) c.label("log file cannot be opened"); if (!live.empty() || !admitted.empty()) c.nontrivial();
	for (auto cl : live) w.leave(cl); live.clear();
	if (!quiet && !outkind && !logbad && (log || fg) && c.chance(25)) { // debugging output is an addition
		size_t n[2]; for (int k = 0; k < 2; k++) { ::unlink(logreal.c_str()); ::unlink((base() + "/syslog").c_str()); Args a; a.push_back(k ? "-d" : "-F"); if (!k) a.clear(); if (fg) a.push_back("-F"); if (log == 1) a.push_back("-L" + logpath); if (log == 2) a.push_back("-S"); if (named) a.push_back(conf); Daemon e(c); e.spawn(a, 0);
			if (fg) w.must([&] { return e.poll() || listening(cf.port); }, "start"); else { w.must([&] { return e.poll_first(); }, "detaching"); auto v = children(); CHECK(c, v.size() == 1, "%zu processes", v.size()); e.serving = v[0]; e.gone = false; } CHECK(c, !e.gone, "%s: %s", show(a).c_str(), e.said().c_str());
			auto cl = w.connect(); w.get_challenge(cl); w.greet(cl, "K1DBG", cf.password); w.confirm_in(cl); w.leave(cl); usleep(20000); ::kill(e.serving, SIGTERM); w.must([&] { return e.poll(); }, "exit"); n[k] = lines(log == 1 ? slurp(logreal) : log == 2 ? slurp(base() + "/syslog") : e.said()); }
		CHECK(c, n[1] > n[0], "with -d %zu messages are logged, without %zu", n[1], n[0]); c.label("with and without -d"); }
	w.down();
}
Property the_property = {"C23",
	"A case is one command line of the real daemon (built from the tree with AddressSanitizer; syslog replaced by a file): the documented options in random order, repetition, joining and spelling, a named, default or hinted configuration file with decoys in the other places; either with one thing wrong (an unknown option, an empty or second word, two log mechanisms, -L without a path, help, version, or one of eight unusable configurations), or valid, followed by a random history of clients (waiting, relaying datagrams and connections, leaving, refused, not reading a flood, reset, pending connection) and SIGINT or SIGTERM, sometimes several or while starting. Oracle: exit status, diagnostics, nothing served or left behind; otherwise exact service with nothing but the protocol on every stream, exit within bounds without a crash, every client disconnected, every port released, and the messages where the options say. Non-trivial: it ended for a stated reason or a client was served or present.",
	init, run, 4000, 200000, 120, {"standard streams are open when the daemon is started", "registration is not configured", "the exit status after a signal is not claimed"}};
