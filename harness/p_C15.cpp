// C15: a proxy without a usable configuration is never served
#include "conf_gen.hpp"
#include <sys/stat.h>
static bool refused_now(uint32_t ip, int port) { int fd = tcp_socket_from(shim::ip(3, 99)); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = ip; a.sin_port = htons(port); int r = ::connect(fd, (sockaddr *)&a, sizeof a); ::close(fd); return r < 0; }
static void must_refuse_load(Case &c, const std::string &text, const char *why) {
	c.note("%s: %s", why, quoted(text, 3000).c_str()); std::string path = scratch_file("c.conf", text); proxy_handle ph{}; int r = proxy_init(&ph); CHECK(c, r == 0, "proxy_init: %d", r);
	r = proxy_load_conf(&ph, path.c_str()); CHECK(c, r < 0, "a configuration with %s was accepted (%d)", why, r); proxy_free(&ph);
	auto z = shim::res(); CHECK(c, z.blocks == 0 && z.files == 0, "after freeing: %s", shim::res_str(z).c_str());
}
static void run(Case &c) {
	shim::reset(); shim::ledger_forget(); int kind = c.weighted({4, 8, 6, 4, 8, 3, 4, 8, 3, 3}); bool ok = true;
	auto base = [&](Want &w, bool pw, bool list) { return conf_lines(c, w, pw, list); };
	switch (kind) {
	case 0: { Want w; auto l = base(w, false, false); std::string p = "notset"; if (c.chance(20)) l.push_back("Password=good"); l.push_back(blanks(c) + "Password" + blanks(c) + "=" + blanks(c) + p + blanks(c)); while (c.chance(30)) l.push_back(noise_line(c)); must_refuse_load(c, join_lines(c, l), "the password 'notset'"); break; }
	case 1: { Want w; auto l = base(w, true, false); std::string key = c.chance(60) ? "Port" : "ConnectionTimeout", v;
		int how = c.draw(6); uint64_t max = key == "Port" ? 65535 : 4294967295ull;
		if (how == 0) v = c.pick(std::vector<std::string>{"abc", "0x1F", "1e3", "8100x", "x8100", "81 00", "8,100", "81.0", "-1", "-8100", "#", "eight", "1-2", "\xd9\xa1", "8100;", "'8100'", "--1", "NaN", "8100 # comment"});
		else if (how == 1) v = strf("%llu", (unsigned long long)(max + 1 + (c.chance(50) ? 0 : c.draw(100000)))); else if (how == 2) v = c.pick(std::vector<std::string>{"99999999999", "4294967296", "4294975396", "18446744073709551616", "18446744073709559716", "9223372036854775808", "340282366920938463463374607431768211456"});
		else if (how == 3) v = strf("%llu", (unsigned long long)(max + 1)) + std::string(1 + c.draw(40), (char)('0' + c.draw(10)));
		else if (how == 4) { v = strf("%d", 1 + (int)c.draw(9999)); v.insert(c.draw(v.size() + 1), 1, c.pick(std::vector<char>{'a', '-', '.', '/', ':', 'x', 'e', '%', (char)0xb2})); } else v = conf_value(c, "") + "x";
		l.insert(l.begin() + c.draw(l.size() + 1), blanks(c) + key + blanks(c) + "=" + blanks(c) + v + blanks(c)); must_refuse_load(c, join_lines(c, l), how == 1 || how == 2 || how == 3 ? "a number out of range" : "a malformed number"); break; }
	case 2: { Want w; auto l = base(w, true, false); std::vector<std::string> keep; for (auto &x : l) if (x.find("ExternalBindAddress") == std::string::npos || x.find("AdditionalExternal") != std::string::npos) keep.push_back(x); std::string s; for (int j = 0, m = 1 + c.draw(4); j < m; j++) s += (j ? "," : "") + addr_text(c);
		keep.insert(keep.begin() + c.draw(keep.size() + 1), "AdditionalExternalBindAddresses" + blanks(c) + "=" + blanks(c) + s); if (c.chance(60)) keep.insert(keep.begin() + c.draw(keep.size() + 1), c.pick(std::vector<std::string>{"ExternalBindAddress=0.0.0.0", "ExternalBindAddress=", " ExternalBindAddress = 0.0.0.0 "})); must_refuse_load(c, join_lines(c, keep), "additional addresses without a specific external address"); break; }
	case 3: { // missing or unreadable
		std::string d = scratch_dir(), p; ::unlink((d + "/dangling").c_str()); ::unlink((d + "/loop").c_str()); int how = c.draw(6);
		if (how == 0) p = d + strf("/missing%d", (int)c.draw(1000)); else if (how == 1) p = d; else if (how == 2) p = scratch_file("plain", "x") + "/y"; else if (how == 3) { (void)!symlink("/nonexistent/target", (d + "/dangling").c_str()); p = d + "/dangling"; } else if (how == 4) { (void)!symlink("loop", (d + "/loop").c_str()); p = d + "/loop"; } else p = d + "/" + std::string(300 + c.draw(4000), 'x');
		c.note("file %s", quoted(p, 100).c_str()); proxy_handle ph{}; int r = proxy_init(&ph); CHECK(c, r == 0, "proxy_init: %d", r); r = proxy_load_conf(&ph, p.c_str()); CHECK(c, r < 0, "loading a file that is %s returned %d", how == 1 ? "a directory" : "missing", r); proxy_free(&ph); break; }
	case 4: { // arbitrary content never crashes
		std::string t; if (c.chance(40)) { Bytes b = c.blob(c.draw(c.chance(10) ? 70000 : 600)); t.assign(b.begin(), b.end()); } else { Want w; t = join_lines(c, base(w, c.chance(50), c.chance(60))); for (int k = 1 + c.draw(8); k > 0 && !t.empty(); k--) switch (c.draw(5)) { case 0: t[c.draw(t.size())] = (char)c.draw(256); break; case 1: t.insert(c.draw(t.size() + 1), 1, c.pick(std::vector<char>{0, '=', ',', '\n', '\r', '#'})); break; case 2: t.erase(c.draw(t.size()), 1 + c.draw(30)); break; case 3: { size_t o = c.draw(t.size()); t.insert(c.draw(t.size() + 1), t.substr(o, 1 + c.draw(200))); break; } default: t.insert(c.draw(t.size() + 1), c.pick(std::vector<std::string>{"\nAdditionalExternalBindAddresses=,,,\n", "\nAdditionalExternalBindAddresses=1,,2,\n", "\nAdditionalExternalBindAddresses=,\n", "\n=\n", "\nPassword=\n", "\nPort=\n", "\nAdditionalExternalBindAddresses=" + std::string(c.draw(70000), ',') + "\n"})); } }
		c.note("%zu bytes: %s", t.size(), quoted(t, 300).c_str()); std::string path = scratch_file("c.conf", t); proxy_handle ph{}; int r = proxy_init(&ph); CHECK(c, r == 0, "proxy_init: %d", r); for (int k = 1 + c.draw(2); k > 0; k--) { r = proxy_load_conf(&ph, path.c_str()); }
		if (ph.conf.bind_addr_ext_add) for (int i = 0; i < ph.conf.bind_addr_ext_add_len; i++) { volatile size_t n = strlen(ph.conf.bind_addr_ext_add[i]); (void)n; }
		for (char *s : {ph.conf.password, ph.conf.bind_addr, ph.conf.bind_addr_ext, ph.conf.calls_allowed, ph.conf.calls_denied, ph.conf.reg_name, ph.conf.reg_comment, ph.conf.public_addr}) if (s) { volatile size_t n = strlen(s); (void)n; }
		proxy_free(&ph); auto z = shim::res(); CHECK(c, z.blocks == 0 && z.files == 0, "after freeing: %s", shim::res_str(z).c_str()); break; }
	case 5: { // no password: nothing is served
		World w(c); Conf cf; std::string t = cf.text(); t = t.substr(t.find('\n') + 1); for (int k = c.draw(4); k > 0; k--) t += noise_line(c) + "\n"; std::string path = scratch_file("c.conf", t); c.note("no password: %s", quoted(t, 300).c_str()); CHECK(c, w.init() == 0, "proxy_init"); int r = proxy_load_conf(&w.ph, path.c_str());
		if (r >= 0) { r = w.open(); CHECK(c, r < 0, "a proxy without a password opened"); CHECK(c, refused_now(shim::ip(0, 1), 8100), "a proxy without a password accepts connections"); } w.down(); break; }
	case 6: { // a pattern that does not compile
		World w(c); Conf cf; cf.slots = 1 + c.draw(2); std::string bad = c.pick(std::vector<std::string>{"(", "[a", "*", "a{2,1}", "(?<n>a)(?<n>b)", "\\", "(?P<", "[z-a]", "a)", "(?z)", "++", "(?<=a+)b", "\\c"}); bool den = c.chance(50); cf.allowed = den ? (c.chance(50) ? ".*" : "") : bad; cf.denied = den ? bad : (c.chance(50) ? "^X" : "");
		c.note("pattern %s as %s", bad.c_str(), den ? "denied" : "allowed"); CHECK(c, w.init() == 0, "proxy_init"); int r = w.load(cf); if (r >= 0) { r = w.open(); CHECK(c, r < 0, "a proxy whose pattern %s does not compile opened", bad.c_str()); CHECK(c, refused_now(shim::ip(0, 1), 8100), "it accepts connections"); }
		if (c.chance(50)) { cf.allowed = cf.denied = ""; cf.extra = "CallsignsAllowed=\nCallsignsDenied=\n"; CHECK(c, w.load(cf) >= 0 && w.open() >= 0 && w.start() >= 0, "the corrected configuration does not work"); w.accept_loop(); auto cl = w.login("K1ABC"); w.leave(cl); }
		w.down(); break; }
	case 7: { // addresses that cannot be bound
		World w(c); Conf cf; cf.slots = 1; std::string bad = c.pick(std::vector<std::string>{"192.0.2.1", "198.51.100.7", "not-an-address", "300.1.1.1", "1.2.3", "8.8.8.8"}); if (bad == "1.2.3") bad = "203.0.113.9"; int how = c.draw(3), busy = -1; std::string t = cf.text();
		if (how == 0) t += "BindAddress=" + bad + "\n"; else if (how == 1) t += "ExternalBindAddress=" + bad + "\n"; else { busy = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = shim::ip(0, 1); a.sin_port = htons(8100); int one = 1; setsockopt(busy, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); CHECK(c, ::bind(busy, (sockaddr *)&a, sizeof a) == 0 && ::listen(busy, 5) == 0, "harness: %s", strerror(errno)); }
		c.note("%s cannot be bound", how == 0 ? ("BindAddress " + bad).c_str() : how == 1 ? ("ExternalBindAddress " + bad).c_str() : "the port is taken"); w.conf = cf; CHECK(c, w.init() == 0, "proxy_init"); int r = proxy_load_conf(&w.ph, scratch_file("c.conf", t).c_str());
		if (r >= 0) { r = w.open();
			if (how != 1) { CHECK(c, r < 0, "proxy_open succeeded"); if (how == 0) CHECK(c, refused_now(shim::ip(0, 1), 8100), "it accepts connections"); }
			else if (r >= 0 && w.start() >= 0) { w.accept_loop(); for (int k = 1 + c.draw(3); k > 0; k--) { auto cl = w.connect(); cl->parsing = false; if (w.wait([&] { return cl->ep->avail() >= 8 || cl->gone(); }) && cl->ep->avail() >= 8) { w.get_challenge(cl); w.greet(cl, "K1ABC", cf.password); cl->send(enc(TCP_DATA, 0, Bytes{1})); } w.expect_gone(cl, "the external address cannot be bound"); CHECK(c, cl->ep->avail() == 0, "a client without a slot got %zu bytes", cl->ep->avail()); w.leave(cl); settled(w, 0); } }
		}
		if (busy >= 0) ::close(busy); w.down(); break; }
	case 8: { // control: what is valid is accepted and works
		ok = false; Want w; auto l = base(w, true, false); must_refuse_load(c, "Port=x\n", "a malformed number"); std::string t = join_lines(c, l); c.note("valid: %s", quoted(t, 500).c_str()); proxy_handle ph{}; CHECK(c, proxy_init(&ph) == 0, "proxy_init"); int r = proxy_load_conf(&ph, scratch_file("c.conf", t).c_str()); CHECK(c, r >= 0, "a valid configuration was refused (%d)", r); proxy_free(&ph); break; }
	default: { // reading fails half-way
		Want w; auto l = base(w, true, false); c.note("reading fails"); proxy_handle ph{}; CHECK(c, proxy_init(&ph) == 0, "proxy_init"); auto p = scratch_file("c.conf", join_lines(c, l)); shim::fault(shim::K_FOPEN, 1, c.pick(std::vector<int>{EACCES, EMFILE, EIO})); int r = proxy_load_conf(&ph, p.c_str()); bool f = shim::fault_fired(); shim::fault_clear(); if (f) CHECK(c, r < 0, "a file that cannot be opened was accepted"); proxy_free(&ph); break; }
	}
	static const char *names[] = {"notset", "numbers", "addresses without external", "missing file", "arbitrary content", "no password", "bad pattern", "unbindable", "valid", "open fails"}; c.label("%s", names[kind]); if (ok) c.nontrivial();
}
Property the_property = {"C15",
	"A case is one unusable configuration of a random kind embedded in otherwise valid random lines: password 'notset', malformed or out-of-range numbers, additional addresses without a specific external one, a missing, looping, directory or unopenable file, no password, a pattern that does not compile, an address or port that cannot be bound; or arbitrary and mutated file content; or a valid control. Oracle: refusal when loading, opening or serving as stated, no connection accepted, no crash (AddressSanitizer, UBSan), nothing left allocated, controls accepted. Non-trivial: every case but the controls.",
	world_process_init, run, 60000, 2000000, 60, {}};
