// C14: configuration files mean what the documentation says
#include "conf_gen.hpp"
static std::string str(const char *s) { return s ? quoted(s) : std::string("(none)"); }
static void compare(Case &c, const proxy_conf &g, const Want &w) {
	auto one = [&](const char *key, const char *got) { auto i = w.v.find(key); if (i == w.v.end()) CHECK(c, got == nullptr, "%s is %s although it was not set", key, str(got).c_str()); else CHECK(c, got && i->second == got, "%s is %s instead of %s", key, str(got).c_str(), quoted(i->second).c_str()); };
	one("Password", g.password); one("BindAddress", g.bind_addr); one("ExternalBindAddress", g.bind_addr_ext); one("PublicAddress", g.public_addr); one("RegistrationName", g.reg_name); one("RegistrationComment", g.reg_comment); one("CallsignsDenied", g.calls_denied); one("CallsignsAllowed", g.calls_allowed);
	CHECK(c, g.port == w.port, "the port is %d instead of %ld", g.port, w.port); CHECK(c, g.connection_timeout == w.timeout, "the connection timeout is %u instead of %llu", g.connection_timeout, (unsigned long long)w.timeout);
	CHECK(c, g.bind_addr_ext_add_len == w.list.size(), "%d additional addresses instead of %zu", g.bind_addr_ext_add_len, w.list.size());
	for (size_t i = 0; i < w.list.size(); i++) CHECK(c, g.bind_addr_ext_add[i] && w.list[i] == g.bind_addr_ext_add[i], "additional address %zu is %s instead of %s", i, str(g.bind_addr_ext_add[i]).c_str(), quoted(w.list[i]).c_str());
}
// independent reading of arbitrary text; false: not covered by the documentation
static bool read_text(const std::string &t, Want &w) {
	size_t o = 0;
	while (o < t.size()) {
		size_t e = t.find('\n', o); std::string l = t.substr(o, e == std::string::npos ? e : e - o); o = e == std::string::npos ? t.size() : e + 1;
		while (!l.empty() && l.back() == '\r') l.pop_back(); if (l.find('\r') != std::string::npos) return false;
		auto trim = [](std::string s) { size_t a = s.find_first_not_of(" \t"); return a == std::string::npos ? std::string() : s.substr(a, s.find_last_not_of(" \t") - a + 1); };
		std::string x = trim(l); if (x.empty() || x[0] == '#') continue; size_t q = x.find('='); if (q == std::string::npos) continue;
		std::string k = trim(x.substr(0, q)), v = trim(x.substr(q + 1));
		if (k == "Port" || k == "ConnectionTimeout") { if (v.empty() || v.size() > 8 || v.find_first_not_of("0123456789") != std::string::npos) return false; long n = atol(v.c_str()); if (k == "Port") { if (n < 1 || n > 65535) return false; w.port = n; } else w.timeout = n; }
		else if (k == "AdditionalExternalBindAddresses") { if (!v.empty() && (v[0] == ',' || v.back() == ',' || v.find(",,") != std::string::npos || v.find_first_of(" \t") != std::string::npos)) return false; w.list.clear(); if (!v.empty()) { size_t p = 0; for (;;) { size_t f = v.find(',', p); w.list.push_back(v.substr(p, f == std::string::npos ? f : f - p)); if (f == std::string::npos) break; p = f + 1; } } }
		else if (std::find(text_keys().begin(), text_keys().end(), k) != text_keys().end()) { if (k == "Password" && (v.empty() || v == "notset")) return false; if (v.empty()) w.v.erase(k); else w.v[k] = v; }
	}
	if (!w.list.empty() && (!w.v.count("ExternalBindAddress") || w.v["ExternalBindAddress"] == "0.0.0.0")) return false;
	return true;
}
static void run(Case &c) {
	shim::reset(); shim::ledger_forget(); Want w; std::string text; bool soup = c.chance(35); size_t lines = 0;
	if (!soup) {
		auto l = conf_lines(c, w, c.chance(85), c.chance(50)); if (!w.list.empty() && (!w.v.count("ExternalBindAddress") || w.v["ExternalBindAddress"] == "0.0.0.0")) { l.insert(l.begin() + c.draw(l.size() + 1), "ExternalBindAddress=10.9.8.7"); Want w2; std::string t; for (auto &x : l) t += x + "\n"; if (!read_text(t, w2)) c.discard("ambiguous"); w = w2; if (!w.list.empty() && (!w.v.count("ExternalBindAddress") || w.v["ExternalBindAddress"] == "0.0.0.0")) c.discard("ambiguous"); }
		text = join_lines(c, l); lines = l.size();
	} else {
		static const std::vector<std::string> tok = {"Port", "Password", "BindAddress", "ExternalBindAddress", "AdditionalExternalBindAddresses", "RegistrationName", "CallsignsDenied", "ConnectionTimeout", "PublicAddress", "RegistrationComment", "CallsignsAllowed"};
		for (int k = 1 + c.draw(40); k > 0; k--) switch (c.weighted({4, 6, 4, 4, 2, 2, 2})) { case 0: text += c.pick(tok); break; case 1: text += "="; break; case 2: text += c.pick(std::vector<std::string>{"\n", "\r\n", "\n\n"}); lines++; break; case 3: text += c.pick(std::vector<std::string>{"8100", "1", "10.0.0.1", "x", "a b", "10.0.0.1,10.0.0.2", "K1", "00099"}); break; case 4: text += c.pick(std::vector<std::string>{" ", "\t", "  "}); break; case 5: text += "#"; break; default: text += std::string(1 + c.draw(140), (char)('a' + c.draw(4))); }
		if (!read_text(text, w)) c.discard("text outside the documented format"); c.label("token soup");
	}
	c.note("%s", quoted(text, 3000).c_str());
	// the two readings of the oracle agree
	Want w2; if (!soup && read_text(text, w2)) CHECK(c, w2.v == w.v && w2.list == w.list && w2.port == w.port && w2.timeout == w.timeout, "harness: the generator and the independent reader disagree");
	std::string path = scratch_file("c.conf", text); proxy_handle ph{}; int r = proxy_init(&ph); CHECK(c, r == 0, "proxy_init: %d", r);
	r = proxy_load_conf(&ph, path.c_str()); CHECK(c, r >= 0, "a valid configuration was refused (%d)", r);
	compare(c, ph.conf, w); proxy_free(&ph);
	auto z = shim::res(); CHECK(c, z.blocks == 0 && z.files == 0, "after freeing: %s", shim::res_str(z).c_str());
	if (w.v.size() + w.list.size() >= 2 && lines >= 3) c.nontrivial(); if (!w.list.empty()) c.label("additional addresses"); for (auto &x : w.v) if (x.second.size() > 100) { c.label("long line"); break; }
}
Property the_property = {"C14",
	"A case is a configuration file: either documented keys in random order with random values (lengths around buffer boundaries, '=' and '#' and high bytes inside), repeated and emptied, surrounded by blanks, comments, unknown and near-miss keys, lines without '=', LF or CRLF ends, with or without a final newline; or a soup of tokens. Oracle: the meaning known from the generation and an independent parser; every field of the loaded configuration must agree, and nothing may stay allocated. Non-trivial: at least two settings and three lines.",
	nullptr, run, 250000, 10000000, 30, {"empty passwords and list elements, signs and empty numbers, lone carriage returns are not generated (undocumented)"}};
