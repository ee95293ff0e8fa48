// generator of configuration files with an independently known meaning
#pragma once
#include "common.hpp"
struct Want { std::map<std::string, std::string> v; std::vector<std::string> list; long port = 8100; uint64_t timeout = 0; };
static const std::vector<std::string> &text_keys() { static const std::vector<std::string> k = {"Password", "BindAddress", "ExternalBindAddress", "PublicAddress", "RegistrationName", "RegistrationComment", "CallsignsDenied", "CallsignsAllowed"}; return k; }
static inline std::string blanks(Case &c) { if (c.chance(55)) return ""; std::string s; for (int k = c.draw(c.chance(5) ? 300 : 4); k >= 0; k--) s += c.chance(70) ? ' ' : '\t'; return s; }
static inline size_t conf_len(Case &c) { return c.weighted({12, 4, 1}) == 0 ? 1 + c.draw(14) : c.chance(50) ? 1 + c.draw(200) : c.pick(std::vector<size_t>{100, 110, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 240, 250, 254, 255, 256, 257, 383, 384, 385, 511, 512, 1023, 1024, 4095, 4096}) + c.draw(4); }
static inline std::string conf_value(Case &c, const std::string &key) {
	std::string s;
	if (c.chance(25)) { if (key.find("Address") != std::string::npos) s = c.pick(std::vector<std::string>{"0.0.0.0", "127.0.0.1", "10.1.2.3", "example.org", "255.255.255.255"}); else if (key == "Password") s = c.pick(std::vector<std::string>{"PUBLIC", "secret", "Notset", "notset1", "notse", "NOTSET", "not set", "xnotset"}); else s = c.pick(std::vector<std::string>{".*-L$|.*-R$", "K1RFD|AK8V", "^(A|B)=#", "W1AW", "a comment, with = and # signs", "=", "#", "=x", "#x", "Port=1"}); }
	else { size_t n = conf_len(c); for (size_t i = 0; i < n; i++) switch (c.weighted({10, 3, 1, 1})) { case 0: s += (char)('0' + c.draw(75)); break; case 1: s += c.pick(std::vector<char>{' ', '\t', '=', '#', ',', '.', '-', '\\', '%', '"', '\'', ';'}); break; case 2: s += (char)(128 + c.draw(128)); break; default: s += (char)(1 + c.draw(8)); } }
	size_t a = s.find_first_not_of(" \t\r\n"); if (a == std::string::npos) return "x"; s = s.substr(a, s.find_last_not_of(" \t\r\n") - a + 1);
	if (s == "notset") s = "Notset"; return s;
}
static inline std::string near_key(Case &c) {
	static const std::vector<std::string> k = {"Password", "Port", "ConnectionTimeout", "BindAddress", "ExternalBindAddress", "PublicAddress", "RegistrationName", "RegistrationComment", "CallsignsDenied", "CallsignsAllowed", "AdditionalExternalBindAddresses"};
	std::string s = c.pick(k);
	switch (c.draw(8)) { case 0: s += c.pick(std::vector<std::string>{"s", "x", "1", "_", "."}); break; case 1: s = s.substr(0, s.size() - 1); break; case 2: for (char &ch : s) ch = toupper(ch); break; case 3: for (char &ch : s) ch = tolower(ch); break; case 4: s[c.draw(s.size())] ^= 1 + c.draw(2); break; case 5: s = "X" + s; break; case 6: s = s.substr(1); break; default: s = s.substr(0, 1 + c.draw(s.size() - 1)) + " " + s; }
	for (auto &x : k) if (x == s) return "Unknown"; for (char &ch : s) if (ch == '=' || ch == '#' || ch == '\n' || ch == '\r') ch = 'q'; return s;
}
// one line that has no meaning
static inline std::string noise_line(Case &c) {
	switch (c.draw(6)) {
	case 0: return blanks(c);
	case 1: return blanks(c) + "#" + conf_value(c, "");
	case 2: return blanks(c) + "#" + c.pick(std::vector<std::string>{"Port=1", "Password=notset", " Port=abc", "Password=hash", "CallsignsDenied=.*"});
	case 3: { std::string s = conf_value(c, ""); for (char &ch : s) if (ch == '=') ch = '-'; return s; }
	case 4: return blanks(c) + near_key(c) + blanks(c) + "=" + blanks(c) + conf_value(c, "") + blanks(c);
	default: return blanks(c) + c.pick(std::vector<std::string>{"Port", "Password", "Password secret", "=Port=1", "= notset", "Port 8100"});
	}
}
static inline std::string number_text(Case &c, uint64_t v) { std::string s = strf("%llu", (unsigned long long)v); if (c.chance(10)) s = std::string(1 + c.draw(3), '0') + s; return s; }
static inline std::string addr_text(Case &c) { return c.chance(80) ? strf("10.%d.%d.%d", (int)c.draw(256), (int)c.draw(256), (int)c.draw(256)) : c.pick(std::vector<std::string>{"host.example.org", "a", "192.0.2.255", "x-1", "::1"}); }
struct Line { std::string key, text; };
// lines in random order with their meaning
static inline std::vector<std::string> conf_lines(Case &c, Want &w, bool with_password, bool with_list) {
	std::vector<std::string> out; std::vector<std::pair<std::string, std::string>> kv; int dup = c.draw(3);
	auto put = [&](const std::string &k, const std::string &v) { kv.push_back({k, v}); };
	for (auto &k : text_keys()) { if (k == "Password") { if (!with_password) continue; } else if (!c.chance(55)) continue; int times = 1 + (c.chance(25) ? c.draw(1 + dup) : 0); for (int i = 0; i < times; i++) put(k, k != "Password" && c.chance(15) ? "" : conf_value(c, k)); }
	if (c.chance(60)) for (int i = 1 + (c.chance(20) ? 1 : 0); i > 0; i--) put("Port", number_text(c, 1 + c.draw(c.chance(30) ? 65535 : 9999)));
	if (c.chance(40)) put("Port", number_text(c, c.pick(std::vector<uint64_t>{1, 9, 65535, 65534, 32768, 8100, 10000, 6553})));
	if (c.chance(40)) for (int i = 1 + (c.chance(20) ? 1 : 0); i > 0; i--) put("ConnectionTimeout", number_text(c, c.chance(40) ? c.pick(std::vector<uint64_t>{0, 1, 4294967295ull, 4294967294ull, 65536, 429496729}) : c.bits(32)));
	if (with_list) for (int i = 1 + (c.chance(25) ? c.draw(2) : 0); i > 0; i--) { std::string s; int m = c.chance(15) ? 0 : 1 + c.draw(c.chance(10) ? 300 : 5); for (int j = 0; j < m; j++) s += (j ? "," : "") + addr_text(c); put("AdditionalExternalBindAddresses", s); }
	for (size_t i = kv.size(); i > 1; i--) std::swap(kv[i - 1], kv[c.draw(i)]);
	for (auto &x : kv) {
		while (c.chance(18)) out.push_back(noise_line(c));
		out.push_back(blanks(c) + x.first + blanks(c) + "=" + blanks(c) + x.second + (x.second.empty() ? "" : blanks(c)));
		if (x.first == "Port") w.port = atol(x.second.c_str()); else if (x.first == "ConnectionTimeout") w.timeout = strtoull(x.second.c_str(), nullptr, 10);
		else if (x.first[0] == 'A') { w.list.clear(); std::string s = x.second; size_t o = 0; if (!s.empty()) for (;;) { size_t e = s.find(',', o); w.list.push_back(s.substr(o, e == std::string::npos ? e : e - o)); if (e == std::string::npos) break; o = e + 1; } }
		else if (x.second.empty()) w.v.erase(x.first); else w.v[x.first] = x.second;
	}
	while (c.chance(30)) out.push_back(noise_line(c));
	return out;
}
static inline std::string join_lines(Case &c, const std::vector<std::string> &l) {
	std::string s; int style = c.draw(3); for (size_t i = 0; i < l.size(); i++) { s += l[i]; if (i + 1 == l.size() && c.chance(30)) break; s += style == 0 || (style == 2 && c.chance(50)) ? "\n" : "\r\n"; } return s;
}
