// the registrar www.echolink.org, played by the harness on 127.B.4.1:80
#pragma once
#include "common.hpp"
struct Report { std::string raw, body, name, comment, pub, status, a, d, p, v; long used = -1, total = -1; uint64_t at = 0; };
enum Behaviour { ANSWER_OK, ANSWER_ERROR, HANG_UP_AFTER, GARBAGE_ANSWER, RESET_AFTER, HALF_ANSWER, HANG_UP_FIRST, NEVER_ANSWER, LONG_ANSWER };
struct Registrar {
	World &w; std::shared_ptr<Ep> lis; struct Conn { std::shared_ptr<Ep> ep; int how; bool complete = false, answered = false; uint64_t due = 0; size_t total = 0; std::shared_ptr<Report> rep; };
	std::vector<Conn> conns; std::vector<std::shared_ptr<Report>> reports; std::function<int()> behave = [] { return (int)ANSWER_OK; }; unsigned delay_us = 0; long contacts = 0; size_t used_slots_known = 0;
	explicit Registrar(World &w) : w(w) { w.on_pump = [this] { step(); }; }
	~Registrar() { w.on_pump = nullptr; }
	void listen() { if (lis && lis->fd >= 0) return; int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1; setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = shim::ip(4, 1); a.sin_port = htons(80); int tries = 0; while (::bind(fd, (sockaddr *)&a, sizeof a) < 0 || ::listen(fd, 64) < 0) { if (errno != EADDRINUSE || ++tries > 400) w.c.fail("harness: registrar: %s", strerror(errno)); usleep(5000); } /* a process that crashed may still be going away */ lis = w.add(fd, false, true); }
	void refuse() { if (lis) lis->shut(); }
	// the request as far as it is there; false: more is needed
	bool request(Conn &k, bool ended) {
		Case &c = w.c; std::string s((char *)k.ep->rx.data(), k.ep->rx.size()); size_t h = s.find("\r\n\r\n"); if (h == std::string::npos) { if (ended && !s.empty() && k.how < HANG_UP_FIRST) c.fail("an incomplete request was sent to the registrar: %s", quoted(s, 300).c_str()); return false; }
		std::string head = s.substr(0, h + 2); long cl = -1; size_t o = head.find("\r\n") + 2; bool host = false;
		CHECK(c, head.compare(0, 27, "POST /proxypost.jsp HTTP/1.") == 0 && head.find("\r\n") == 28, "the request line is %s", quoted(head.substr(0, o)).c_str());
		while (o < head.size()) { size_t e = head.find("\r\n", o); std::string l = head.substr(o, e - o); o = e + 2; size_t q = l.find(':'); CHECK(c, q != std::string::npos && q > 0 && l.find_first_of(" \t") > q, "malformed header line %s", quoted(l).c_str()); std::string k = upper_ascii(l.substr(0, q)), v = l.substr(q + 1); v = v.substr(std::min(v.size(), v.find_first_not_of(' ')));
			if (k == "CONTENT-LENGTH") { CHECK(c, cl < 0, "two Content-Length headers"); CHECK(c, !v.empty() && v.find_first_not_of("0123456789") == std::string::npos, "Content-Length is %s", quoted(v).c_str()); cl = atol(v.c_str()); } if (k == "HOST") { host = true; CHECK(c, v == "www.echolink.org" || v == "www.echolink.org:80", "Host is %s", quoted(v).c_str()); } }
		CHECK(c, cl >= 0, "no Content-Length in %s", quoted(head, 600).c_str()); CHECK(c, host, "no Host header in %s", quoted(head, 600).c_str());
		if (s.size() < h + 4 + (size_t)cl) { if (ended && k.how < HANG_UP_FIRST) c.fail("Content-Length is %ld but the body has %zu bytes: %s", cl, s.size() - h - 4, quoted(s.substr(h + 4), 300).c_str()); return false; }
		if (s.size() > h + 4 + (size_t)cl) c.fail("Content-Length is %ld but more is sent: %s", cl, quoted(s.substr(h + 4), 600).c_str());
		k.total = s.size(); auto r = std::make_shared<Report>(); r->raw = s; r->body = s.substr(h + 4); r->at = mono_ns(); reports.push_back(r); k.rep = r; return true;
	}
	void step() {
		if (lis && lis->fd >= 0) while (!lis->pending.empty()) { int fd = lis->pending.front(); lis->pending.pop_front(); contacts++; Conn k; k.ep = w.add(fd, false, false); k.how = behave(); conns.push_back(k); if (k.how == HANG_UP_FIRST) k.ep->shut(); }
		for (size_t i = 0; i < conns.size(); i++) { auto &k = conns[i]; if (k.ep->fd < 0) { drop(i--); continue; }
			if (!k.complete) { if (request(k, k.ep->gone())) { k.complete = true; k.due = mono_ns() + delay_us * 1000ull; } else if (k.ep->gone()) { k.ep->shut(); drop(i--); continue; } }
			else if (k.ep->rx.size() > k.total) w.c.fail("%zu bytes follow the announced body", k.ep->rx.size() - k.total);
			if (k.complete && !k.answered && mono_ns() >= k.due) { k.answered = true; std::string a; switch (k.how) { case ANSWER_OK: a = "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nOK"; break; case ANSWER_ERROR: a = "HTTP/1.1 500 Oops\r\n\r\n"; break; case GARBAGE_ANSWER: a = std::string(300, '\xff'); break; case HALF_ANSWER: a = "HTTP/1"; break; case LONG_ANSWER: a = "HTTP/1.1 200 OK\r\n\r\n" + std::string(50000, 'x'); break; default:; }
				if (!a.empty()) { (void)!::send(k.ep->fd, a.data(), a.size(), MSG_NOSIGNAL | MSG_DONTWAIT); } if (k.how == HANG_UP_AFTER || k.how == HALF_ANSWER) k.ep->close_fin(); if (k.how == RESET_AFTER) k.ep->shut(); }
			if (k.ep->fd < 0 || (k.answered && k.ep->gone())) { k.ep->shut(); drop(i--); } }
	}
	void drop(size_t i) { auto e = conns[i].ep; w.eps.erase(std::remove(w.eps.begin(), w.eps.end(), e), w.eps.end()); conns.erase(conns.begin() + i); }
	bool busy() { if (lis && !lis->pending.empty()) return true; for (auto &k : conns) if (k.how != NEVER_ANSWER) return true; return false; }
	void settle() { uint64_t dl = mono_ns() + 8000000000ull; do { w.quiesce(); } while (busy() && mono_ns() < dl); }
};
struct RegConf { std::string name, comment, addr; bool pub; int port, slots; };
static inline std::string reg_text(Case &c, size_t maxlen) {
	size_t n = c.chance(30) ? c.pick(std::vector<size_t>{1, 2, 14, 15, 16, 17, 18, 30, 31, 32, 33, 48, 63, 64, 65, 79, 80, 81, 96, 100, 127, 128, 129, 200, 255, 256, 257}) : 1 + c.draw(c.chance(10) ? maxlen : 40); std::string s; for (size_t i = 0; i < n; i++) s += c.chance(85) ? (char)('0' + c.draw(75)) : c.chance(80) ? c.pick(std::vector<char>{' ', '.', '-', '%', ',', '/', '!', '(', '*', '+'}) : (char)(128 + c.draw(128));
	for (char &ch : s) if (ch == '&' || ch == '=' || ch == '[' || ch == ']') ch = 'x'; if (s[0] == ' ') s[0] = 'a'; if (s.back() == ' ') s.back() = 'z'; return s;
}
// checks the whole body and takes it apart; `closing`: the slot counts may already be those of a proxy that takes nobody
static inline void check_report(Case &c, Report &r, const RegConf &k, bool closing) {
	std::string b = r.body; size_t o = 0; auto lit = [&](const std::string &s, const char *what) { CHECK(c, b.compare(o, s.size(), s) == 0, "expected %s %s at offset %zu of the report %s", what, quoted(s, 200).c_str(), o, quoted(b, 900).c_str()); o += s.size(); };
	lit("name=" + k.name, "the name"); lit("&comment=" + k.comment, "the comment");
	if (b.compare(o, 2, " [") == 0) { char *e; r.used = strtol(&b[o + 2], &e, 10); CHECK(c, e > &b[o + 2] && *e == '/', "malformed slot counts in %s", quoted(b, 900).c_str()); char *f; r.total = strtol(e + 1, &f, 10); CHECK(c, f > e + 1 && *f == ']', "malformed slot counts in %s", quoted(b, 900).c_str()); o = f + 1 - &b[0]; CHECK(c, strf(" [%ld/%ld]", r.used, r.total) == b.substr(b.find(" [", 13 + k.name.size() + k.comment.size()), strf(" [%ld/%ld]", r.used, r.total).size()), "odd slot counts in %s", quoted(b, 900).c_str()); }
	lit(k.pub ? "&public=Y" : "&public=N", "the public flag"); lit("&status=", "the status"); size_t e = b.find('&', o); r.status = b.substr(o, e == std::string::npos ? e : e - o); CHECK(c, r.status == "Ready" || r.status == "Busy" || r.status == "Off", "status %s", quoted(r.status).c_str()); o += r.status.size();
	lit("&a=" + k.addr, "the public address"); lit("&d=" + md5_hex_upper(k.name + k.addr + "#5A!zu"), "the digest"); lit(strf("&p=%d", k.port), "the port"); lit("&v=", "the version"); r.v = b.substr(o); CHECK(c, !r.v.empty() && r.v.find_first_of("&= \r\n") == std::string::npos, "the version is %s", quoted(r.v).c_str());
	if (!closing) { if (k.slots == 1) CHECK(c, r.total < 0, "slot counts [%ld/%ld] although there is one slot", r.used, r.total); else { CHECK(c, r.total == k.slots, "the report says [%ld/%ld] although there are %d slots: %s", r.used, r.total, k.slots, quoted(b, 900).c_str()); CHECK(c, r.used >= 0 && r.used <= r.total, "the report says [%ld/%ld]", r.used, r.total); if (r.status != "Off") CHECK(c, (r.used == r.total) == (r.status == "Busy"), "status %s with [%ld/%ld]", r.status.c_str(), r.used, r.total); } }
}
