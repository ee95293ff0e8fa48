// C01: only a correct challenge response opens a session
#include "common.hpp"
static const uint8_t BADPW[10] = {7, 0, 0, 0, 0, 1, 0, 0, 0, 1};

static void must_relay(Case &c, World &w, ClientP &cl, PeerP &p) {
	Bytes pl = c.blob(1 + c.draw(40)); cl->send(enc(UDP_DATA, p->ip, pl));
	if (!w.wait([&] { return !p->data->dg.empty() || cl->gone(); }) || p->data->dg.empty()) c.fail("admitted client %s: its datagram was not relayed (%s)", quoted(cl->call).c_str(), cl->gone() ? "disconnected" : "nothing arrived");
	Dgram d = p->data->dg.front(); p->data->dg.pop_front();
	CHECK(c, d.data == pl, "relayed datagram differs: %s", hex(d.data.data(), d.data.size()).c_str());
}
static void nothing_relayed(Case &c, World &w, PeerP &p, const char *why) {
	w.pump();
	CHECK(c, p->data->dg.empty() && p->ctl->dg.empty(), "%s, yet a datagram was relayed", why);
	CHECK(c, p->conns.empty(), "%s, yet a TCP connection was relayed", why);
	auto o = shim::take_outside(); CHECK(c, o.empty(), "%s, yet traffic was sent to %s", why, inet_ntoa(in_addr{o[0].dst_ip}));
}
static std::array<uint8_t, 16> md(const std::string &s) { std::array<uint8_t, 16> r; md5(s.data(), s.size(), r.data()); return r; }
static std::string lower(std::string s) { for (char &ch : s) if (ch >= 'A' && ch <= 'Z') ch += 32; return s; }

static void many(Case &c) { // challenges must not come again, or a recorded answer can be used again
	World w(c); Conf cf; cf.slots = 1 + c.draw(4); w.up(cf); int n = 150 + c.draw(c.thorough ? 4000 : 400), twice = 0, full = 0; std::map<std::string, int> seen; std::string what; c.note("%d connections to %d slot(s)", n, cf.slots); c.label("many challenges"); c.nontrivial();
	for (int i = 0; i < n; i++) { auto cl = w.connect(); w.must([&] { return cl->ep->avail() >= 8 || cl->gone(); }, "challenge of 8 digits"); if (cl->ep->avail() < 8) { CHECK(c, ++full < 2000, "nobody is served any more"); w.leave(cl); w.clients.clear(); i--; usleep(100 * std::min(full, 100)); continue; } full = 0; w.get_challenge(cl); if (seen.count(cl->digits)) { twice++; what = strf("%s as the %dth and the %dth", cl->digits.c_str(), seen[cl->digits], i + 1); } seen[cl->digits] = i + 1; CHECK(c, twice < 2, "challenges are given again: %s of %d", what.c_str(), i + 1); w.leave(cl); w.clients.clear(); if (i % 40 == 39) w.eps.clear(); }
	w.down();
}
static void run(Case &c) {
	if (c.fixed(2, c.index % 300 == 7)) return many(c);
	World w(c); Conf cf; cf.slots = 1 + c.draw(3); cf.password = gen_password(c); cf.vary(c);
	// surrounding blanks belong to the file syntax, not to the password
	std::vector<uint32_t> forced;
	if (c.chance(60)) for (int i = 0; i < 12; i++) switch (c.draw(5)) {
		case 0: forced.push_back(c.bits(31)); break;
		case 1: forced.push_back(c.bits(8)); break;
		case 2: forced.push_back(c.bits(20)); break;
		case 3: forced.push_back(c.pick(std::vector<uint32_t>{0, 1, 0x7fffffff, 0x0a0a0a0a, 0x00abcdef, 0x6a6b6c6d})); break;
		default: forced.push_back(c.bits(27) << 4); break;
		}
	shim::force_rand(forced);
	if (c.chance(25)) shim::short_recv(60, c.draw(1000));
	gen_perturb(c, 20, 400);
	w.up(cf); PeerP p = w.peer(1);
	c.note("password %s, %d slot(s)", quoted(cf.password).c_str(), cf.slots);
	std::vector<ClientP> waiting, in; std::vector<std::string> old; bool interesting = false;
	std::set<std::string> seen; auto fresh = [&](ClientP cl) { if (forced.empty()) CHECK(c, seen.insert(cl->digits).second, "the challenge %s was given before", cl->digits.c_str()); };
	int ops = 1 + c.draw(c.thorough ? 24 : 12);
	for (int i = 0; i < ops; i++) {
		for (size_t k = 0; k < in.size(); k++) if (in[k]->gone()) c.fail("client %s was admitted but then disconnected by itself", quoted(in[k]->call).c_str());
		bool room = (int)(waiting.size() + in.size()) < cf.slots;
		int op = c.weighted({4, 6, 1, 2});
		if (op == 0 && !room) op = waiting.empty() ? 2 : 1;
		if (op == 1 && waiting.empty()) op = room ? 0 : 2;
		if ((op == 2 || op == 3) && in.empty()) op = room ? 0 : 1;
		if (op == 0) {
			auto cl = w.connect(); w.get_challenge(cl); c.note("connect: challenge %s", cl->digits.c_str()); fresh(cl); waiting.push_back(cl);
		} else if (op == 1) {
			size_t k = c.draw(waiting.size()); auto cl = waiting[k]; waiting.erase(waiting.begin() + k);
			std::string call = gen_callsign(c); cl->call = call;
			auto good = response_for(cl->digits, cf.password); auto r = good; std::string how = "right answer"; int kind = c.weighted({5, 12, 4, 3}); bool right = true;
			Bytes g;
			if (kind == 1) { // some other 16 bytes
				switch (c.draw(12)) {
				case 0: case 1: case 2: { int by = c.draw(16), bi = c.draw(8); r[by] ^= 1 << bi; how = strf("byte %d bit %d flipped", by, bi); break; }
				case 3: r = md(cf.password + cl->digits); how = "password not upper-cased"; break;
				case 4: r = md(lower(cf.password) + cl->digits); how = "password lower-cased"; break;
				case 5: { std::string u = cl->digits; for (char &ch : u) ch = toupper(ch); r = md(upper_ascii(cf.password) + u); how = "digits upper-cased"; break; }
				case 6: { std::string o; if (!waiting.empty()) o = waiting[c.draw(waiting.size())]->digits; else if (!old.empty()) o = old[c.draw(old.size())]; else o = "00000000"; r = response_for(o, cf.password); how = "answer to challenge " + o; break; }
				case 7: r = md(upper_ascii(cf.password)); how = "no digits"; break;
				case 8: r = md(cl->digits); how = "no password"; break;
				case 9: { std::string q = cf.password; if (c.chance(50)) q.pop_back(); else q += (char)('A' + c.draw(26)); r = response_for(cl->digits, q); how = "password " + quoted(q); break; }
				case 10: { auto b = c.blob(16); memcpy(r.data(), b.data(), 16); how = "random bytes"; break; }
				default: { std::string t = cl->digits; while (t.size() > 1 && t[0] == '0') t.erase(0, 1); r = md(upper_ascii(cf.password) + t); how = "digits without leading zeros"; break; }
				}
				right = r == good;
			}
			if (kind <= 1) {
				g.assign(call.begin(), call.end()); g.push_back('\n'); g.insert(g.end(), r.begin(), r.end());
				// a refused client's traffic must go nowhere; only with something pipelined the notice may be lost to a reset
				bool pipe = !right && c.chance(25);
				if (pipe) { Bytes m = enc(UDP_DATA, p->ip, {1, 2, 3}); g.insert(g.end(), m.begin(), m.end()); m = enc(TCP_OPEN, p->ip, {}); g.insert(g.end(), m.begin(), m.end()); }
				c.note("greeting: callsign %s, %s%s", quoted(call).c_str(), how.c_str(), pipe ? ", messages pipelined" : "");
				send_cut(c, cl, g, 4);
				if (right) { w.confirm_in(cl); in.push_back(cl); must_relay(c, w, cl, p); c.label("right answer"); }
				else {
					interesting = true; c.label("wrong: %s", how.substr(0, how.compare(0, 6, "answer") == 0 ? 19 : how.compare(0, 4, "byte") == 0 ? 4 : how.compare(0, 10, "password \"") == 0 ? 8 : 40).c_str());
					w.expect_gone(cl, "wrong password answer");
					Bytes got(cl->ep->rx.begin() + cl->ep->off, cl->ep->rx.end());
					if (!pipe || !got.empty()) CHECK(c, got == Bytes(BADPW, BADPW + 10), "a wrong answer (%s) must get exactly the bad-password notice, got %s", how.c_str(), hex(got.data(), got.size()).c_str());
					w.leave(cl); w.quiesce(); nothing_relayed(c, w, p, "client was refused");
				}
			} else if (kind == 2) { // over-long or unterminated callsign
				size_t n = 11 + c.draw(30); std::string s; for (size_t j = 0; j < n; j++) s += (char)('A' + c.draw(26));
				g.assign(s.begin(), s.end()); if (c.chance(70)) { g.push_back('\n'); g.insert(g.end(), good.begin(), good.end()); } else { while (g.size() < 28) g.push_back('Q'); }
				c.note("greeting: callsign of %zu characters", n); interesting = true; c.label("over-long");
				send_cut(c, cl, g, 4); w.expect_gone(cl, "over-long callsign");
				CHECK(c, cl->ep->avail() == 0, "over-long greeting answered with %s", hex(&cl->ep->rx[cl->ep->off], cl->ep->avail()).c_str());
				w.leave(cl); w.quiesce(); nothing_relayed(c, w, p, "greeting was over-long");
			} else { // incomplete: stops before the end
				g.assign(call.begin(), call.end()); g.push_back('\n'); g.insert(g.end(), good.begin(), good.end());
				size_t n = c.draw(g.size()); g.resize(n); interesting = true; c.label("incomplete");
				c.note("greeting: first %zu bytes only, then %s", n, "end of stream");
				if (n) send_cut(c, cl, g, 3);
				::shutdown(cl->ep->fd, SHUT_WR); w.expect_gone(cl, "greeting ended early");
				CHECK(c, cl->ep->avail() == 0, "incomplete greeting answered with %s", hex(&cl->ep->rx[cl->ep->off], cl->ep->avail()).c_str());
				w.leave(cl); w.quiesce(); nothing_relayed(c, w, p, "greeting was incomplete");
			}
			old.push_back(cl->digits);
		} else if (op == 2) { size_t k = c.draw(in.size()); c.note("client %s leaves", quoted(in[k]->call).c_str()); w.leave(in[k]); in.erase(in.begin() + k); w.quiesce(); }
		else { auto cl = in[c.draw(in.size())]; must_relay(c, w, cl, p); }
	}
	// as available as before: all remaining slots can be taken
	while ((int)(waiting.size() + in.size()) < cf.slots) { auto cl = w.login(simple_call(in.size())); fresh(cl); in.push_back(cl); }
	for (auto &cl : in) must_relay(c, w, cl, p);
	if (interesting) c.nontrivial();
	w.down();
}
Property the_property = {"C01",
	"A case is a history of connections to a proxy with 1-3 slots and a generated password: connect, answer a challenge (right, or one of 12 kinds of wrong, over-long, unterminated, incomplete; cut into segments; challenges forced to have leading zeros etc.), use, leave. Oracle: independent MD5; challenges that are not forced never repeat, also over some hundred connections; exact notice bytes; nothing relayed for refused clients; afterwards every slot can be taken. Non-trivial: at least one greeting that must be refused.",
	world_process_init, run, 12000, 300000, 60,
	{"clients and hosts are on 127/8; libc calls of the library go through the harness's shims"}};
