// C02: callsign policy
#include "common.hpp"
static const uint8_t BADAUTH[10] = {7, 0, 0, 0, 0, 1, 0, 0, 0, 2};
// ---- a pattern is generated as a tree, printed for the proxy and evaluated here
struct Re; typedef std::shared_ptr<Re> ReP;
struct Re { enum K { LIT, ANY, CLS, CAT, ALT, REP, BOL, EOL } k; unsigned char ch = 0; bool set[256] = {}; std::vector<ReP> s; int lo = 0, hi = 0; std::string src; };
static const std::string AL = "ABKWXYZ0159-/";
static ReP gen(Case &c, int depth);
static ReP gen_atom(Case &c, int depth) {
	auto r = std::make_shared<Re>(); int k = depth > 0 ? c.weighted({8, 2, 3, 3}) : c.weighted({8, 2, 3});
	switch (k) {
	case 0: r->k = Re::LIT; if (c.chance(8)) { r->ch = c.pick(std::vector<char>{'*', '.', '+', '(', '$'}); r->src = std::string("\\") + (char)r->ch; } else { r->ch = c.chance(8) ? (unsigned char)c.pick(std::vector<int>{'a', 'k', ',', '=', '#', '#', ' ', ' ', 'z', '"', ';'}) : AL[c.draw(AL.size())]; if ((r->ch == '#' || r->ch == ' ') && c.chance(25)) { r->src = std::string("\\") + (char)r->ch; } else r->src = (char)r->ch; } break;
	case 1: r->k = Re::ANY; r->src = "."; break;
	case 2: {
		r->k = Re::CLS; bool neg = c.chance(25); std::string s = neg ? "[^" : "["; int n = 1 + c.draw(3);
		for (int i = 0; i < n; i++) { if (c.chance(50)) { char a = 'A' + c.draw(20), b = a + c.draw('Z' - a + 1); s += a; s += '-'; s += b; for (int x = a; x <= b; x++) r->set[x] = true; } else if (c.chance(40)) { s += "\\d"; for (int x = '0'; x <= '9'; x++) r->set[x] = true; } else { char a = "ABKWX0159/"[c.draw(10)]; s += a; r->set[(unsigned char)a] = true; } }
		s += "]"; if (neg) for (bool &b : r->set) b = !b; r->src = s; break;
	}
	default: { r = std::make_shared<Re>(); auto in = gen(c, depth - 1); r->k = Re::CAT; r->s = {in}; r->src = (c.chance(50) ? "(" : "(?:") + in->src + ")"; break; }
	}
	return r;
}
// matching effort must stay far below PCRE's own limit, which is a matcher failure
static int unbounded;
static bool has_rep(const ReP &r) { if (r->k == Re::REP) return true; for (auto &x : r->s) if (has_rep(x)) return true; return false; }
static ReP gen_rep(Case &c, int depth) {
	if (c.chance(6)) { auto r = std::make_shared<Re>(); if (c.chance(50)) { r->k = Re::BOL; r->src = "^"; } else { r->k = Re::EOL; r->src = "$"; } return r; }
	auto a = gen_atom(c, depth); if (!c.chance(30)) return a;
	auto r = std::make_shared<Re>(); r->k = Re::REP; r->s = {a};
	int q = c.draw(4); if ((q == 1 || q == 2) && (has_rep(a) || ++unbounded > 3)) q = 0;
	switch (q) { case 0: r->lo = 0; r->hi = 1; r->src = a->src + "?"; break; case 1: r->lo = 0; r->hi = -1; r->src = a->src + "*"; break; case 2: r->lo = 1; r->hi = -1; r->src = a->src + "+"; break;
	default: r->lo = c.draw(3); r->hi = r->lo + c.draw(3); if (r->hi == 0) r->hi = 1; r->src = a->src + strf("{%d,%d}", r->lo, r->hi); }
	if (c.chance(15)) r->src += "?";
	return r;
}
static ReP gen_cat(Case &c, int depth) { auto r = std::make_shared<Re>(); r->k = Re::CAT; int n = c.chance(6) ? 0 : 1 + c.draw(4); for (int i = 0; i < n; i++) { auto x = gen_rep(c, depth); r->s.push_back(x); r->src += x->src; } return r; }
static ReP gen(Case &c, int depth) {
	if (!c.chance(30)) return gen_cat(c, depth);
	auto r = std::make_shared<Re>(); r->k = Re::ALT; int n = 2 + c.draw(2); for (int i = 0; i < n; i++) { auto x = gen_cat(c, depth); r->s.push_back(x); r->src += (i ? "|" : "") + x->src; } return r;
}
// a long list of callsigns, as an operator would write it
static ReP gen_list(Case &c) {
	auto r = std::make_shared<Re>(), t = std::make_shared<Re>(); r->k = Re::ALT; t->k = Re::CAT; int n = 20 + c.draw(c.chance(20) ? 1200 : 160);
	for (int i = 0; i < n; i++) {
		auto x = std::make_shared<Re>(); x->k = Re::CAT; std::string s = strf("%c%d%c%c%c", 'A' + c.draw(26), (int)c.draw(10), 'A' + c.draw(26), 'A' + c.draw(26), 'A' + c.draw(26)); x->src = s;
		for (char ch : s) { auto l = std::make_shared<Re>(); l->k = Re::LIT; l->ch = ch; x->s.push_back(l); }
		r->s.push_back(x); r->src += (i ? "|" : "") + s;
	}
	auto b = std::make_shared<Re>(), e = std::make_shared<Re>(); b->k = Re::BOL; e->k = Re::EOL; t->s = {b, r, e}; t->src = (c.chance(50) ? "^(" : "^(?:") + r->src + ")$"; return t;
}
// blanks around a value are no part of it
static ReP guard(ReP r) { if (r->src.empty() || (!strchr(" \t\r", r->src[0]) && !strchr(" \t\r", r->src.back()))) return r; auto g = std::make_shared<Re>(); g->k = Re::CAT; g->s = {r}; g->src = "(?:" + r->src + ")"; return g; }
typedef std::vector<bool> Pos;
static Pos ev(const ReP &r, const Pos &p, const std::string &t) {
	Pos o(t.size() + 1, false);
	switch (r->k) {
	case Re::LIT: for (size_t i = 0; i < t.size(); i++) if (p[i] && (unsigned char)t[i] == r->ch) o[i + 1] = true; break;
	case Re::ANY: for (size_t i = 0; i < t.size(); i++) if (p[i] && t[i] != '\n') o[i + 1] = true; break;
	case Re::CLS: for (size_t i = 0; i < t.size(); i++) if (p[i] && r->set[(unsigned char)t[i]]) o[i + 1] = true; break;
	case Re::CAT: { Pos q = p; for (auto &x : r->s) q = ev(x, q, t); return q; }
	case Re::ALT: for (auto &x : r->s) { Pos q = ev(x, p, t); for (size_t i = 0; i < q.size(); i++) if (q[i]) o[i] = true; } break;
	case Re::REP: {
		Pos q = p; for (int i = 0; i < r->lo; i++) q = ev(r->s[0], q, t);
		o = q; int m = r->hi < 0 ? (int)t.size() + 1 : r->hi - r->lo;
		for (int i = 0; i < m; i++) { q = ev(r->s[0], q, t); bool grew = false; for (size_t j = 0; j < q.size(); j++) if (q[j] && !o[j]) { o[j] = true; grew = true; } if (!grew && r->hi < 0) break; }
		break;
	}
	case Re::BOL: if (p[0]) o[0] = true; break;
	case Re::EOL: if (p[t.size()]) o[t.size()] = true; break;
	}
	return o;
}
static bool search(const ReP &r, const std::string &t) { Pos all(t.size() + 1, true); Pos o = ev(r, all, t); for (bool b : o) if (b) return true; return false; }
static std::string sample(Case &c, const ReP &r) {
	switch (r->k) {
	case Re::LIT: return std::string(1, (char)r->ch);
	case Re::ANY: return std::string(1, AL[c.draw(AL.size())]);
	case Re::CLS: { for (int i = 0; i < 20; i++) { unsigned char x = AL[c.draw(AL.size())]; if (r->set[x]) return std::string(1, (char)x); } return "Q"; }
	case Re::CAT: { std::string s; for (auto &x : r->s) s += sample(c, x); return s; }
	case Re::ALT: return sample(c, r->s.size() > 9 && c.chance(40) ? r->s.back() : r->s[c.draw(r->s.size())]);
	case Re::REP: { std::string s; int n = r->lo + c.draw((r->hi < 0 ? 3 : r->hi - r->lo) + 1); for (int i = 0; i < n; i++) s += sample(c, r->s[0]); return s; }
	default: return "";
	}
}
static std::string gen_subject(Case &c, const ReP &a, const ReP &b, size_t max) {
	std::string s;
	if (c.chance(65) && (a || b)) {
		s = sample(c, a && (!b || c.chance(50)) ? a : b);
		for (int i = c.draw(3); i > 0; i--) switch (c.draw(5)) { case 0: s = std::string(1, AL[c.draw(AL.size())]) + s; break; case 1: s += AL[c.draw(AL.size())]; break; case 2: if (!s.empty()) s.erase(c.draw(s.size()), 1); break; case 3: if (!s.empty()) { size_t k = c.draw(s.size()); if (isalpha((unsigned char)s[k])) s[k] ^= 32; } break; default: if (!s.empty()) s[c.draw(s.size())] = AL[c.draw(AL.size())]; }
	} else s = gen_callsign(c);
	for (char &ch : s) if (ch == '\n' || ch == 0) ch = '/';
	if (s.size() > max) s.resize(max);
	return s;
}
static void run(Case &c) {
	World w(c); int r = w.init(); CHECK(c, r == 0, "proxy_init failed: %d", r);
	int rounds = 1 + c.draw(c.thorough ? 6 : 4); bool interesting = false; bool saw_yes = false, saw_no = false;
	static const std::vector<std::string> BAD = {"(", "[A", "*", "A{2,1}", "(?<n", "A)", "[z-a]", "+A", "(?P=x)", "A(?:B", "[[:nope:]]", "(?<=A+)B", "\\"};
	for (int i = 0; i < rounds; i++) {
		ReP al, de; std::string sa, sd; bool bad = false;
		unbounded = 0; if (c.chance(65)) { al = c.chance(3) ? gen_list(c) : guard(gen(c, 2)); sa = al->src; }
		unbounded = 0; if (c.chance(65)) { de = c.chance(3) ? gen_list(c) : guard(gen(c, 2)); sd = de->src; }
		if (c.chance(12)) { bad = true; std::string b = c.pick(BAD); if (c.chance(50)) { sa = b; al = nullptr; } else { sd = b; de = nullptr; } }
		if (sa.empty()) al = nullptr;
		if (sd.empty()) de = nullptr;
		c.note("round %d: allowed %s, denied %s", i, quoted(sa).c_str(), quoted(sd).c_str());
		Conf cf; cf.slots = 1 + c.draw(2); cf.extra = "CallsignsAllowed=" + sa + "\nCallsignsDenied=" + sd + "\n";
		if (cf.slots == 1) cf.extra += "AdditionalExternalBindAddresses=\n";
		r = w.load(cf); CHECK(c, r == 0, "loading the configuration failed: %d", r);
		r = w.open();
		if (bad) { CHECK(c, r < 0, "proxy_open succeeded (%d) although a pattern does not compile (allowed %s denied %s)", r, quoted(sa).c_str(), quoted(sd).c_str()); c.label("pattern does not compile"); interesting = true; continue; }
		CHECK(c, r == 0, "proxy_open failed (%d) with allowed %s denied %s", r, quoted(sa).c_str(), quoted(sd).c_str());
		auto want = [&](const std::string &s) { return !(de && search(de, s)) && !(al && !search(al, s)); };
		int n = 6 + c.draw(20);
		for (int k = 0; k < n; k++) {
			std::string s = gen_subject(c, al, de, c.chance(10) ? 60 : 10); bool exp = want(s); (exp ? saw_yes : saw_no) = true;
			int err = 0; if (c.chance(4)) { err = c.pick(std::vector<int>{-47, -53, -48, -63, -2, -33}); shim::regex_error(err); if (al || de) exp = false; }
			int got = proxy_authorize_callsign(&w.ph, s.c_str()); shim::regex_error(0);
			CHECK(c, (got == 1) == exp, "allowed %s, denied %s: callsign %s was %s (result %d%s), must be %s", quoted(sa).c_str(), quoted(sd).c_str(), quoted(s).c_str(), got == 1 ? "accepted" : "refused", got, err ? strf(", matcher fails with %d", err).c_str() : "", exp ? "accepted" : "refused");
			if (err && (al || de)) c.label("matcher failure");
			if (de && search(de, s) && al && search(al, s)) c.label("deny and allow match");
			if (exp && sa.size() > 250) c.label("admitted by a long list"); if (!exp && sd.size() > 250) c.label("refused by a long list");
		}
		if (c.chance(30)) {
			r = w.start(); CHECK(c, r == 0, "proxy_start failed: %d", r); w.accept_loop(); PeerP p = w.peer(1);
			for (int k = 1 + c.draw(5); k > 0; k--) {
				std::string s = gen_subject(c, al, de, 10); bool exp = want(s);
				int err = 0; if (c.chance(10) && (al || de)) { err = c.pick(std::vector<int>{-47, -53, -48}); shim::regex_error(err); exp = false; }
				auto cl = w.connect(); w.get_challenge(cl);
				c.note("client %s, must be %s%s", quoted(s).c_str(), exp ? "admitted" : "refused", err ? " (matcher fails)" : "");
				w.greet(cl, s, cf.password);
				if (exp) { w.confirm_in(cl); w.learn_slot(cl, p); c.label("admitted"); }
				else {
					w.expect_gone(cl, "callsign must be refused"); Bytes got(cl->ep->rx.begin() + cl->ep->off, cl->ep->rx.end());
					CHECK(c, got == Bytes(BADAUTH, BADAUTH + 10), "refused callsign %s must get exactly the not-authorized notice, got %s", quoted(s).c_str(), hex(got.data(), got.size()).c_str()); c.label("refused");
					w.pump(); CHECK(c, p->data->dg.empty() && p->ctl->dg.empty(), "traffic relayed for a refused client");
				}
				shim::regex_error(0);
				w.leave(cl); w.quiesce();
			}
			w.peers.clear(); for (auto &e : w.eps) e->shut(); w.eps.clear();
		}
		w.close();
		if (i > 0) c.label("reopened");
	}
	if (interesting || (saw_yes && saw_no)) c.nontrivial();
	w.down();
}
Property the_property = {"C02",
	"A case is 1-4 rounds of configuring, opening, querying and closing one proxy handle; the allowed and denied patterns are random trees (literals, classes, groups, alternation, quantifiers, anchors) or absent or malformed, callsigns are derived from the trees with mutations. Oracle: an own evaluator of the trees; notice bytes for connecting clients; injected matcher failures must refuse. Non-trivial: both accepted and refused callsigns occurred, or a malformed pattern.",
	world_process_init, run, 14000, 1000000, 60,
	{"patterns are drawn from a subset of PCRE whose meaning the harness evaluates itself"}};
