// C17: registration reports are well-formed and truthful
#include "registrar.hpp"
static void run(Case &c) {
	World w(c); Registrar reg(w); bool wide = c.chance(5); int n = wide ? 10 + c.draw(3) : 1 + c.draw(3); RegConf k; bool registered = c.chance(88), bad = false; shim::socket_timeouts_div(50);
	k.name = reg_text(c, 3000); k.comment = c.chance(25) ? "" : reg_text(c, 3000); k.addr = c.chance(35) ? "" : c.chance(60) ? c.pick(std::vector<std::string>{"192.0.2.44", "proxy.example.org", "1.2.3.4"}) : reg_text(c, 2000); k.slots = n; k.port = c.chance(50) ? 8100 : c.pick(std::vector<int>{1024, 9999, 10000, 65535, 5000, 12345});
	Conf cf; cf.slots = n; cf.vary(c, true); cf.port = k.port; cf.password = c.chance(40) ? "PUBLIC" : c.chance(40) ? c.pick(std::vector<std::string>{"public", "Public", "PUBLIC1", "PUBLI", "XPUBLIC", "PUBLIC."}) : "secret"; k.pub = cf.password == "PUBLIC"; cf.denied = "^BAD";
	if (registered) cf.reg_name = k.name; cf.reg_comment = k.comment; cf.public_addr = k.addr; if (c.chance(30)) cf.extra += c.chance(50) ? "RegistrationComment=" + k.comment + "\n" : "PublicAddress=" + k.addr + "\n";
	c.note("%d slot(s), port %d, %s, name %s, comment %s, address %s", n, k.port, registered ? "registered" : "not registered", quoted(k.name, 60).c_str(), quoted(k.comment, 60).c_str(), quoted(k.addr, 60).c_str());
	int mode = c.draw(10), seed = c.draw(1000), cnt = 0; bool refusing = c.chance(12); if (!refusing) reg.listen(); gen_perturb(c, 25, 400); if (c.chance(15)) shim::short_send(40, c.draw(1000)); else if (c.chance(10)) shim::short_send(60, c.draw(1000), 40);
	reg.behave = [&]() -> int { cnt++; if (mode < 4) return ANSWER_OK; if (mode < 9) { static const int b[] = {ANSWER_ERROR, HANG_UP_AFTER, GARBAGE_ANSWER, RESET_AFTER, HALF_ANSWER, HANG_UP_FIRST, ANSWER_OK, LONG_ANSWER}; bad = true; return b[mix64(seed + cnt) % 8]; } bad = true; return mix64(seed + cnt) % 3 == 0 ? NEVER_ANSWER : ANSWER_OK; };
	reg.delay_us = c.chance(20) ? c.draw(20000) : 0; size_t seen = 0; bool closing = false; std::vector<std::string> statuses;
	auto look = [&] { for (; seen < reg.reports.size(); seen++) { check_report(c, *reg.reports[seen], k, closing); statuses.push_back(reg.reports[seen]->status); CHECK(c, closing || reg.reports[seen]->status != "Off", "an Off report was sent while the proxy is up"); } };
	bool withdrawn = false; std::set<std::string> addrs{k.addr}; int rounds = 1 + (c.chance(40) ? 1 : 0);
	for (int round = 0; round < rounds; round++) {
		closing = false; size_t r0 = reg.reports.size(); w.up(cf);
		auto p = w.peer(1); std::vector<ClientP> live; int ops = 1 + c.draw(c.thorough ? 14 : 7), clients = 0, crowd = wide ? n - c.draw(3) : 0; ops += crowd;
		if (registered && !refusing) { if (mode < 4) { w.must([&] { return reg.reports.size() > r0; }, "a report when the proxy starts"); } reg.step(); look(); }
		for (int i = 0; i < ops; i++) {
			int op = c.weighted({6, 3, 2, 1}); if (i < crowd) op = 0; if (op == 0 && (int)live.size() >= n) op = 1; if (op == 1 && live.empty()) op = 0;
			if (op == 0) { settled(w, live.size()); auto cl = w.connect(); w.get_challenge(cl); w.greet(cl, simple_call(i), cf.password); w.confirm_in(cl); w.learn_slot(cl, p); live.push_back(cl); clients++; c.note("%s logs in", cl->call.c_str()); }
			else if (op == 1) { size_t x = c.draw(live.size()); c.note("%s leaves", live[x]->call.c_str()); w.leave(live[x], c.chance(50)); live.erase(live.begin() + x); }
			else if (op == 2) { for (auto &cl : live) { int s = cl->slot; w.learn_slot(cl, p); CHECK(c, s == cl->slot, "the slot of a client changed"); } }
			else { settled(w, live.size()); auto cl = w.connect(); w.wait([&] { return cl->ep->avail() >= 8 || cl->gone(); }); if (cl->ep->avail() >= 8) { w.get_challenge(cl); w.greet(cl, "BAD1", cf.password); w.expect_gone(cl, "its callsign is denied"); } w.leave(cl); }
			look();
		}
		if (mode < 4 && registered && !refusing) { reg.settle(); look(); }
		for (auto &cl : live) CHECK(c, !cl->gone(), "a client was disconnected"); 
		while (!live.empty()) { w.leave(live.back()); live.pop_back(); }
		closing = true; w.close(); w.quiesce(2); for (int i = 0; i < 50 && reg.busy(); i++) { w.pump(); usleep(200); } look();
		if (registered && !refusing && mode < 4) { CHECK(c, !statuses.empty() && statuses.back() == "Off", "the last report after closing is %s", statuses.empty() ? "missing" : statuses.back().c_str()); if (statuses.size() >= 3) withdrawn = true; }
		if (round + 1 < rounds && c.chance(80)) { // another configuration for the next round
			if (c.chance(50)) k.comment = c.chance(20) ? "" : reg_text(c, 200); if (c.chance(40)) k.name = reg_text(c, 200); if (c.chance(40)) { k.addr = c.chance(30) ? "" : reg_text(c, 200); addrs.insert(k.addr); } if (c.chance(50)) { cf.password = k.pub ? c.pick(std::vector<std::string>{"secret", "public", "PUBLIC1"}) : "PUBLIC"; k.pub = cf.password == "PUBLIC"; } if (c.chance(40)) k.port = 5000 + c.draw(3000); if (c.chance(30)) { n = 1 + c.draw(4); wide = false; k.slots = n; }
			cf.any_ext = 0; cf.slots = n; cf.vary(c, true); cf.port = k.port; if (registered) cf.reg_name = k.name; cf.reg_comment = cf.public_addr = ""; cf.extra = "RegistrationComment=" + k.comment + "\nPublicAddress=" + k.addr + "\n" + (n == 1 ? "AdditionalExternalBindAddresses=\n" : "");
			c.note("then %d slot(s), port %d, password %s, name %s, comment %s, address %s", n, k.port, cf.password.c_str(), quoted(k.name, 60).c_str(), quoted(k.comment, 60).c_str(), quoted(k.addr, 60).c_str()); c.label("reconfigured"); }
	}
	if (!registered) { CHECK(c, reg.contacts == 0 && reg.reports.empty(), "the registrar was contacted although no registration name is set"); auto l = shim::take_lookups(); CHECK(c, l.empty(), "%s was looked up although no registration name is set", l.empty() ? "" : l[0].c_str()); } else for (auto &x : shim::take_lookups()) CHECK(c, x == "www.echolink.org" || x == "www.echolink.org." || addrs.count(x), "%s was looked up", quoted(x).c_str());
	CHECK(c, [&] { for (auto &o : shim::take_outside()) if (o.tcp) return false; return true; }(), "a connection to another host was attempted");
	if (registered && (reg.reports.size() >= 2 || bad || refusing)) c.nontrivial(); c.label("%s", !registered ? "not registered" : refusing ? "registrar refuses" : mode < 4 ? "registrar answers" : mode < 9 ? "registrar misbehaves" : "registrar hangs"); if (withdrawn) c.label("Off sent"); if (wide) c.label("ten or more slots");
	w.down();
}
Property the_property = {"C17",
	"A case is a proxy with 1-3 (sometimes 10-12) slots and generated registration name, comment and public address (1 to 3000 bytes, or absent), port and password (PUBLIC and near misses) or no registration; a registrar that answers, fails, sends garbage, hangs up, resets, answers partly, refuses or never answers; logins, refusals and leaves; partial writes and perturbed schedules; close and reopen with another name, comment, address, port, password or number of slots. Oracle: an HTTP parser, the exact body rebuilt from the configuration with an independent MD5, status consistent with the slot counts, no contact without a name, clients unaffected. Non-trivial: registered with at least two reports or a misbehaving registrar.",
	world_process_init, run, 4000, 250000, 60, {"'&', '=' and brackets are not generated in the texts (their encoding is unspecified)", "socket timeouts are shortened 50 times"}};
