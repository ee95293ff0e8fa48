// C08: capacity: exactly the configured slots, never lost or shared
#include "common.hpp"
struct Cl { ClientP cl; int st; Bytes fixed; }; // st: 1 challenged, 2 in session
static void run(Case &c) {
	World w(c); Conf cf; static const std::vector<int> W = {257, 33, 17, 256, 65, 129, 300, 100, 64, 255, 127, 258}; bool wide = c.fixed(2, c.index % 280 == 11); cf.slots = wide ? W[c.fixed(W.size(), c.index / 280 % W.size())] : 1 + c.draw(5); cf.denied = "^BAD"; int n = cf.slots; if (wide) c.label("many slots"); else cf.vary(c);
	if (!wide) gen_perturb(c, 60, 900); if (c.chance(15)) shim::short_recv(50, c.draw(1000));
	w.up(cf); auto p = w.peer(1);
	std::vector<std::string> calls; int nk = 1 + c.draw(6); for (int i = 0; i < nk; i++) calls.push_back(c.chance(50) ? c.pick(colliding_calls()) : simple_call(i));
	std::vector<Cl> live; int leaving = 0, overs = 0, logins = 0, refusals = 0, bursts = 0, failed = 0, races = 0;
	auto settle_all = [&] { if (!leaving) return; settled(w, live.size()); leaving = 0; };
	auto unique = [&] { std::map<int, ClientP> used; for (auto &x : live) if (x.st == 2) { CHECK(c, !used.count(x.cl->slot), "clients %s and %s are both using external address %d", x.cl->call.c_str(), used[x.cl->slot]->call.c_str(), x.cl->slot); used[x.cl->slot] = x.cl; } };
	auto login = [&](Cl &x, const std::string &call) { w.greet(x.cl, call, cf.password); w.confirm_in(x.cl); w.learn_slot(x.cl, p); x.st = 2; logins++; unique(); };
	// a new connection: 1 challenged, 0 closed without a challenge
	auto outcome = [&](ClientP cl) -> bool {
		w.must([&] { return cl->ep->avail() >= 8 || cl->gone(); }, "a connection is either challenged or closed");
		if (cl->ep->avail() >= 8) { w.get_challenge(cl); return true; }
		CHECK(c, cl->ep->avail() == 0, "a refused connection received %s", hex(&cl->ep->rx[cl->ep->off], cl->ep->avail()).c_str());
		return false;
	};
	auto arrive = [&](int count) {
		std::vector<ClientP> nw; for (int i = 0; i < count; i++) nw.push_back(w.connect());
		int served = 0, atmost = n - (int)live.size(), atleast = std::max(0, std::min(count, n - (int)live.size() - leaving));
		for (auto &cl : nw) if (outcome(cl)) { served++; live.push_back({cl, 1, {}}); } else { overs++; w.leave(cl); }
		c.note("%d connection(s): %d served (capacity %d, busy before: %d, leaving: %d)", count, served, n, (int)live.size() - served, leaving);
		CHECK(c, served <= atmost, "%d connections are served at once, but only %d slots are configured", (int)live.size(), n);
		CHECK(c, served >= atleast, "only %d of %d new connections were served although at most %d of %d were in use", served, count, (int)live.size() - served + leaving, n);
		if (count > 1) bursts++;
	};
	int ops = 2 + c.draw(c.thorough ? 60 : 26);
	for (int i = 0; i < ops; i++) {
		std::vector<size_t> wait, in; for (size_t k = 0; k < live.size(); k++) (live[k].st == 1 ? wait : in).push_back(k);
		for (auto k : in) CHECK(c, !live[k].cl->gone(), "client %s was disconnected", live[k].cl->call.c_str());
		int op = c.weighted({6, 8, 5, 3, 3, 2, 2, 2, 3});
		if (op == 8) { // a client leaves while another, often of the same name, logs in
			if (in.empty() || wait.empty()) continue;
			size_t k = c.pick(wait), l = c.pick(in); auto call = c.chance(70) ? live[l].cl->call : c.pick(calls); races++; shim::Kind pk = c.pick(std::vector<shim::Kind>{shim::K_LOCK, shim::K_UNLOCK, shim::K_CLOSE, shim::K_WAIT, shim::K_FREE}); int nth = 1 + c.draw(60), us = 200 + c.draw(4000), lead = c.draw(2000);
			c.note("%s leaves and %s logs in %d us later (delay %d us at %s %d)", live[l].cl->call.c_str(), call.c_str(), lead, us, shim::kind_name[pk], nth); shim::perturb_at(pk, nth, us); w.leave(live[l].cl, c.chance(50)); leaving++; if (lead > 100) usleep(lead);
			Cl x = live[k]; live.erase(live.begin() + std::max(k, l)); live.erase(live.begin() + std::min(k, l)); live.push_back(x); login(live.back(), call); continue; }
		if (op == 0) arrive(1);
		else if (op == 6) arrive(2 + c.draw(n + 1));
		else if (op == 1) {
			if (wait.empty()) { if ((int)live.size() < n) { settle_all(); arrive(1); } continue; }
			int kind = c.weighted({10, 2, 2, 1}); size_t k = wait[c.draw(wait.size())];
			if (kind == 0) { auto call = c.pick(calls); c.note("%s logs in", call.c_str()); if (c.chance(50)) settle_all(); login(live[k], call); }
			else {
				refusals++; auto cl = live[k].cl; c.note("a client %s", kind == 1 ? "gives a wrong password" : kind == 2 ? "has a denied callsign" : "sends garbage");
				if (kind == 1) w.greet(cl, c.pick(calls), cf.password + "x"); else if (kind == 2) w.greet(cl, "BAD1", cf.password); else cl->send(std::string("GET / HTTP/1.0\r\n\r\nxxxxxxxx"));
				if (c.chance(60)) w.expect_gone(cl, "it was refused");
				live.erase(live.begin() + k); leaving++; w.leave(cl, c.chance(50));
			}
		} else if (op == 2) {
			if (in.empty()) continue;
			size_t k = in[c.draw(in.size())]; c.note("%s leaves", live[k].cl->call.c_str()); w.leave(live[k].cl, c.chance(50)); live.erase(live.begin() + k); leaving++;
		} else if (op == 3) {
			if (wait.empty()) continue;
			size_t k = wait[c.draw(wait.size())]; bool part = c.chance(50); c.note("a client leaves without %s", part ? "finishing its greeting" : "a greeting"); if (part) live[k].cl->send(std::string("W1A")); w.leave(live[k].cl, c.chance(50)); live.erase(live.begin() + k); leaving++;
		} else if (op == 4) { // all waiting clients log in at the same moment, some with the same callsign
			settle_all(); if (wait.size() < 2) continue; bursts++; std::string s;
			for (auto k : wait) { auto call = c.pick(calls); s += " " + call; live[k].cl->call = call; auto r = response_for(live[k].cl->digits, cf.password); live[k].fixed.assign(call.begin(), call.end()); live[k].fixed.push_back('\n'); live[k].fixed.insert(live[k].fixed.end(), r.begin(), r.end()); }
			c.note("log in at once:%s", s.c_str());
			for (auto k : wait) live[k].cl->send(live[k].fixed);
			for (auto k : wait) { w.confirm_in(live[k].cl); live[k].st = 2; logins++; }
			for (auto k : wait) w.learn_slot(live[k].cl, p);
			unique();
		} else if (op == 7) { // the external port cannot be had for this login
			if (wait.empty()) continue;
			size_t k = wait[c.draw(wait.size())]; auto cl = live[k].cl; auto call = c.pick(calls); settle_all(); shim::Kind fk = c.chance(70) ? shim::K_BIND : shim::K_SOCKET; int nth = 1 + c.draw(2);
			c.note("%s logs in while %s %d fails", call.c_str(), shim::kind_name[fk], nth); shim::fault(fk, nth, fk == shim::K_BIND ? EADDRINUSE : EMFILE); w.greet(cl, call, cf.password);
			w.expect_gone(cl, "its external port could not be opened"); CHECK(c, shim::fault_fired(), "a client was disconnected although its ports could be opened"); shim::fault_clear(); CHECK(c, cl->ep->avail() == 0, "a client without a slot received %s", hex(&cl->ep->rx[cl->ep->off], cl->ep->avail()).c_str());
			live.erase(live.begin() + k); leaving++; w.leave(cl, c.chance(50)); failed++;
		} else if (op == 5) {
			if (in.empty()) continue;
			auto &x = live[in[c.draw(in.size())]]; int s = x.cl->slot; w.learn_slot(x.cl, p); CHECK(c, s == x.cl->slot, "the external address of %s changed", x.cl->call.c_str());
		}
		if (c.chance(25)) settle_all();
	}
	c.note("everybody leaves"); bool abrupt = c.chance(50);
	while (!live.empty()) { w.leave(live.back().cl, abrupt); live.pop_back(); leaving++; }
	settle_all(); p->ctl->dg.clear();
	if (!wide) arrive(n); else for (int i = 0; i < n; i++) arrive(1);
	for (auto &x : live) login(x, c.pick(calls));
	arrive(1);
	for (auto &x : live) { int s = x.cl->slot; w.learn_slot(x.cl, p); CHECK(c, s == x.cl->slot, "the external address of %s changed", x.cl->call.c_str()); }
	CHECK(c, w.acc_errs == 0, "proxy_process failed %ld times (%d last) while serving", w.acc_errs.load(), w.acc_err.load());
	if (logins > n && (overs > 1 || refusals)) c.nontrivial(); if (bursts) c.label("simultaneous"); if (refusals) c.label("refused clients"); if (races) c.label("leave races with login"); if (failed) c.label("port not available"); if (overs > 1) c.label("over capacity");
	w.down();
}
// while the session's thread is busy with the remote host it does not notice that its client has left
static bool slot_held(World &w, ClientP cl) { w.leave(cl, true); bool got = false; for (int i = 0; i < 8 && !got; i++) { w.wait([] { return false; }, 0.25); auto x = w.connect(); w.wait([&] { return x->ep->avail() >= 8 || x->gone(); }, 3); got = x->ep->avail() >= 8; w.leave(x); } return !got; }
static bool left_while_connecting(Case &c) { World w(c); Conf cf; w.up(cf); auto cl = w.login("K1ABC"); Hole h = blackhole(c, 77); cl->send(enc(TCP_OPEN, shim::ip(2, 77), {})); w.quiesce(0.5); bool held = slot_held(w, cl); w.down(); close_hole(h); return held; }
static bool left_while_sending(Case &c) {
	World w(c); Conf cf; w.up(cf); auto p = w.peer(1); auto cl = w.login("K1ABC"); cl->send(enc(TCP_OPEN, p->ip, {})); w.must([&] { return !p->conns.empty(); }, "connection"); w.next(cl, "status"); p->conns[0]->paused = true; Bytes b = enc(TCP_DATA, 0, c.blob(60000));
	for (int i = 0; i < 600 && cl->try_send(b.data(), b.size()); i++); w.quiesce(0.5); bool held = slot_held(w, cl); p->conns[0]->paused = false; p->conns[0]->shut(); w.down(); return held;
}
Property the_property = {"C08",
	"A case is a history over 1-5 slots (every 280th case: 17 to 300) of single and simultaneous connections, logins (also simultaneous, with few and colliding callsigns), wrong passwords, denied callsigns, garbage, silent and half-greeting clients, logins whose external port cannot be opened, and leaves (reset or orderly), with perturbed schedules. Oracle: number of served connections against the model (exact when settled, an interval while clients are leaving), external addresses of current sessions pairwise different and constant, refused connections closed without a byte, finally n clients in at once and one more refused. Non-trivial: more logins than slots and something refused.",
	world_process_init, run, 3500, 300000, 60, {}, {{"left-while-connecting", "a client that leaves while its TCP_OPEN is still connecting to a host that does not answer keeps its slot until that connect ends", left_while_connecting},
	{"left-while-sending", "a client that leaves while its TCP_DATA waits for a remote host that does not read keeps its slot until that host reads or ends", left_while_sending}}};
