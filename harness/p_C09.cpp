// C09: returning callsigns get their slot back, others the oldest idle
#include "common.hpp"
static void run(Case &c) {
	World w(c); Conf cf; cf.slots = c.chance(4) ? 8 + c.draw(40) : 1 + c.draw(7); int n = cf.slots; cf.denied = "^BAD"; cf.vary(c);
	gen_perturb(c, 15, 300);
	std::vector<std::string> calls; int nk = 2 + c.draw(2 * n + 3);
	for (int i = 0; i < nk; i++) switch (c.draw(6)) {
		case 0: calls.push_back(gen_callsign(c)); break;
		case 1: { std::string s = calls.empty() ? "W1AW" : c.pick(calls); if (c.chance(50) && s.size() < 10) s += c.pick(std::vector<std::string>{"L", "-", "1", " "}); else if (!s.empty()) { if (c.chance(50)) s.pop_back(); else s[c.draw(s.size())] ^= 0x20; } for (char &ch : s) if (ch == '\n' || !ch) ch = 'Q'; calls.push_back(s); break; }
		case 2: { auto &pr = c.pick(colliding_pairs()); calls.push_back(pr.first); calls.push_back(pr.second); break; }
		default: calls.push_back(c.pick(colliding_calls()));
		}
	for (auto &s : calls) if (!s.compare(0, 3, "BAD")) s[0] = 'C';
	struct Slot { std::string last; bool used = false; }; std::vector<Slot> slot; std::deque<int> idle; std::vector<ClientP> in;
	auto fresh = [&] { slot.assign(n, Slot()); idle.clear(); for (int i = 0; i < n; i++) idle.push_back(i); };
	PeerP p; int returns = 0, others = 0, evict = 0, collide = 0;
	w.up(cf); p = w.peer(1); fresh(); c.note("%d slots, %zu callsigns", n, calls.size());
	int ops = 3 + c.draw(c.thorough ? 120 : 50);
	for (int i = 0; i < ops; i++) {
		int op = c.weighted({10, 9, 2, 1, (unsigned)(i > 3 ? 1 : 0)});
		if (op == 0 && idle.empty()) op = 1; if (op == 1 && in.empty()) op = 0;
		if (op == 0) {
			std::string call = c.pick(calls); std::set<int> ok; for (int s : idle) if (slot[s].used && slot[s].last == call) ok.insert(s);
			bool ret = !ok.empty(); if (!ret) ok.insert(idle.front());
			auto cl = w.login(call); int s = w.learn_slot(cl, p);
			std::string st; for (int k : idle) st += strf(" %d:%s", k, slot[k].used ? quoted(slot[k].last).c_str() : "-");
			c.note("%s logs in: slot %d (idle, oldest first:%s)", quoted(call).c_str(), s, st.c_str());
			CHECK(c, ok.count(s), "client %s was given slot %d, must be %s%d; idle slots, oldest first, with their last callsign:%s", quoted(call).c_str(), s, ret ? "its former slot " : "the oldest idle slot ", *ok.begin(), st.c_str());
			idle.erase(std::find(idle.begin(), idle.end(), s)); if (ret && *ok.begin() != (int)idle.front()) returns++; else others++; if (!ret && slot[s].used) evict++;
			slot[s].used = true; slot[s].last = call; in.push_back(cl);
		} else if (op == 1) {
			size_t k = c.draw(in.size()); auto cl = in[k]; int how = c.weighted({6, 1, 1, 1, 1, 1});
			static const char *HOW[] = {"", " after TCP_CLOSE", " with a connection open", " after a connection", " in the middle of a message", " with an unknown message"}; c.note("%s leaves slot %d%s", quoted(cl->call).c_str(), cl->slot, HOW[how]);
			if (how == 2 || how == 3) { size_t had = p->conns.size(); cl->send(enc(TCP_OPEN, p->ip, {})); auto m = w.next(cl, "the status of a connection"); CHECK(c, m.type == TCP_STATUS, "the answer to TCP_OPEN is %s", show(m).c_str()); w.must([&] { return p->conns.size() > had; }, "the connection reaches the remote host"); if (how == 3) { cl->send(enc(TCP_CLOSE, 0, {})); m = w.next(cl, "TCP_CLOSE"); CHECK(c, m.type == TCP_CLOSE, "the answer to TCP_CLOSE is %s", show(m).c_str()); } }
			else if (how == 1) { cl->send(enc(TCP_CLOSE, 0, {})); int s = cl->slot; w.learn_slot(cl, p); CHECK(c, s == cl->slot, "the external address of %s changed", cl->call.c_str()); } // has been processed
			else if (how == 4) { Bytes m = enc(c.chance(50) ? UDP_DATA : TCP_DATA, p->ip, Bytes{1, 2, 3, 4, 5}); m.resize(1 + c.draw(13)); cl->send(m); }
			else if (how == 5) { Bytes m = enc(UDP_DATA, p->ip, {}); m[0] = c.chance(50) ? 0 : 7 + c.draw(249); cl->send(m); if (c.chance(50)) w.expect_gone(cl, "it sent an unknown message"); } in.erase(in.begin() + k); idle.push_back(cl->slot); w.leave(cl, c.chance(50)); settled(w, in.size());
		} else if (op == 2) { if (idle.empty()) continue; // refused clients change nothing
			auto cl = w.connect(); w.get_challenge(cl); bool bad = c.chance(50); c.note("a client is refused"); w.greet(cl, bad ? "BAD1" : c.pick(calls), bad ? cf.password : cf.password + "q"); w.expect_gone(cl, "refused"); w.leave(cl); settled(w, in.size());
		} else if (op == 3) { auto cl = w.connect(); w.leave(cl); settled(w, in.size()); c.note("a client connects and leaves"); }
		else if (c.chance(30)) {
			c.note("the proxy is closed and opened again"); c.label("reopened"); w.close(); for (auto &x : in) w.leave(x); in.clear();
			int r = w.open(); CHECK(c, r >= 0, "proxy_open failed: %d", r); r = w.start(); CHECK(c, r >= 0, "proxy_start failed: %d", r); w.accept_loop(); fresh();
		}
	}
	if (returns && evict) c.nontrivial(); if (returns) c.label("returned to a former slot"); if (evict) c.label("slot passed to another callsign"); (void)collide;
	w.down();
}
Property the_property = {"C09",
	"A case is a sequence of up to 53 settled logins, leaves, refusals and reopenings over 1-7 (rarely up to 47) slots with a small pool of callsigns (many sharing the 8-bit hash, prefixes of each other, differing in case, empty, arbitrary bytes). Oracle: a model of the idle list and of each slot's last callsign; the slot is learnt from the source address of a datagram. Non-trivial: at least one return to a slot that is not the oldest and one slot passed to another callsign.",
	world_process_init, run, 4000, 200000, 60,
	{"which of several former slots a client gets is not specified", "closing the proxy forgets who used which slot"}};
