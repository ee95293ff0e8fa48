// A whole proxy in this process, driven through its public API, with clients,
// remote hosts and a registrar played by the harness on 127.B.x.y.
#pragma once
#include "core.hpp"
#include "shim.hpp"
#include <atomic>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>
extern "C" {
#include "openelp/openelp.h"
}

void md5(const void *p, size_t n, uint8_t out[16]);       // harness's own RFC 1321
std::string md5_hex_upper(const std::string &s);
std::string upper_ascii(std::string s);
std::array<uint8_t, 16> response_for(const std::string &digits, const std::string &password);
void world_process_init();                                // reserves B, once per process
std::string scratch_file(const std::string &name, const std::string &content);

static const double PATIENCE = 8.0; // seconds; only ever used to wait for something that must come

struct Dgram { uint32_t src_ip; uint16_t src_port; Bytes data; };

struct Ep { // one harness socket
	int fd = -1; bool dgram = false, listener = false, paused = false;
	Bytes rx; size_t off = 0;
	std::deque<Dgram> dg;
	bool eof = false; int err = 0;
	std::deque<int> pending; // accepted
	~Ep();
	void shut();             // close now (RST)
	void close_fin();        // orderly close
	size_t avail() const { return rx.size() - off; }
	bool gone() const { return eof || err; }
};

struct Msg { uint8_t type; uint32_t addr; Bytes data; };
std::string show(const Msg &m);
Bytes enc(uint8_t type, uint32_t addr, const Bytes &data);
Bytes enc_hdr(uint8_t type, uint32_t addr, uint32_t size);
enum { TCP_OPEN = 1, TCP_DATA, TCP_CLOSE, TCP_STATUS, UDP_DATA, UDP_CTL };

struct World;
struct Client {
	World &w; std::shared_ptr<Ep> ep; std::string digits, call; int k; bool in = false;
	std::deque<Msg> msgs;       // parsed, not yet consumed
	bool parsing = false;       // after login the stream must be messages
	int slot = -1;
	Client(World &w, int k) : w(w), k(k) {}
	void parse();               // moves complete messages from rx, fails the case on malformed ones
	bool gone() { return ep->gone(); }
	void send(const Bytes &b);  // whole, pumping meanwhile; a broken connection is tolerated
	void send(const std::string &s) { send(Bytes(s.begin(), s.end())); }
	bool try_send(const uint8_t *p, size_t n); // best effort, returns false if connection broke
};
typedef std::shared_ptr<Client> ClientP;

struct Peer { // a remote host 127.B.2.k
	int k; uint32_t ip; std::shared_ptr<Ep> data, ctl, lis;
	std::deque<std::shared_ptr<Ep>> conns;
};
typedef std::shared_ptr<Peer> PeerP;

struct Conf {
	std::string password = "secret";
	int port = 8100; int slots = 1;
	int listen_d = 1;           // listens on 127.B.0.listen_d
	int ext_off = 0;            // slot i sends from the address number ext_off + i + 1: 127.B.1.1-250, then 127.B.10.1-250 and so on
	static int ext_c(int k) { return k <= 250 ? 1 : 10 + (k - 251) / 250; } static int ext_d(int k) { return (k - 1) % 250 + 1; }
	std::string allowed, denied, reg_name, reg_comment, public_addr;
	bool have_comment = false;
	int any_listen = 0;         // 1: BindAddress is left out, 2: it is 0.0.0.0, 3: it is empty (the shim keeps wildcard sockets at 127.B.9.9)
	int any_ext = 0;            // the same for ExternalBindAddress (one slot only)
	void vary(Case &c, bool again = false) { any_listen = c.weighted({16, again ? 0u : 2u, 2, 1}); if (slots == 1) any_ext = c.weighted({6, again ? 0u : 2u, 2, 1}); if (any_listen || any_ext) c.label("%s%s%s", any_listen ? "no particular BindAddress" : "", any_listen && any_ext ? ", " : "", any_ext ? "no particular ExternalBindAddress" : ""); }
	uint32_t listen_ip() const { return any_listen ? shim::ip(9, 9) : shim::ip(0, listen_d); }
	std::string extra;          // verbatim lines
	std::string text() const;
};

struct World {
	Case &c;
	proxy_handle ph{};
	Conf conf;
	std::thread acceptor; std::atomic<bool> acc_stop{false}, acc_done{true};
	std::atomic<int> acc_err{0}; std::atomic<long> acc_errs{0};
	bool inited = false, opened = false;
	std::vector<std::shared_ptr<Ep>> eps;
	std::vector<ClientP> clients;
	std::map<int, PeerP> peers;
	bool parse_clients = true;
	std::function<void()> on_pump;          // played by the harness while it waits

	explicit World(Case &c);
	~World();

	// ---- proxy life cycle (each returns the API's result)
	int init();
	int load(const Conf &cf);
	int open();
	int start();
	void accept_loop();         // start the thread that calls proxy_process
	void up(const Conf &cf);    // all of the above, must succeed
	void shutdown();            // proxy_shutdown + acceptor gone
	void close();               // shutdown (if needed) + proxy_close, bounded
	void free();
	void down();                // close + free + drop all harness sockets

	// ---- waiting
	void pump();
	bool wait(const std::function<bool()> &pred, double secs = PATIENCE);
	void must(const std::function<bool()> &pred, const char *what, double secs = PATIENCE);
	bool quiesce(double secs = 6);
	void bounded(const char *what, double secs, const std::function<void()> &fn);

	// ---- actors
	std::shared_ptr<Ep> add(int fd, bool dgram, bool listener);
	ClientP connect(int k = -1);            // TCP connection only
	void get_challenge(ClientP &cl);        // the 8 digits
	ClientP login(const std::string &call, int k = -1); // full, must be admitted
	void greet(ClientP &cl, const std::string &call, const std::string &pw); // sends the right answer
	void confirm_in(ClientP &cl);           // proves that the session is up (barrier through the proxy)
	void barrier(ClientP &cl);              // everything the client sent before has been processed
	PeerP peer(int k, bool tcp = true);
	bool settle(ClientP &cl);               // after it left: proxy has let go of it
	void leave(ClientP &cl, bool rst = true);
	Msg next(ClientP &cl, const char *why); // next message, must come
	void expect_none(ClientP &cl, const char *why); // after quiesce
	void expect_gone(ClientP &cl, const char *why);
	void drop_client(ClientP &cl);          // forget harness side
	int slot_ip_index(uint32_t ip);         // the slot with that external address, or -1
	int learn_slot(ClientP &cl, PeerP &p);  // sends a datagram and looks where it came from
	uint32_t slot_ip(int s) { if (conf.any_ext && s == 0) return shim::ip(9, 9); int k = conf.ext_off + s + 1; return shim::ip(Conf::ext_c(k), Conf::ext_d(k)); }
};
int tcp_socket_from(uint32_t ip);
