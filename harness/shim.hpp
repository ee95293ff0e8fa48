// Routes the libc calls made by the code under test (objcopy renames them to
// vp_*), so that a case can see every resource it holds, inject failures and
// short transfers, perturb the schedule, and keep all traffic on loopback.
#pragma once
#include <atomic>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
#include <arpa/inet.h>
#include <netinet/in.h>

namespace shim {

// call kinds, used for faults and for schedule perturbation
enum Kind {
	K_ALLOC, K_SOCKET, K_SETSOCKOPT, K_BIND, K_LISTEN, K_ACCEPT, K_CONNECT, K_GETADDRINFO,
	K_SEND, K_RECV, K_CLOSE, K_SHUTDOWN, K_THREAD, K_MUTEXINIT, K_CONDINIT, K_FOPEN,
	K_LOCK, K_UNLOCK, K_WAIT, K_SIGNAL, K_JOIN, K_REGEX, K_LOG, K_ATTR, K_FREE, K_NKINDS
};
extern const char *kind_name[K_NKINDS];

void reset();                       // forget all settings and counters (not the ledger)

// ---- ledger
struct Res { long fds, threads, blocks, files, regexes, addrinfos; };
Res res();
std::string res_str(const Res &);
bool res_eq(const Res &, const Res &);
long bad_closes();                  // closes of descriptors the code does not own
long threads_running();
std::string describe_open();        // for failure messages
bool fd_owned(int fd);
std::vector<int> owned_fds();
void ledger_forget();               // start from an empty ledger
uint64_t accepted_total();
uint64_t accepted_closed();
extern std::atomic<uint64_t> events;
extern std::atomic<int> delays_active;

// ---- faults: fail the nth call (1-based) of a kind made from now on
void fault(Kind k, long nth, int err = 0);
void fault_clear();
bool fault_fired();
void count_reset();                 // restart occurrence counters
long count(Kind k);

// ---- short transfers on TCP
void short_send(unsigned percent, uint64_t seed, size_t max = 0);  // max: cap of bytes accepted
void short_recv(unsigned percent, uint64_t seed, size_t max = 0);

// ---- schedule
void perturb(uint64_t kindmask, unsigned per1024, unsigned max_us, uint64_t seed);
void perturb_at(Kind k, long nth, unsigned us); // one targeted delay at the nth call of the kind from now
void perturb_off();

// ---- network containment
extern int base;                    // B of 127.B.x.y
extern std::atomic<bool> allow_v6;  // sockets on ::1 are possible
uint32_t ip(int c, int d);          // 127.B.c.d in network order
std::string ips(int c, int d);
struct Outside { uint32_t local_ip, dst_ip; uint16_t local_port, dst_port; std::vector<uint8_t> data; bool tcp; };
std::vector<Outside> take_outside();
void redirect(uint32_t from, uint32_t to); // TCP connections to the foreign host 'from' are recorded and reach 'to' (from 0: no more)
void registrar_addr(int c, int d);  // where www.echolink.org leads
std::vector<std::string> take_lookups();
void refuse_send(uint32_t dst_ip, int err); // sending to this address fails (also on a connection to it)

// ---- values
void force_rand(const std::vector<uint32_t> &v);
void regex_error(int err);          // pcre2_match returns this while non-zero
struct TimedWait { double seconds; };
void long_wait_ms(long ms);         // timed waits longer than 60 s last this long instead (0: unchanged)
void socket_timeouts_div(int n);    // SO_RCVTIMEO / SO_SNDTIMEO last this much shorter
std::vector<double> take_timed_waits();
std::atomic<bool> &block_connect(); // registrar connect blocks while set

struct LogCall { int prio; std::string text; };
std::vector<LogCall> take_syslog();
int syslog_opens(); int syslog_closes(); bool syslog_open(); void syslog_forget();
}
