#include "shim.hpp"
#include "core.hpp"
#include "sched.hpp"
#include <sys/time.h>
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <mutex>
#include <netdb.h>
#include <poll.h>
#include <pthread.h>
#include <set>
#include <sys/socket.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <syslog.h>
#include <unistd.h>
#include <unordered_map>
#define PCRE2_CODE_UNIT_WIDTH 8
#include <pcre2.h>

namespace shim {
const char *kind_name[K_NKINDS] = {"alloc", "socket", "setsockopt", "bind", "listen", "accept", "connect", "getaddrinfo", "send", "recv", "close", "shutdown", "thread", "mutexinit", "condinit", "fopen", "lock", "unlock", "wait", "signal", "join", "regex", "log", "attr", "free"};
std::atomic<uint64_t> events{0};
std::atomic<int> delays_active{0};
int base;
static std::mutex L;
struct FdInfo { bool tcp, accepted; };
static std::map<int, FdInfo> fds;
static std::unordered_map<void *, size_t> blocks;
static std::set<void *> files, regexes, addrinfos;
static std::set<pthread_t> threads;
static std::atomic<long> running{0};
static long badcloses;
static std::atomic<uint64_t> acc_total{0}, acc_closed{0};
static std::atomic<long> counts[K_NKINDS];
struct Fault { Kind k; long nth; int err; };
static std::vector<Fault> faults;
static std::atomic<bool> faults_on{false};
static std::atomic<bool> fired{false};
static std::atomic<unsigned> ss_pc{0}, sr_pc{0}; static std::atomic<uint64_t> ss_seed{0}, sr_seed{0}, ss_n{0}, sr_n{0}; static std::atomic<size_t> ss_max{0}, sr_max{0};
static std::atomic<uint64_t> p_mask{0}, p_seed{0}, p_n{0}; static std::atomic<unsigned> p_prob{0}, p_us{0};
static std::atomic<int> pa_kind{-1}; static std::atomic<long> pa_at{0}; static std::atomic<unsigned> pa_us{0};
static std::vector<Outside> outside; static std::map<uint32_t, uint32_t> redir;
static std::vector<std::string> lookups;
static int reg_c = 4, reg_d = 1; static std::atomic<int> tmo_div{1};
static std::map<uint32_t, int> refuse; static std::atomic<bool> refusing{false};
static std::vector<uint32_t> forced; static size_t forced_pos;
static std::atomic<int> re_err{0};
static std::atomic<long> lw_ms{0};
static std::vector<double> timed;
static std::atomic<bool> blockc{false};
static std::vector<LogCall> slog; static int slo, slc; static bool slopen;

void reset() {
	std::lock_guard<std::mutex> g(L);
	faults.clear(); faults_on = false; fired = false; for (auto &c : counts) c = 0;
	ss_pc = sr_pc = 0; ss_max = sr_max = 0; p_mask = 0; p_prob = 0; pa_kind = -1; outside.clear(); redir.clear(); lookups.clear(); refuse.clear(); refusing = false; forced.clear(); forced_pos = 0;
	re_err = 0; lw_ms = 0; tmo_div = 1; timed.clear(); blockc = false; slog.clear(); slo = slc = 0; badcloses = 0; reg_c = 4; reg_d = 1;
}
Res res() { std::lock_guard<std::mutex> g(L); return Res{(long)fds.size(), (long)threads.size(), (long)blocks.size(), (long)files.size(), (long)regexes.size(), (long)addrinfos.size()}; }
std::string res_str(const Res &r) { return strf("descriptors=%ld threads=%ld blocks=%ld files=%ld regexes=%ld addrinfos=%ld", r.fds, r.threads, r.blocks, r.files, r.regexes, r.addrinfos); }
bool res_eq(const Res &a, const Res &b) { return a.fds == b.fds && a.threads == b.threads && a.blocks == b.blocks && a.files == b.files && a.regexes == b.regexes && a.addrinfos == b.addrinfos; }
long bad_closes() { std::lock_guard<std::mutex> g(L); return badcloses; }
long threads_running() { return running; }
std::string describe_open() {
	std::lock_guard<std::mutex> g(L); std::string s;
	for (auto &f : fds) {
		sockaddr_in a{}, b{}; socklen_t n = sizeof a, m = sizeof b; getsockname(f.first, (sockaddr *)&a, &n); bool peer = getpeername(f.first, (sockaddr *)&b, &m) == 0;
		s += strf("fd %d %s%s local %s:%d", f.first, f.second.tcp ? "tcp" : "udp", f.second.accepted ? " accepted" : "", inet_ntoa(a.sin_addr), ntohs(a.sin_port));
		if (peer) s += strf(" peer %s:%d", inet_ntoa(b.sin_addr), ntohs(b.sin_port));
		s += "; ";
	}
	std::map<size_t, int> sz; for (auto &b : blocks) sz[b.second]++;
	s += "block sizes:"; for (auto &z : sz) s += strf(" %zux%d", z.first, z.second);
	return s;
}
bool fd_owned(int fd) { std::lock_guard<std::mutex> g(L); return fds.count(fd); }
std::vector<int> owned_fds() { std::lock_guard<std::mutex> g(L); std::vector<int> v; for (auto &f : fds) v.push_back(f.first); return v; }
void ledger_forget() { std::lock_guard<std::mutex> g(L); fds.clear(); blocks.clear(); files.clear(); regexes.clear(); addrinfos.clear(); threads.clear(); acc_total = 0; acc_closed = 0; }
uint64_t accepted_total() { return acc_total; }
uint64_t accepted_closed() { return acc_closed; }
void fault(Kind k, long nth, int err) { std::lock_guard<std::mutex> g(L); faults.push_back({k, counts[k] + nth, err}); faults_on = true; fired = false; }
void fault_clear() { std::lock_guard<std::mutex> g(L); faults.clear(); faults_on = false; }
bool fault_fired() { return fired; }
void count_reset() { for (auto &c : counts) c = 0; }
long count(Kind k) { return counts[k]; }
std::atomic<bool> allow_v6{false};
void short_send(unsigned pc, uint64_t seed, size_t mx) { ss_seed = seed; ss_n = 0; ss_max = mx; ss_pc = pc; }
void short_recv(unsigned pc, uint64_t seed, size_t mx) { sr_seed = seed; sr_n = 0; sr_max = mx; sr_pc = pc; }
void perturb(uint64_t m, unsigned pr, unsigned us, uint64_t seed) { p_seed = seed; p_n = 0; p_us = us; p_prob = pr; p_mask = m; }
void perturb_at(Kind k, long nth, unsigned us) { pa_us = us; pa_at = counts[k] + nth; pa_kind = k; }
void perturb_off() { p_mask = 0; pa_kind = -1; }
uint32_t ip(int c, int d) { return htonl((127u << 24) | (base << 16) | (c << 8) | d); }
std::string ips(int c, int d) { return strf("127.%d.%d.%d", base, c, d); }
std::vector<Outside> take_outside() { std::lock_guard<std::mutex> g(L); auto v = outside; outside.clear(); return v; }
void redirect(uint32_t from, uint32_t to) { std::lock_guard<std::mutex> g(L); if (from) redir[from] = to; else redir.clear(); }
void registrar_addr(int c, int d) { reg_c = c; reg_d = d; }
std::vector<std::string> take_lookups() { std::lock_guard<std::mutex> g(L); auto v = lookups; lookups.clear(); return v; }
void refuse_send(uint32_t d, int err) { std::lock_guard<std::mutex> g(L); if (err) refuse[d] = err; else refuse.erase(d); refusing = !refuse.empty(); fired = false; }
void force_rand(const std::vector<uint32_t> &v) { std::lock_guard<std::mutex> g(L); forced = v; forced_pos = 0; }
void regex_error(int e) { re_err = e; }
void socket_timeouts_div(int n) { tmo_div = n; }
void long_wait_ms(long ms) { lw_ms = ms; }
std::vector<double> take_timed_waits() { std::lock_guard<std::mutex> g(L); auto v = timed; timed.clear(); return v; }
std::atomic<bool> &block_connect() { return blockc; }
std::vector<LogCall> take_syslog() { std::lock_guard<std::mutex> g(L); auto v = slog; slog.clear(); return v; }
int syslog_opens() { std::lock_guard<std::mutex> g(L); return slo; }
int syslog_closes() { std::lock_guard<std::mutex> g(L); return slc; }
bool syslog_open() { std::lock_guard<std::mutex> g(L); return slopen; }
void syslog_forget() { std::lock_guard<std::mutex> g(L); slopen = false; slog.clear(); }

static void nap(unsigned us) { delays_active++; usleep(us); delays_active--; events++; }
// entry point of every shimmed call; true = this call must fail with *err
static bool enter(Kind k, int *err = nullptr) {
	events.fetch_add(1, std::memory_order_relaxed);
	long n = ++counts[k];
	if (pa_kind == k && n == pa_at) { nap(pa_us); }
	if (p_mask.load(std::memory_order_relaxed) >> k & 1) {
		uint64_t h = mix64(p_seed ^ mix64(p_n++));
		if ((h & 1023) < p_prob) nap(p_us ? (unsigned)((h >> 12) % p_us) : 0); else if ((h >> 50 & 7) == 0) sched_yield();
	}
	if (faults_on.load(std::memory_order_relaxed)) {
		std::lock_guard<std::mutex> g(L);
		for (auto &f : faults) if (f.k == k && f.nth == n) { fired = true; if (err && f.err) *err = f.err; return true; }
	}
	return false;
}
static void leave(Kind k) {
	events.fetch_add(1, std::memory_order_relaxed);
	if (p_mask.load(std::memory_order_relaxed) >> (k + 32) & 1) {
		uint64_t h = mix64(p_seed ^ mix64(p_n++));
		if ((h & 1023) < p_prob) nap(p_us ? (unsigned)((h >> 12) % p_us) : 0);
	}
}
static bool is_tcp(int fd) { std::lock_guard<std::mutex> g(L); auto i = fds.find(fd); return i != fds.end() && i->second.tcp; }
static bool inside(const sockaddr *sa) {
	if (!sa || sa->sa_family != AF_INET) return !sa;
	return (ntohl(((const sockaddr_in *)sa)->sin_addr.s_addr) >> 16) == (127u << 8 | (unsigned)base);
}
static void add_block(void *p, size_t n) { if (p) { std::lock_guard<std::mutex> g(L); blocks[p] = n; } }
static void record_outside(int fd, const sockaddr *sa, const void *b, size_t n, bool tcp) {
	sockaddr_in l{}; socklen_t ll = sizeof l; getsockname(fd, (sockaddr *)&l, &ll);
	const sockaddr_in *d = (const sockaddr_in *)sa;
	Outside o{l.sin_addr.s_addr, d->sin_addr.s_addr, ntohs(l.sin_port), ntohs(d->sin_port), {}, tcp};
	if (b) o.data.assign((const uint8_t *)b, (const uint8_t *)b + n);
	std::lock_guard<std::mutex> g(L); outside.push_back(o);
}
struct Tramp { void *(*fn)(void *); void *arg; };
static void *tramp(void *p) { Tramp t = *(Tramp *)p; delete (Tramp *)p; void *r = t.fn(t.arg); running--; events++; return r; }
static size_t cut(size_t n, std::atomic<unsigned> &pc, std::atomic<uint64_t> &seed, std::atomic<uint64_t> &ctr, std::atomic<size_t> &mx) {
	unsigned p = pc; if (!p || n <= 1) return n;
	uint64_t h = mix64(seed ^ mix64(ctr++));
	if (h % 100 >= p) return n;
	size_t lim = mx && mx < n ? mx.load() : n - 1;
	return 1 + (h >> 20) % lim;
}
} // namespace shim
using namespace shim;

extern "C" {
void *vp_malloc(size_t n) { if (enter(K_ALLOC)) { errno = ENOMEM; return nullptr; } void *p = malloc(n); add_block(p, n); return p; }
void *vp_calloc(size_t a, size_t b) { if (enter(K_ALLOC)) { errno = ENOMEM; return nullptr; } void *p = calloc(a, b); add_block(p, a * b); return p; }
void *vp_realloc(void *o, size_t n) {
	if (enter(K_ALLOC)) { errno = ENOMEM; return nullptr; }
	{ std::lock_guard<std::mutex> g(L); blocks.erase(o); }
	void *p = realloc(o, n); add_block(p, n); return p;
}
void *vp_reallocarray(void *o, size_t a, size_t b) { return vp_realloc(o, a * b); }
char *vp_strdup(const char *s) { if (enter(K_ALLOC)) { errno = ENOMEM; return nullptr; } char *p = strdup(s); add_block(p, strlen(s) + 1); return p; }
char *vp_strndup(const char *s, size_t n) { if (enter(K_ALLOC)) { errno = ENOMEM; return nullptr; } char *p = strndup(s, n); add_block(p, n + 1); return p; }
void vp_free(void *p) { if (!p) return; enter(K_FREE); { std::lock_guard<std::mutex> g(L); blocks.erase(p); } free(p); }

int vp_socket(int d, int t, int pr) {
	int e = EMFILE; if (enter(K_SOCKET, &e)) { errno = e; return -1; }
	std::unique_lock<std::mutex> g(L);
	int fd = socket(d, t | SOCK_CLOEXEC, pr);
	if (fd >= 0) fds[fd] = {(t & 0xf) == SOCK_STREAM, false};
	return fd;
}
int vp_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { int e = ENOBUFS; if (enter(K_SETSOCKOPT, &e)) { errno = e; return -1; }
	if (l == SOL_SOCKET && (o == SO_RCVTIMEO || o == SO_SNDTIMEO) && tmo_div > 1 && n == sizeof(timeval)) { timeval t = *(const timeval *)v; int64_t us = (t.tv_sec * 1000000LL + t.tv_usec); if (us) us = std::max<int64_t>(1000, us / tmo_div); t.tv_sec = us / 1000000; t.tv_usec = us % 1000000; return setsockopt(fd, l, o, &t, n); }
	return setsockopt(fd, l, o, v, n); }
int vp_bind(int fd, const struct sockaddr *sa, socklen_t n) {
	int e = EADDRINUSE; if (enter(K_BIND, &e)) { errno = e; return -1; }
	if (sa->sa_family == AF_INET && n >= sizeof(sockaddr_in)) {
		sockaddr_in a = *(const sockaddr_in *)sa;
		if (a.sin_addr.s_addr == INADDR_ANY) a.sin_addr.s_addr = ip(9, 9); // keep wildcard sockets in this process's block
		int r = bind(fd, (sockaddr *)&a, sizeof a); leave(K_BIND); return r;
	}
	if (sa->sa_family == AF_INET6 && allow_v6 && (IN6_IS_ADDR_LOOPBACK(&((const sockaddr_in6 *)sa)->sin6_addr) || IN6_IS_ADDR_UNSPECIFIED(&((const sockaddr_in6 *)sa)->sin6_addr))) { int r = bind(fd, sa, n); leave(K_BIND); return r; }
	if (sa->sa_family == AF_INET6) { errno = EADDRNOTAVAIL; return -1; }
	return bind(fd, sa, n);
}
int vp_listen(int fd, int b) { int e = EADDRINUSE; if (enter(K_LISTEN, &e)) { errno = e; return -1; } int r = listen(fd, b); leave(K_LISTEN); return r; }
int vp_accept4(int fd, struct sockaddr *sa, socklen_t *n, int fl) {
	int e = EMFILE;
	int r = -1;
	if (enter(K_ACCEPT, &e)) {
		// fail only once a connection is there, and take it off the queue, as a
		// failing accept that consumes the connection would
		r = accept4(fd, nullptr, nullptr, SOCK_CLOEXEC); if (r >= 0) { close(r); acc_total++; acc_closed++; errno = e; } return -1;
	}
	// block outside the lock; register under it
	r = accept4(fd, sa, n, fl | SOCK_CLOEXEC);
	if (r >= 0) { std::lock_guard<std::mutex> g(L); fds[r] = {true, true}; acc_total++; }
	leave(K_ACCEPT);
	return r;
}
int vp_accept(int fd, struct sockaddr *sa, socklen_t *n) { return vp_accept4(fd, sa, n, 0); }
int vp_connect(int fd, const struct sockaddr *sa, socklen_t n) {
	int e = ECONNREFUSED; if (enter(K_CONNECT, &e)) { errno = e; return -1; }
	sockaddr_in to;
	if (!inside(sa)) {
		record_outside(fd, sa, nullptr, 0, true); uint32_t ip = 0;
		if (sa->sa_family == AF_INET) { std::lock_guard<std::mutex> g(L); auto i = redir.find(((const sockaddr_in *)sa)->sin_addr.s_addr); if (i != redir.end()) ip = i->second; }
		if (!ip) { leave(K_CONNECT); errno = ENETUNREACH; return -1; }
		to = *(const sockaddr_in *)sa; to.sin_addr.s_addr = ip; sa = (const sockaddr *)&to;
	}
	int r = connect(fd, sa, n); int se = errno; leave(K_CONNECT); errno = se; return r;
}
int vp_close(int fd) {
	enter(K_CLOSE);
	int r;
	{
		std::lock_guard<std::mutex> g(L);
		auto i = fds.find(fd);
		if (i == fds.end()) { if (fd >= 0) badcloses++; errno = EBADF; return -1; }
		bool acc = i->second.accepted; fds.erase(i);
		r = close(fd);
		if (acc) acc_closed++;
	}
	leave(K_CLOSE);
	return r;
}
int vp_shutdown(int fd, int how) { enter(K_SHUTDOWN); int r = shutdown(fd, how); leave(K_SHUTDOWN); return r; }
ssize_t vp_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *sa, socklen_t sl) {
	int e = ENOBUFS; if (enter(K_SEND, &e)) { errno = e; return -1; }
	if (sa) {
		{ std::lock_guard<std::mutex> g(L); auto i = refuse.find(((const sockaddr_in *)sa)->sin_addr.s_addr); if (sa->sa_family == AF_INET && i != refuse.end()) { errno = i->second; return -1; } }
		if (!inside(sa)) { record_outside(fd, sa, b, n, false); return (ssize_t)n; }
	}
	if (!sa && refusing) { sockaddr_in p{}; socklen_t pl = sizeof p; std::lock_guard<std::mutex> g(L); if (getpeername(fd, (sockaddr *)&p, &pl) == 0 && p.sin_family == AF_INET) { auto i = refuse.find(p.sin_addr.s_addr); if (i != refuse.end()) { fired = true; errno = i->second; return -1; } } }
	if (ss_pc && is_tcp(fd)) n = cut(n, ss_pc, ss_seed, ss_n, ss_max);
	ssize_t r = sendto(fd, b, n, fl, sa, sl); int se = errno; leave(K_SEND); errno = se; return r;
}
ssize_t vp_send(int fd, const void *b, size_t n, int fl) { return vp_sendto(fd, b, n, fl, nullptr, 0); }
static ssize_t gather(int fd, const struct iovec *v, int c, int fl, const sockaddr *sa, socklen_t sl) {
	std::vector<uint8_t> t; for (int i = 0; i < c; i++) t.insert(t.end(), (uint8_t *)v[i].iov_base, (uint8_t *)v[i].iov_base + v[i].iov_len);
	return vp_sendto(fd, t.data(), t.size(), fl, sa, sl);
}
ssize_t vp_sendmsg(int fd, const struct msghdr *m, int fl) { return gather(fd, m->msg_iov, m->msg_iovlen, fl, (sockaddr *)m->msg_name, m->msg_namelen); }
ssize_t vp_write(int fd, const void *b, size_t n) { if (!fd_owned(fd)) return write(fd, b, n); return vp_sendto(fd, b, n, 0, nullptr, 0); }
ssize_t vp_writev(int fd, const struct iovec *v, int c) { if (!fd_owned(fd)) return writev(fd, v, c); return gather(fd, v, c, 0, nullptr, 0); }
ssize_t vp_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *sa, socklen_t *sl) {
	int e = ENOBUFS; if (enter(K_RECV, &e)) { errno = e; return -1; }
	if (sr_pc && is_tcp(fd) && !(fl & MSG_WAITALL)) n = cut(n, sr_pc, sr_seed, sr_n, sr_max);
	ssize_t r = recvfrom(fd, b, n, fl, sa, sl); int se = errno; leave(K_RECV); errno = se; return r;
}
ssize_t vp_recv(int fd, void *b, size_t n, int fl) { return vp_recvfrom(fd, b, n, fl, nullptr, nullptr); }
ssize_t vp_read(int fd, void *b, size_t n) { if (!fd_owned(fd)) return read(fd, b, n); return vp_recvfrom(fd, b, n, 0, nullptr, nullptr); }
ssize_t vp_recvmsg(int fd, struct msghdr *m, int fl) {
	int e = ENOBUFS; if (enter(K_RECV, &e)) { errno = e; return -1; }
	ssize_t r = recvmsg(fd, m, fl); int se = errno; leave(K_RECV); errno = se; return r;
}
int vp_getaddrinfo(const char *node, const char *svc, const struct addrinfo *h, struct addrinfo **res) {
	if (enter(K_GETADDRINFO)) return EAI_AGAIN;
	std::string nd = node ? node : "";
	struct addrinfo hh{}; if (h) hh = *h;
	if (node && (nd == "www.echolink.org" || nd == "www.echolink.org.")) {
		{ std::lock_guard<std::mutex> g(L); lookups.push_back(nd); }
		nd = ips(reg_c, reg_d); node = nd.c_str();
	} else if (node && nd != "localhost") {
		bool numeric = nd.find_first_not_of("0123456789.") == std::string::npos || nd.find(':') != std::string::npos;
		if (!numeric) { std::lock_guard<std::mutex> g(L); lookups.push_back(nd); }
		hh.ai_flags |= AI_NUMERICHOST;
	}
	if (!node) hh.ai_family = AF_INET; // wildcard: keep to IPv4, see vp_bind
	int r = getaddrinfo(node, svc, &hh, res);
	if (r == 0) { std::lock_guard<std::mutex> g(L); addrinfos.insert(*res); }
	leave(K_GETADDRINFO);
	return r;
}
void vp_freeaddrinfo(struct addrinfo *a) { { std::lock_guard<std::mutex> g(L); addrinfos.erase(a); } freeaddrinfo(a); }

FILE *vp_fopen(const char *p, const char *m) { int e = EMFILE; if (enter(K_FOPEN, &e)) { errno = e; return nullptr; } FILE *f = fopen(p, m); int se = errno; if (f) { std::lock_guard<std::mutex> g(L); files.insert(f); } errno = se; return f; }
int vp_fclose(FILE *f) { enter(K_CLOSE); { std::lock_guard<std::mutex> g(L); files.erase(f); } int r = fclose(f); leave(K_CLOSE); return r; }

int vp_rand(void) { std::lock_guard<std::mutex> g(L); if (forced_pos < forced.size()) return (int)forced[forced_pos++]; return rand(); }
long vp_random(void) { std::lock_guard<std::mutex> g(L); if (forced_pos < forced.size()) return (long)forced[forced_pos++]; return random(); }

int vp_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
	int e = EAGAIN; if (enter(K_THREAD, &e)) return e;
	if (sched::active()) return sched::thread_create(fn, arg, t);
	pthread_attr_t at; size_t sz = 0; pthread_attr_init(&at);
	if (a && pthread_attr_getstacksize(a, &sz) == 0 && sz) pthread_attr_setstacksize(&at, sz < (1u << 20) ? (1u << 20) : sz); // sanitizers need room
	running++;
	std::lock_guard<std::mutex> g(L);
	int r = pthread_create(t, &at, tramp, new Tramp{fn, arg});
	pthread_attr_destroy(&at);
	if (r == 0) threads.insert(*t); else running--;
	return r;
}
int vp_pthread_join(pthread_t t, void **rv) {
	enter(K_JOIN); if (sched::active()) return sched::thread_join(t, rv);
	int r = pthread_join(t, rv);
	if (r == 0) { std::lock_guard<std::mutex> g(L); threads.erase(t); }
	leave(K_JOIN);
	return r;
}
int vp_pthread_detach(pthread_t t) { int r = pthread_detach(t); if (r == 0) { std::lock_guard<std::mutex> g(L); threads.erase(t); } return r; }
int vp_pthread_attr_init(pthread_attr_t *a) { int e = ENOMEM; if (enter(K_ATTR, &e)) return e; return pthread_attr_init(a); }
int vp_pthread_attr_setstacksize(pthread_attr_t *a, size_t n) { int e = EINVAL; if (enter(K_ATTR, &e)) return e; return pthread_attr_setstacksize(a, n); }
int vp_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { int e = EAGAIN; if (enter(K_MUTEXINIT, &e)) return e; return pthread_mutex_init(m, a); }
int vp_pthread_mutex_lock(pthread_mutex_t *m) { enter(K_LOCK); if (sched::active()) return sched::mutex_lock(m, false); int r = pthread_mutex_lock(m); leave(K_LOCK); return r; }
int vp_pthread_mutex_unlock(pthread_mutex_t *m) { enter(K_UNLOCK); if (sched::active()) return sched::mutex_unlock(m); int r = pthread_mutex_unlock(m); leave(K_UNLOCK); return r; }
int vp_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { int e = EAGAIN; if (enter(K_CONDINIT, &e)) return e; return pthread_cond_init(c, a); }
int vp_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { enter(K_WAIT); if (sched::active()) return sched::cond_wait(c, m, nullptr); int r = pthread_cond_wait(c, m); leave(K_WAIT); return r; }
int vp_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
	enter(K_WAIT); if (sched::active()) return sched::cond_wait(c, m, ts);
	struct timespec now, t = *ts; bool real = ts->tv_sec > 1000000000;
	clock_gettime(real ? CLOCK_REALTIME : CLOCK_MONOTONIC, &now);
	double d = (double)(ts->tv_sec - now.tv_sec) + (ts->tv_nsec - now.tv_nsec) / 1e9;
	{ std::lock_guard<std::mutex> g(L); timed.push_back(d); }
	long ms = lw_ms;
	if (ms > 0 && d > 60) { t = now; t.tv_sec += ms / 1000; t.tv_nsec += (ms % 1000) * 1000000; if (t.tv_nsec >= 1000000000) { t.tv_sec++; t.tv_nsec -= 1000000000; } }
	int r = pthread_cond_timedwait(c, m, &t); leave(K_WAIT); return r;
}
int vp_pthread_cond_signal(pthread_cond_t *c) { enter(K_SIGNAL); if (sched::active()) return sched::cond_wake(c, false); int r = pthread_cond_signal(c); leave(K_SIGNAL); return r; }
int vp_pthread_cond_broadcast(pthread_cond_t *c) { enter(K_SIGNAL); if (sched::active()) return sched::cond_wake(c, true); int r = pthread_cond_broadcast(c); leave(K_SIGNAL); return r; }

int vp_pthread_mutex_trylock(pthread_mutex_t *m) { enter(K_LOCK); if (sched::active()) return sched::mutex_lock(m, true); int r = pthread_mutex_trylock(m); leave(K_LOCK); return r; }
int vp_pthread_mutex_destroy(pthread_mutex_t *m) { if (sched::active()) sched::forget(m); return pthread_mutex_destroy(m); }
int vp_pthread_cond_destroy(pthread_cond_t *c) { return pthread_cond_destroy(c); }
int vp_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
	enter(K_WAIT); if (sched::active()) return sched::cond_wait(c, m, ts);
	int r = pthread_cond_clockwait(c, m, k, ts); leave(K_WAIT); return r;
}
int vp_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *a) { int e = EAGAIN; if (enter(K_MUTEXINIT, &e)) return e; return pthread_rwlock_init(l, a); }
int vp_pthread_rwlock_destroy(pthread_rwlock_t *l) { if (sched::active()) sched::forget(l); return pthread_rwlock_destroy(l); }
int vp_pthread_rwlock_rdlock(pthread_rwlock_t *l) { enter(K_LOCK); if (sched::active()) return sched::rw_lock(l, false, false); int r = pthread_rwlock_rdlock(l); leave(K_LOCK); return r; }
int vp_pthread_rwlock_wrlock(pthread_rwlock_t *l) { enter(K_LOCK); if (sched::active()) return sched::rw_lock(l, true, false); int r = pthread_rwlock_wrlock(l); leave(K_LOCK); return r; }
int vp_pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { enter(K_LOCK); if (sched::active()) return sched::rw_lock(l, false, true); return pthread_rwlock_tryrdlock(l); }
int vp_pthread_rwlock_trywrlock(pthread_rwlock_t *l) { enter(K_LOCK); if (sched::active()) return sched::rw_lock(l, true, true); return pthread_rwlock_trywrlock(l); }
int vp_pthread_rwlock_unlock(pthread_rwlock_t *l) { enter(K_UNLOCK); if (sched::active()) return sched::rw_unlock(l); int r = pthread_rwlock_unlock(l); leave(K_UNLOCK); return r; }
int vp_clock_gettime(clockid_t k, struct timespec *ts) { if (sched::active()) { uint64_t n = sched::now_ns(); ts->tv_sec = n / 1000000000; ts->tv_nsec = n % 1000000000; return 0; } return clock_gettime(k, ts); }
int vp_gettimeofday(struct timeval *tv, void *z) { if (sched::active()) { uint64_t n = sched::now_ns(); tv->tv_sec = n / 1000000000; tv->tv_usec = n % 1000000000 / 1000; return 0; } return gettimeofday(tv, (struct timezone *)z); }
int vp_usleep(unsigned us) { if (sched::active()) { sched::sleep_ns(us * 1000ull); return 0; } return usleep(us); }
int vp_nanosleep(const struct timespec *a, struct timespec *b) { if (sched::active()) { sched::sleep_ns(a->tv_sec * 1000000000ull + a->tv_nsec); return 0; } return nanosleep(a, b); }
int vp_sched_yield(void) { if (sched::active()) { sched::point(); return 0; } return sched_yield(); }

pcre2_code_8 *vp_pcre2_compile_8(PCRE2_SPTR8 p, PCRE2_SIZE n, uint32_t o, int *e, PCRE2_SIZE *eo, pcre2_compile_context_8 *cc) {
	if (enter(K_REGEX)) { *e = 121; *eo = 0; return nullptr; }
	auto r = pcre2_compile_8(p, n, o, e, eo, cc); if (r) { std::lock_guard<std::mutex> g(L); regexes.insert(r); } return r;
}
void vp_pcre2_code_free_8(pcre2_code_8 *c) { if (c) { std::lock_guard<std::mutex> g(L); regexes.erase(c); } pcre2_code_free_8(c); }
pcre2_match_data_8 *vp_pcre2_match_data_create_from_pattern_8(const pcre2_code_8 *c, pcre2_general_context_8 *g0) {
	if (enter(K_REGEX)) return nullptr;
	auto r = pcre2_match_data_create_from_pattern_8(c, g0); if (r) { std::lock_guard<std::mutex> g(L); regexes.insert(r); } return r;
}
void vp_pcre2_match_data_free_8(pcre2_match_data_8 *m) { if (m) { std::lock_guard<std::mutex> g(L); regexes.erase(m); } pcre2_match_data_free_8(m); }
int vp_pcre2_match_8(const pcre2_code_8 *c, PCRE2_SPTR8 s, PCRE2_SIZE n, PCRE2_SIZE st, uint32_t o, pcre2_match_data_8 *m, pcre2_match_context_8 *x) {
	enter(K_REGEX); if (re_err) return re_err; return pcre2_match_8(c, s, n, st, o, m, x);
}
void vp_openlog(const char *, int, int) { enter(K_LOG); std::lock_guard<std::mutex> g(L); slo++; slopen = true; }
void vp_closelog(void) { enter(K_LOG); std::lock_guard<std::mutex> g(L); slc++; slopen = false; }
void vp_vsyslog(int p, const char *f, va_list ap) {
	enter(K_LOG); char b[8192]; va_list q; va_copy(q, ap); int n = vsnprintf(b, sizeof b, f, q); va_end(q);
	std::string t; if (n >= (int)sizeof b) { t.resize(n + 1); vsnprintf(&t[0], n + 1, f, ap); t.resize(n); } else t = b;
	std::lock_guard<std::mutex> g(L); slog.push_back({p, t});
}
void vp_syslog(int p, const char *f, ...) { va_list ap; va_start(ap, f); vp_vsyslog(p, f, ap); va_end(ap); }
} // extern "C"
