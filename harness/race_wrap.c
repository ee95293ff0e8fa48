/* Not instrumented, so that what happens here orders nothing: delays drawn from VP_RACE, the registrar's address from VP_REG. */
#define _GNU_SOURCE
#include <netdb.h>
#include <pthread.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <unistd.h>
static __thread uint64_t st;
static unsigned threads, prob, maxus, seed; static int ready;
static void setup(void) { const char *e = getenv("VP_RACE"); if (e) { char *p; seed = strtoul(e, &p, 10); if (*p == ',') prob = strtoul(p + 1, &p, 10); if (*p == ',') maxus = strtoul(p + 1, &p, 10); } ready = 1; }
static void maybe(void) {
	if (!ready) setup(); if (!prob) return;
	if (!st) st = (uint64_t)(seed + 1) * 0x9E3779B97F4A7C15ull + (uint64_t)(++threads) * 0xBF58476D1CE4E5B9ull + 1;
	st ^= st << 13; st ^= st >> 7; st ^= st << 17;
	if (st % 1024 < prob) usleep((st >> 20) % (maxus + 1));
}
#define W(ret, name, par, args) ret __real_##name par; ret __wrap_##name par { ret r; maybe(); r = __real_##name args; return r; }
W(int, pthread_mutex_lock, (pthread_mutex_t *m), (m))
W(int, pthread_cond_broadcast, (pthread_cond_t *c), (c))
W(int, pthread_cond_signal, (pthread_cond_t *c), (c))
W(ssize_t, send, (int a, const void *b, size_t n, int f), (a, b, n, f))
W(ssize_t, recvfrom, (int a, void *b, size_t n, int f, struct sockaddr *s, socklen_t *l), (a, b, n, f, s, l))
int __real_connect(int a, const struct sockaddr *s, socklen_t l); /* VP_HOLD: microseconds before it returns */
int __wrap_connect(int a, const struct sockaddr *s, socklen_t l) { const char *e = getenv("VP_HOLD"); int r; maybe(); r = __real_connect(a, s, l); if (e) usleep(atoi(e)); return r; }
W(int, shutdown, (int a, int h), (a, h))
W(int, close, (int a), (a))
int __real_pthread_mutex_unlock(pthread_mutex_t *m);
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); maybe(); return r; }
int __real_getaddrinfo(const char *n, const char *s, const struct addrinfo *h, struct addrinfo **r);
int __wrap_getaddrinfo(const char *n, const char *s, const struct addrinfo *h, struct addrinfo **r) {
	if (n && !strcmp(n, "www.echolink.org")) n = getenv("VP_REG"); if (n && strncmp(n, "127.", 4)) return EAI_NONAME;
	return __real_getaddrinfo(n, s, h, r);
}
