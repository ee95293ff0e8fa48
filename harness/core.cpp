#include "core.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

extern "C" void __sanitizer_print_stack_trace() __attribute__((weak));

static const size_t MAXCH = 1 << 17, MAXHASH = 1 << 19, MAXNOTES = 1 << 18;
enum { ST_IDLE, ST_RUNNING, ST_DONE, ST_FAIL };
struct Slot {
	std::atomic<uint64_t> cidx, start_ns, done;
	std::atomic<int> state;
	std::atomic<int> stop;
	std::atomic<uint64_t> evals, nontriv, discards, nhash;
	std::atomic<uint32_t> nch;
	std::atomic<uint32_t> nnotes;
	uint32_t nlabels;
	struct { char name[56]; uint64_t n; } labels[160];
	char msg[8192];
	uint32_t nsamples;
	char samples[3][6000];
	char notes[MAXNOTES];
	uint64_t ch[MAXCH];
	uint64_t hashes[MAXHASH];
};
static Slot *cur;          // slot of this process
int g_worker_no;
static std::string g_scratch_root;
static bool g_verbose;

uint64_t mono_ns() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }
uint64_t mix64(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static std::string vstrf(const char *fmt, va_list ap) {
	char b[8192]; vsnprintf(b, sizeof b, fmt, ap); return b;
}
std::string strf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); std::string s = vstrf(fmt, ap); va_end(ap); return s; }
std::string hex(const void *p, size_t n, size_t max) {
	std::string s; const uint8_t *b = (const uint8_t *)p; char t[4];
	for (size_t i = 0; i < n && i < max; i++) { snprintf(t, 4, "%02x", b[i]); s += t; }
	if (n > max) s += strf("..(%zu)", n);
	return s;
}
std::string quoted(const std::string &s, size_t max) {
	std::string o = "\"";
	for (size_t i = 0; i < s.size() && i < max; i++) {
		unsigned char ch = s[i];
		if (ch == '\n') o += "\\n"; else if (ch == '\r') o += "\\r"; else if (ch == '\t') o += "\\t";
		else if (ch < 32 || ch >= 127 || ch == '"' || ch == '\\') o += strf("\\x%02x", ch);
		else o += ch;
	}
	o += "\""; if (s.size() > max) o += strf("..(%zu)", s.size());
	return o;
}
std::string scratch_dir() { return g_scratch_root; }

// ------------------------------------------------------------------ draws
static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rng_next(uint64_t s[2]) { // xoroshiro128++
	uint64_t s0 = s[0], s1 = s[1], r = rotl(s0 + s1, 17) + s0;
	s1 ^= s0; s[0] = rotl(s0, 49) ^ s1 ^ (s1 << 21); s[1] = rotl(s1, 28); return r;
}
void Case::rec(uint64_t v) { if (cur && cur->nch < MAXCH) { uint32_t n = cur->nch; cur->ch[n] = v; cur->nch = n + 1; } }
uint64_t Case::draw(uint64_t n) {
	uint64_t v;
	if (n <= 1) return 0; // no information: not recorded
	switch (mode) {
	case REPLAY: v = pos < in.size() ? in[pos] : 0; pos++; if (v >= n) v = n - 1; break;
	case FUZZ: {
		v = 0; uint64_t lim = n - 1;
		while (lim) { v = (v << 8) | (pos < fzlen ? fz[pos] : 0); pos++; lim >>= 8; }
		v %= n; break; }
	default: v = n == 0 ? 0 : (uint64_t)(((unsigned __int128)rng_next(rng) * n) >> 64);
	}
	rec(v);
	return v;
}
uint64_t Case::fixed(uint64_t n, uint64_t v) { if (mode != RANDOM || n <= 1) return draw(n); rec(v); return v; }
int64_t Case::range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
bool Case::chance(unsigned pc) { return draw(100) >= 100 - (pc > 100 ? 100 : pc); }
uint64_t Case::bits(unsigned n) { if (n > 32) { uint64_t h = draw(1ull << (n - 32)); return (h << 32) | draw(1ull << 32); } return draw(1ull << n); }
int Case::weighted(std::initializer_list<unsigned> w) {
	uint64_t t = 0; for (unsigned x : w) t += x;
	uint64_t v = draw(t); int i = 0;
	for (unsigned x : w) { if (v < x) return i; v -= x; i++; }
	return 0;
}
Bytes Case::blob(size_t len) {
	Bytes b(len); if (!len) return b;
	uint64_t k = draw(1 << 20), s[2] = {mix64(k), mix64(k + 77)};
	for (size_t i = 0; i < len; i++) b[i] = (uint8_t)(k == 0 ? i : rng_next(s) >> 13);
	return b;
}
size_t Case::length(size_t max, std::initializer_list<size_t> edges) {
	std::vector<size_t> e; for (size_t x : edges) if (x <= max) e.push_back(x);
	switch (draw(4)) {
	case 0: return draw(std::min<size_t>(max, 24) + 1);
	case 1: return draw(std::min<size_t>(max, 600) + 1);
	case 2: return draw(max + 1);
	default: if (e.empty()) return draw(max + 1); return e[draw(e.size())];
	}
}
void Case::note(const char *fmt, ...) {
	va_list ap; va_start(ap, fmt); std::string s = vstrf(fmt, ap); va_end(ap);
	s += "\n";
	if (g_verbose) { (void)!write(1, s.data(), s.size()); }
	if (!cur) return;
	uint32_t n = cur->nnotes;
	if (n + s.size() + 1 < MAXNOTES) { memcpy(cur->notes + n, s.data(), s.size() + 1); cur->nnotes = n + s.size(); }
}
void Case::label(const char *fmt, ...) {
	va_list ap; va_start(ap, fmt); std::string s = vstrf(fmt, ap); va_end(ap);
	if (!cur) return;
	s.resize(std::min<size_t>(s.size(), 55));
	for (uint32_t i = 0; i < cur->nlabels; i++) if (s == cur->labels[i].name) { cur->labels[i].n++; return; }
	if (cur->nlabels < 160) { strcpy(cur->labels[cur->nlabels].name, s.c_str()); cur->labels[cur->nlabels].n = 1; cur->nlabels++; }
}
void Case::fail(const char *fmt, ...) { va_list ap; va_start(ap, fmt); std::string s = vstrf(fmt, ap); va_end(ap); throw CaseFail{s}; }
void Case::discard(const char *fmt, ...) { va_list ap; va_start(ap, fmt); std::string s = vstrf(fmt, ap); va_end(ap); throw CaseDiscard{s}; }

// ------------------------------------------------------------------ workers
static uint64_t strhash(const char *s) { uint64_t h = 1469598103934665603ull; for (; *s; s++) h = (h ^ (uint8_t)*s) * 1099511628211ull; return h; }
static uint64_t g_seed = 1; static bool g_thorough;
static std::string g_root; // scratch root of the whole run

static void child_setup(int no) {
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	g_worker_no = no;
	g_scratch_root = g_root + strf("/w%d", no);
	mkdir(g_scratch_root.c_str(), 0755);
	int fd = open((g_root + strf("/w%d.err", no)).c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
	if (fd >= 0) { dup2(fd, 2); if (!g_verbose) dup2(fd, 1); close(fd); }
	int nfd = open("/dev/null", O_RDONLY); if (nfd >= 0) { dup2(nfd, 0); close(nfd); }
	signal(SIGPIPE, SIG_DFL);
	if (the_property.init) the_property.init();
}
static void begin_case(Slot *s, uint64_t idx) {
	s->nch = 0; s->nnotes = 0; s->notes[0] = 0; s->msg[0] = 0; s->cidx = idx; s->start_ns = mono_ns(); s->state = ST_RUNNING;
}
// returns 0 pass, 1 fail, 2 discard
static int run_one(Slot *s, Case &c) {
	try { the_property.run(c); }
	catch (CaseFail &f) { snprintf(s->msg, sizeof s->msg, "%s", f.msg.c_str()); return 1; }
	catch (CaseDiscard &d) { snprintf(s->msg, sizeof s->msg, "%s", d.why.c_str()); return 2; }
	return 0;
}
static void worker_main(Slot *s, int no, int J, uint64_t from, uint64_t total) {
	cur = s; child_setup(no);
	for (uint64_t i = from; i < total; i += J) {
		if (s->stop) break;
		Case c; c.index = i; c.thorough = g_thorough;
		uint64_t h = mix64(g_seed ^ mix64(strhash(the_property.id)) ^ mix64(i * 2654435761u + 17));
		c.rng[0] = mix64(h); c.rng[1] = mix64(h + 1);
		begin_case(s, i);
		int r = run_one(s, c);
		if (r == 1) { s->state = ST_FAIL; _exit(3); }
		s->evals++;
		if (r == 2) { s->discards++; c.label("discarded: %s", s->msg); }
		else if (c.nontriv) {
			uint64_t hh = 77; for (uint32_t k = 0; k < s->nch; k++) hh = mix64(hh ^ s->ch[k]);
			s->nontriv++;
			if (s->nhash < MAXHASH) { uint64_t k = s->nhash; s->hashes[k] = hh; s->nhash = k + 1; }
			if (s->nsamples < 3 && s->evals % 5 == 1) {
				snprintf(s->samples[s->nsamples], sizeof s->samples[0], "case %llu:\n%s", (unsigned long long)i, s->notes); s->nsamples++;
			}
		}
		s->start_ns = 0; s->done = i + 1;
	}
	s->state = ST_DONE; _exit(0);
}
static std::string read_tail(const std::string &p, size_t max) {
	std::string o; FILE *f = fopen(p.c_str(), "r"); if (!f) return o;
	char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) { o.append(b, n); if (o.size() > (4u << 20)) break; }
	fclose(f);
	size_t k = o.find("ERROR: AddressSanitizer"); size_t k2 = o.find("runtime error:"); if (k2 < k) k = k2;
	if (k != std::string::npos) { size_t ls = o.rfind('\n', k); o = o.substr(ls == std::string::npos ? 0 : ls + 1); if (o.size() > max) o.resize(max); return o; }
	if (o.size() > max) o = o.substr(o.size() - max);
	return o;
}
struct Failure { std::vector<uint64_t> ch; std::string msg, notes; uint64_t idx = 0; bool hang = false; };
static std::string crash_msg(int st, int no) {
	std::string how = WIFSIGNALED(st) ? strf("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))) : strf("process ended with status %d", WEXITSTATUS(st));
	return "crash: " + how + "\n" + read_tail(g_root + strf("/w%d.err", no), 3500);
}
static void kill_tree(pid_t p) { kill(p, SIGKILL); }
// processes that a killed worker left behind come to this process (a subreaper): end them
static void kill_orphans(const std::vector<pid_t> &known) {
	for (int round = 0; round < 50; round++) {
		FILE *f = fopen(strf("/proc/self/task/%d/children", (int)getpid()).c_str(), "r"); if (!f) return;
		int p, n = 0; while (fscanf(f, "%d", &p) == 1) { bool k = false; for (pid_t q : known) k |= q == p; if (k) continue; kill(p, SIGKILL); int st; waitpid(p, &st, 0); n++; }
		fclose(f); if (!n) return;
	}
}

enum { R_PASS, R_FAIL, R_HANG };
struct Job { std::vector<uint64_t> ch; int res = R_PASS; Failure f; };
// run a batch of replays, at most par at a time
static void run_batch(std::vector<Job> &jobs, Slot *slots, int par, int slot0, bool stop_first, uint64_t deadline) {
	struct Run { pid_t pid = 0; size_t job = 0; };
	std::vector<Run> rs(par); size_t next = 0, active = 0; bool stopped = false;
	for (;;) {
		for (int k = 0; k < par && !stopped && mono_ns() < deadline; k++) {
			if (rs[k].pid || next >= jobs.size()) continue;
			Slot *s = &slots[slot0 + k]; rs[k].job = next; begin_case(s, 0);
			s->nlabels = 0;
			pid_t p = fork();
			if (p == 0) {
				cur = s; child_setup(slot0 + k);
				Case c; c.mode = Case::REPLAY; c.in = jobs[next].ch; c.thorough = g_thorough;
				begin_case(s, 0);
				int r = run_one(s, c);
				if (r == 1) { s->state = ST_FAIL; _exit(3); }
				s->state = ST_DONE; _exit(0);
			}
			rs[k].pid = p; next++; active++;
		}
		if (!active) break;
		bool any = false;
		for (int k = 0; k < par; k++) {
			if (!rs[k].pid) continue;
			int st; Slot *s = &slots[slot0 + k]; Job &j = jobs[rs[k].job];
			pid_t r = waitpid(rs[k].pid, &st, WNOHANG);
			bool hang = false;
			if (r == 0) {
				if (mono_ns() - s->start_ns > the_property.case_timeout_s * 1e9) { kill_tree(rs[k].pid); waitpid(rs[k].pid, &st, 0); hang = true; }
				else if (stopped) { kill_tree(rs[k].pid); waitpid(rs[k].pid, &st, 0); rs[k].pid = 0; active--; continue; }
				else continue;
			}
			any = true; rs[k].pid = 0; active--;
			if (hang) { j.res = R_HANG; j.f.hang = true; j.f.msg = strf("hang: the case did not finish within %.0f s", the_property.case_timeout_s); }
			else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && s->state == ST_DONE) j.res = R_PASS;
			else { j.res = R_FAIL; j.f.msg = s->state == ST_FAIL ? std::string(s->msg) : crash_msg(st, slot0 + k); }
			if (j.res != R_PASS) {
				j.f.ch.assign(s->ch, s->ch + s->nch); j.f.notes = std::string(s->notes, s->nnotes);
				if (stop_first) stopped = true;
			}
		}
		if (!any) usleep(1000);
	}
}
// recorded defects: each fixed history in a process of its own; the ones that still show
static std::vector<const Finding *> findings_that_show(Slot *slots) {
	std::vector<const Finding *> v;
	for (auto &f : the_property.findings) {
		begin_case(&slots[0], 0); pid_t p = fork();
		if (p == 0) { cur = &slots[0]; child_setup(0); Case c; c.mode = Case::REPLAY; bool b = false; try { b = f.shows(c); } catch (CaseFail &) {} catch (CaseDiscard &) {} _exit(b ? 9 : 0); }
		int st = 0; uint64_t dl = mono_ns() + 60000000000ull; pid_t r; while ((r = waitpid(p, &st, WNOHANG)) == 0 && mono_ns() < dl) usleep(2000);
		if (r == 0) { kill_tree(p); waitpid(p, &st, 0); } kill_orphans({}); if (WIFEXITED(st) && WEXITSTATUS(st) == 9) v.push_back(&f);
	}
	return v;
}
static bool listed(const std::string &path, const Finding &f) {
	FILE *fp = fopen(path.c_str(), "r"); if (!fp) return false; char *l = nullptr; size_t n = 0; bool y = false; std::string want = strf("known: property=%s %s ", the_property.id, f.key);
	while (getline(&l, &n, fp) > 0) y |= !strncmp(l, want.c_str(), want.size()); ::free(l); fclose(fp); return y;
}
static bool smaller(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) { if (a.size() != b.size()) return a.size() < b.size(); return a < b; }
static int shrink_runs;
static Failure shrink(Failure f, Slot *slots, int par, int slot0, double budget_s) {
	uint64_t dl = mono_ns() + (uint64_t)(budget_s * 1e9);
	auto trial = [&](std::vector<std::vector<uint64_t>> cands) -> bool {
		// evaluate in batches, accept the first failing smaller one
		for (size_t i = 0; i < cands.size() && mono_ns() < dl; i += par) {
			std::vector<Job> js;
			for (size_t k = i; k < cands.size() && k < i + par; k++) { Job j; j.ch = cands[k]; js.push_back(j); }
			run_batch(js, slots, par, slot0, false, dl); shrink_runs += js.size();
			for (auto &j : js) if (j.res == (f.hang ? R_HANG : R_FAIL) && smaller(j.f.ch, f.ch)) { f.ch = j.f.ch; f.msg = j.f.msg; f.notes = j.f.notes; return true; }
		}
		return false;
	};
	bool progress = true;
	while (progress && mono_ns() < dl) {
		progress = false;
		for (size_t bs : {64, 16, 8, 4, 2, 1}) {
			for (size_t i = 0; i < f.ch.size() && mono_ns() < dl;) {
				std::vector<std::vector<uint64_t>> cs;
				for (int k = 0; k < par; k++) { size_t a = i + k * bs; if (a >= f.ch.size()) break; auto v = f.ch; v.erase(v.begin() + a, v.begin() + std::min(v.size(), a + bs)); cs.push_back(v); }
				if (trial(cs)) progress = true; else i += par * bs;
			}
		}
		for (size_t i = 0; i < f.ch.size() && mono_ns() < dl;) {
			std::vector<std::vector<uint64_t>> cs;
			for (int k = 0; k < par && i + k < f.ch.size(); k++) if (f.ch[i + k]) { auto v = f.ch; v[i + k] = 0; cs.push_back(v); }
			if (!cs.empty() && trial(cs)) progress = true; else i += par;
		}
		for (size_t i = 0; i < f.ch.size() && mono_ns() < dl; i++) {
			int guard = 0;
			while (i < f.ch.size() && f.ch[i] > 1 && guard++ < 12 && mono_ns() < dl) {
				std::vector<std::vector<uint64_t>> cs;
				for (uint64_t nv : {f.ch[i] / 2, f.ch[i] - f.ch[i] / 4, f.ch[i] - 1}) if (nv && nv < f.ch[i]) { auto v = f.ch; v[i] = nv; cs.push_back(v); }
				if (!trial(cs)) break;
				progress = true;
			}
		}
	}
	return f;
}
static std::string json_str(const std::string &s) {
	std::string o = "\"";
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
		else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch >= 127) o += strf("\\u%04x", ch);
		else o += ch;
	}
	return o + "\"";
}
static void write_replay(const std::string &path, const Failure &f) {
	FILE *fp = fopen(path.c_str(), "w"); if (!fp) return;
	fprintf(fp, "property %s\nseed %llu\ncase %llu\nchoices", the_property.id, (unsigned long long)g_seed, (unsigned long long)f.idx);
	for (auto v : f.ch) fprintf(fp, " %llu", (unsigned long long)v);
	fprintf(fp, "\n--- failure\n%s\n--- case\n%s\n", f.msg.c_str(), f.notes.c_str());
	fclose(fp);
}
static void rm_rf(const std::string &d) {
	DIR *dp = opendir(d.c_str()); if (!dp) return;
	while (dirent *e = readdir(dp)) {
		std::string n = e->d_name; if (n == "." || n == "..") continue;
		std::string p = d + "/" + n; struct stat st;
		if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_rf(p); else unlink(p.c_str());
	}
	closedir(dp); rmdir(d.c_str());
}

#ifndef VP_FUZZ
int main(int argc, char **argv) {
	const char *t = getenv("VERIF_TIER"), *sd = getenv("VERIF_SEED");
	g_thorough = t && !strcmp(t, "thorough"); if (sd && *sd) g_seed = strtoull(sd, 0, 10);
	std::string replay, evid, repdir = ".", known; uint64_t total = 0; int J = 8; double cap = 0; long single = -1;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i]; auto nx = [&]() { return i + 1 < argc ? argv[++i] : (char *)""; };
		if (a == "--replay") replay = nx(); else if (a == "--evidence") evid = nx(); else if (a == "--replay-dir") repdir = nx(); else if (a == "--known") known = nx();
		else if (a == "--cases") total = strtoull(nx(), 0, 10); else if (a == "-j") J = atoi(nx()); else if (a == "--cap") cap = atof(nx());
		else if (a == "-v") g_verbose = true; else if (a == "--case") single = atol(nx()); else if (a == "--seed") g_seed = strtoull(nx(), 0, 10);
	}
	if (!total) total = g_thorough ? the_property.thorough_cases : the_property.quick_cases;
	if (cap == 0) cap = g_thorough ? 780 : 150;
	char tmpl[] = "/tmp/vp-run-XXXXXX"; g_root = mkdtemp(tmpl);
	prctl(PR_SET_CHILD_SUBREAPER, 1);
	struct Cleanup { ~Cleanup() { kill_orphans({}); rm_rf(g_root); } } cleanup;
	struct rlimit rl; if (getrlimit(RLIMIT_NOFILE, &rl) == 0) { rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 4096); setrlimit(RLIMIT_NOFILE, &rl); }
	rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
	int NS = J * 2;
	Slot *slots = (Slot *)mmap(0, sizeof(Slot) * NS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (slots == MAP_FAILED) { perror("mmap"); return 2; }
	uint64_t t0 = mono_ns();

	if (!replay.empty()) { // a replay of a recorded history that is not listed
		FILE *f = fopen(replay.c_str(), "r"); char l[200] = ""; std::string key; if (f) { while (fgets(l, sizeof l, f)) if (!strncmp(l, "finding ", 8)) { key = l + 8; key.resize(strcspn(key.c_str(), "\n")); } fclose(f); }
		if (!key.empty()) { for (auto *x : findings_that_show(slots)) if (x->key == key) { printf("FAIL: %s\n", x->what); return 1; } puts("pass"); return 0; }
	}
	if (!replay.empty() || single >= 0) {
		std::vector<Job> js(1);
		if (!replay.empty()) {
			FILE *f = fopen(replay.c_str(), "r"); if (!f) { perror("replay"); return 2; }
			char *line = nullptr; size_t n = 0; while (getline(&line, &n, f) > 0) if (!strncmp(line, "choices", 7)) { char *p = line + 7; for (;;) { char *e; unsigned long long v = strtoull(p, &e, 10); if (e == p) break; js[0].ch.push_back(v); p = e; } break; }
			fclose(f);
		} else { // run one numbered case through a worker-like child
			pid_t p = fork(); if (!p) { cur = &slots[0]; child_setup(0); Case c; c.index = single; c.thorough = g_thorough; uint64_t h = mix64(g_seed ^ mix64(strhash(the_property.id)) ^ mix64(single * 2654435761u + 17)); c.rng[0] = mix64(h); c.rng[1] = mix64(h + 1); begin_case(cur, single); int r = run_one(cur, c); _exit(r == 1 ? 3 : 0); }
			int st; waitpid(p, &st, 0); printf("%.*s\n", (int)slots[0].nnotes, slots[0].notes);
			if (st) { std::string m = slots[0].msg[0] ? slots[0].msg : crash_msg(st, 0); printf("FAIL: %s\n", m.c_str()); return 1; }
			puts("pass"); return 0;
		}
		run_batch(js, slots, 1, 0, false, ~0ull);
		printf("%.*s\n", (int)slots[0].nnotes, slots[0].notes);
		if (js[0].res != R_PASS) { printf("FAIL: %s\n", js[0].f.msg.c_str()); return 1; }
		puts("pass"); return 0;
	}

	const Finding *unlisted = nullptr;
	for (auto *x : findings_that_show(slots)) if (listed(known, *x)) { printf("KNOWN-FINDING: property=%s %s\n", the_property.id, x->what); fflush(stdout); } else unlisted = x;
	std::vector<pid_t> pid(J, 0); std::vector<uint64_t> from(J);
	std::vector<Failure> unconfirmed; Failure confirmed; bool have = false;
	bool capped = false; int restarts = 0;
	auto spawn = [&](int k) { Slot *s = &slots[k]; s->state = ST_IDLE; s->start_ns = 0; pid_t p = fork(); if (p == 0) worker_main(s, k, J, from[k], total); pid[k] = p; };
	for (int k = 0; k < J; k++) { from[k] = k; spawn(k); }
	for (;;) {
		int alive = 0; bool any = false;
		double el = (mono_ns() - t0) / 1e9;
		if (el > cap && !capped) { capped = true; for (int k = 0; k < J; k++) slots[k].stop = 1; }
		std::vector<Failure> fresh;
		for (int k = 0; k < J; k++) {
			if (!pid[k]) continue;
			alive++; int st; Slot *s = &slots[k];
			pid_t r = waitpid(pid[k], &st, WNOHANG); bool hang = false;
			if (r == 0) {
				uint64_t sn = s->start_ns;
				if (sn && mono_ns() > sn && mono_ns() - sn > the_property.case_timeout_s * 1e9) {
					kill_tree(pid[k]); waitpid(pid[k], &st, 0); hang = true; kill_orphans(pid);
					if (s->start_ns != sn) hang = true;
				} else continue;
			}
			any = true; pid[k] = 0;
			if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0 && s->state == ST_DONE) continue;
			Failure f; f.idx = s->cidx; f.hang = hang; f.ch.assign(s->ch, s->ch + s->nch); f.notes = std::string(s->notes, s->nnotes);
			f.msg = hang ? strf("hang: the case did not finish within %.0f s", the_property.case_timeout_s) : s->state == ST_FAIL ? std::string(s->msg) : crash_msg(st, k);
			s->evals++; fresh.push_back(f);
			from[k] = s->cidx + J; restarts++;
			if (!capped && from[k] < total) spawn(k);
		}
		for (auto &f : fresh) {
			if (have) break;
			// confirm: pause nothing, replay up to 20 times (4 at once)
			for (int k = 0; k < J; k++) if (pid[k]) kill(pid[k], SIGSTOP);
			int tries = f.hang ? 4 : 20, hits = 0; Failure keep = f;
			printf("candidate failure in case %llu: %s\n", (unsigned long long)f.idx, f.msg.substr(0, 600).c_str()); fflush(stdout);
			for (int round = 0; round < tries && !hits; round += 4) {
				std::vector<Job> js(4); for (auto &j : js) j.ch = f.ch;
				run_batch(js, slots, 4, J, true, ~0ull);
				for (auto &j : js) if (j.res != R_PASS) { hits++; if (!hits || keep.msg.empty() || !f.hang) keep.msg = j.f.msg, keep.notes = j.f.notes, keep.hang = j.f.hang; }
			}
			// a report of ThreadSanitizer proves itself
			if (hits || f.msg.compare(0, 17, "ThreadSanitizer: ") == 0) { confirmed = keep; confirmed.ch = f.ch; confirmed.idx = f.idx; have = true; }
			else { unconfirmed.push_back(f); if (unconfirmed.size() >= 3) { confirmed = unconfirmed[0]; confirmed.msg += "\n(failure seen in several cases, none reproduced on replay)"; have = true; } }
			uint64_t nowns = mono_ns();
			for (int k = 0; k < J; k++) if (pid[k]) { if (slots[k].start_ns) slots[k].start_ns = nowns; kill(pid[k], have ? SIGKILL : SIGCONT); }
		}
		if (have) { for (int k = 0; k < J; k++) if (pid[k]) { kill(pid[k], SIGKILL); int st; waitpid(pid[k], &st, 0); pid[k] = 0; } kill_orphans({}); break; }
		if (!alive) break;
		if (!any) usleep(2000);
	}
	std::string rpath;
	if (have) {
		size_t before = confirmed.ch.size();
		Failure sh = shrink(confirmed, slots, J, J, confirmed.hang ? 60 : 45);
		sh.idx = confirmed.idx;
		printf("shrunk from %zu to %zu choices in %d runs\n", before, sh.ch.size(), shrink_runs);
		mkdir(repdir.c_str(), 0755);
		rpath = repdir + "/" + the_property.id + ".replay"; write_replay(rpath, sh);
		printf("--- failing case\n%s--- failure\n%s\n", sh.notes.c_str(), sh.msg.c_str());
	}
	if (!have && unlisted) {
		mkdir(repdir.c_str(), 0755); rpath = repdir + "/" + the_property.id + ".replay"; FILE *fp = fopen(rpath.c_str(), "w"); if (fp) { fprintf(fp, "property %s\nfinding %s\n--- failure\n%s\n", the_property.id, unlisted->key, unlisted->what); fclose(fp); }
		printf("--- failure\n%s\n", unlisted->what); have = true;
	}
	// evidence
	uint64_t ev = 0, nt = 0, disc = 0; std::unordered_set<uint64_t> hs; std::map<std::string, uint64_t> lab; std::vector<std::string> samples;
	for (int k = 0; k < J; k++) {
		Slot &s = slots[k]; ev += s.evals; nt += s.nontriv; disc += s.discards;
		for (uint64_t i = 0; i < s.nhash; i++) hs.insert(s.hashes[i]);
		for (uint32_t i = 0; i < s.nlabels; i++) lab[s.labels[i].name] += s.labels[i].n;
		for (uint32_t i = 0; i < s.nsamples && samples.size() < 6; i++) if (i == 0 || k == 0) samples.push_back(s.samples[i]);
	}
	double wall = (mono_ns() - t0) / 1e9;
	if (!evid.empty()) {
		FILE *f = fopen((evid + ".tmp").c_str(), "w");
		if (f) {
			fprintf(f, "{\n \"property\": %s, \"tier\": \"%s\", \"seed\": %llu, \"level\": \"exploration\",\n", json_str(the_property.id).c_str(), g_thorough ? "thorough" : "quick", (unsigned long long)g_seed);
			fprintf(f, " \"coverage\": {\n  \"evaluations\": %llu, \"distinct_nontrivial\": %llu,\n  \"rule\": %s,\n", (unsigned long long)ev, (unsigned long long)hs.size(), json_str(the_property.rule).c_str());
			fprintf(f, "  \"planned_cases\": %llu, \"discarded\": %llu, \"stopped_by_time_cap\": %s, \"unconfirmed_failures\": %zu,\n  \"labels\": {", (unsigned long long)total, (unsigned long long)disc, capped ? "true" : "false", unconfirmed.size());
			bool first = true; for (auto &kv : lab) { fprintf(f, "%s%s: %llu", first ? "" : ", ", json_str(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
			fprintf(f, "},\n  \"samples\": ["); first = true;
			for (auto &s : samples) { fprintf(f, "%s%s", first ? "" : ", ", json_str(s).c_str()); first = false; }
			fprintf(f, "]\n },\n \"assumptions\": ["); first = true;
			for (auto &s : the_property.assumptions) { fprintf(f, "%s%s", first ? "" : ", ", json_str(s).c_str()); first = false; }
			fprintf(f, "],\n \"wall_s\": %.2f, \"violations\": %d\n}\n", wall, have ? 1 : 0);
			fclose(f); rename((evid + ".tmp").c_str(), evid.c_str());
		}
	}
	printf("%s: %llu cases (%llu non-trivial, %zu distinct, %llu discarded) in %.1f s%s; unconfirmed failures: %zu\n", the_property.id, (unsigned long long)ev, (unsigned long long)nt, hs.size(), (unsigned long long)disc, wall, capped ? " [time cap reached]" : "", unconfirmed.size());
	for (auto &u : unconfirmed) { printf("unconfirmed (case %llu): %s\n", (unsigned long long)u.idx, u.msg.substr(0, 1500).c_str()); }
	if (have) { printf("VIOLATION property=%s replay=%s\n", the_property.id, rpath.c_str()); return 1; }
	return 0;
}
#endif
