// C21: log messages go once, to the selected medium, at the level
#include "common.hpp"
#include <fcntl.h>
#include <mutex>
#include <sys/stat.h>
#include <syslog.h>
#include <thread>
extern "C" {
#include "log.h"
}
#undef LOG_H_
namespace {
std::string slurp(const std::string &p, size_t from = 0) { std::string r; int fd = open(p.c_str(), O_RDONLY); if (fd < 0) return r; char b[65536]; ssize_t n; off_t o = from; while ((n = pread(fd, b, sizeof b, o)) > 0) { r.append(b, n); o += n; } ::close(fd); return r; }
size_t size_of(const std::string &p) { struct stat st; return stat(p.c_str(), &st) ? 0 : st.st_size; }
std::string conpath;
struct Console { // both console streams lead to one file meanwhile
	int o, e;
	Console() { fflush(stdout); fflush(stderr); o = dup(1); e = dup(2); int f = open(conpath.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0600); dup2(f, 1); dup2(f, 2); ::close(f); }
	~Console() { dup2(o, 1); dup2(e, 2); ::close(o); ::close(e); } // what the code has not flushed is not on the console
};
const char *LV[] = {"fatal", "error", "warning", "info", "debug"}; const int PRIO[] = {LOG_CRIT, LOG_ERR, LOG_WARNING, LOG_INFO, LOG_DEBUG};
const char *MD[] = {"none", "console", "file", "syslog", "event log"};
struct H { log_handle log{}; proxy_handle ph{}; bool proxy = false; int medium = LOG_MEDIUM_NONE, level = LOG_LEVEL_INFO; int file = -1; bool full = false; };
struct Ctx {
	Case &c; std::vector<H> hs; std::vector<std::string> files, want; size_t con = 0; bool hidden = false; int written = 0, switches = 0, suppressed = 0, fails = 0;
	Ctx(Case &c) : c(c) {}
	void nothing_elsewhere(int medium, int file, const char *why) {
		for (size_t i = 0; i < files.size(); i++) if (!(medium == LOG_MEDIUM_FILE && file == (int)i)) { size_t s = size_of(files[i]); if (s != want[i].size()) c.fail("%s: log file %zu has %zu bytes instead of %zu", why, i, s, want[i].size()); }
		if (medium != LOG_MEDIUM_STDOUT) { size_t s = size_of(conpath); if (s != con) { std::string t = slurp(conpath, con); c.fail("%s: appeared on the console: %s", why, quoted(t).c_str()); } }
		if (medium != LOG_MEDIUM_SYSLOG) { auto v = shim::take_syslog(); if (!v.empty()) c.fail("%s: went to syslog: %s", why, quoted(v[0].text).c_str()); }
	}
	// what is new on that medium (syslog: joined; prio of the first in *prio)
	std::string fresh(int medium, int file, int *prio, size_t *n) {
		std::string t; *n = 1; *prio = -1;
		if (medium == LOG_MEDIUM_STDOUT) { t = slurp(conpath, con); con += t.size(); }
		else if (medium == LOG_MEDIUM_FILE && file >= 0) { t = slurp(files[file], want[file].size()); size_t o = want[file].size(); want[file] += t; }
		else if (medium == LOG_MEDIUM_SYSLOG) { auto v = shim::take_syslog(); *n = v.size(); for (auto &x : v) { t += x.text; *prio = x.prio; } }
		return t;
	}
	void message(H &h, int lvl, const std::string &text, const char *how) {
		bool on = lvl <= h.level; int prio; size_t n;
		std::string why = strf("a message of level %s (threshold %s, medium %s%s)", LV[lvl], LV[h.level], MD[h.medium], h.full ? ", full device" : "");
		if (!on || h.medium == LOG_MEDIUM_NONE || h.full) { nothing_elsewhere(-1, -1, why.c_str()); suppressed++; return; }
		nothing_elsewhere(h.medium, h.file, why.c_str()); std::string t = fresh(h.medium, h.file, &prio, &n); written++;
		if (h.medium == LOG_MEDIUM_SYSLOG) { CHECK(c, n == 1 && t == text, "%s: syslog received %zu message(s): %s instead of %s", why.c_str(), n, quoted(t).c_str(), quoted(text).c_str()); CHECK(c, (prio & 7) == PRIO[lvl], "%s: syslog priority is %d instead of %d", why.c_str(), prio, PRIO[lvl]); return; }
		bool end = t.size() >= text.size() && t.compare(t.size() - text.size(), text.size(), text) == 0;
		CHECK(c, end && t.size() - text.size() <= 64, "%s: written were %zu bytes %s instead of the %zu bytes %s", why.c_str(), t.size(), quoted(t).c_str(), text.size(), quoted(text).c_str());
	}
	void state(const char *why) {
		long f = 0; bool s = false; for (auto &h : hs) { if (h.medium == LOG_MEDIUM_FILE) f++; s |= h.medium == LOG_MEDIUM_SYSLOG; }
		auto r = shim::res(); CHECK(c, r.files == f, "%s: %ld files are open although %ld are selected", why, r.files, f);
		CHECK(c, s || !shim::syslog_open(), "%s: syslog is still open although it is not selected", why);
		if (s && hs.size() == 1) CHECK(c, shim::syslog_open(), "%s: syslog is selected but not open", why);
	}
	void ident(H &h, const char *why) { // optional introduction at level info
		bool may = h.level >= LOG_LEVEL_INFO && h.medium != LOG_MEDIUM_NONE && !h.full; nothing_elsewhere(may ? h.medium : -1, h.file, why); if (!may) return;
		int prio; size_t n; std::string t = fresh(h.medium, h.file, &prio, &n); if (t.empty()) return;
		CHECK(c, t.find("OpenELP") != std::string::npos && t.size() < 200, "%s: unexpected text %s", why, quoted(t).c_str()); if (h.medium == LOG_MEDIUM_SYSLOG) CHECK(c, (prio & 7) == LOG_INFO, "%s: the introduction has syslog priority %d", why, prio);
	}
	std::string text(int lvl, std::string &fmt, int &shape, std::string &arg) {
		size_t n = c.chance(8) ? c.length(c.thorough ? 200000 : 20000, {0, 255, 256, 1023, 1024, 1025, 4095, 4096, 8191, 8192}) : c.draw(60); Bytes b = c.blob(n); arg.clear(); bool odd = c.chance(20);
		for (auto x : b) arg += odd ? (char)(1 + x % 255) : (char)(' ' + x % 95); shape = c.draw(6); return arg;
	}
	void emit(H &h, int lvl, int shape, const std::string &arg, bool v, std::string &out) {
		auto f = [&](const char *fmt, ...) {
			va_list a; va_start(a, fmt); va_list q; va_copy(q, a); int n = vsnprintf(nullptr, 0, fmt, q); va_end(q); out.resize(n + 1); va_copy(q, a); vsnprintf(&out[0], n + 1, fmt, q); va_end(q); out.resize(n);
			if (!h.proxy) { Console k; log_vprintf(&h.log, (LOG_LEVEL)lvl, fmt, a); } va_end(a);
		};
		#define BOTH(...) do { char *z = nullptr; if (h.proxy || !v) { int n = asprintf(&z, __VA_ARGS__); out.assign(z, n); ::free(z); Console k; if (h.proxy) proxy_log(&h.ph, (LOG_LEVEL)lvl, __VA_ARGS__); else log_printf(&h.log, (LOG_LEVEL)lvl, __VA_ARGS__); } else f(__VA_ARGS__); } while (0)
		switch (shape) {
		case 0: BOTH("%s\n", arg.c_str()); break;
		case 1: BOTH("Client '%s' supplied (%d): %08x %u\n", arg.c_str(), -lvl, 0xabcdu + lvl, 4000000000u); break;
		case 2: BOTH("100%% of %.*s", (int)(arg.size() / 2), arg.c_str()); break;
		case 3: BOTH("%-20s|%5d|%c|%lu|%zu\n", arg.c_str(), 42, 'x', 1234567890123ul, arg.size()); break;
		case 4: BOTH("line one\nline two %s\n\n", arg.c_str()); break;
		default: BOTH("%s", arg.c_str()); break;
		}
	}
	void open_handle(H &h) {
		if (h.proxy) { Console k; memset(&h.ph, 0, sizeof h.ph); int r = proxy_init(&h.ph); CHECK(c, r == 0, "proxy_init returned %d", r); }
		else { memset(&h.log, 0, sizeof h.log); int r = log_init(&h.log); CHECK(c, r == 0, "log_init returned %d", r); }
		h.medium = LOG_MEDIUM_NONE; h.level = LOG_LEVEL_INFO; h.full = false; h.file = -1;
	}
	void close_handle(H &h) { { Console k; if (h.proxy) proxy_free(&h.ph); else log_free(&h.log); } int m = h.full ? -1 : h.medium; h.medium = LOG_MEDIUM_NONE; h.full = false; nothing_elsewhere(h.proxy ? m : -1, h.file, "freeing"); if (h.proxy) { int p; size_t n; fresh(m, h.file, &p, &n); } } // a proxy reports its own end
};
}
static void init() { conpath = scratch_dir() + "/console"; }
static void run(Case &c) {
	shim::reset(); shim::ledger_forget(); shim::take_syslog(); Ctx x(c); truncate(conpath.c_str(), 0); { Console k; } truncate(conpath.c_str(), 0); shim::syslog_forget();
	int nf = 1 + c.draw(3), nh = c.chance(25) ? 2 : 1; auto base = shim::res();
	for (int i = 0; i < nf; i++) { Bytes b = c.chance(60) ? c.blob(c.draw(300)) : Bytes(); std::string p = scratch_file(strf("log%d", i), std::string(b.begin(), b.end())); x.files.push_back(p); x.want.push_back(std::string(b.begin(), b.end())); if (b.empty() && c.chance(50)) unlink(p.c_str()); }
	x.hs.resize(nh); for (auto &h : x.hs) { h.proxy = c.chance(40); x.open_handle(h); }
	{ H z; z.proxy = true; std::string o; Console k; proxy_log(&z.ph, LOG_LEVEL_FATAL, "%s", "nobody"); } x.nothing_elsewhere(-1, -1, "a message of an uninitialised proxy");
	c.note("%d log(s), %d files", nh, nf); int ops = 2 + c.draw(c.thorough ? 60 : 25);
	for (int op = 0; op < ops; op++) {
		int hi = c.draw(nh); H &h = x.hs[hi]; const char *kind = h.proxy ? "proxy" : "log";
		switch (c.weighted({14, 8, 4, 1, 1, 1})) {
		case 0: { int lvl = c.draw(5), shape; std::string fmt, arg, out; x.text(lvl, fmt, shape, arg); bool v = c.chance(30); x.emit(h, lvl, shape, arg, v, out); c.note("%s %d: %s message of %zu bytes in shape %d", kind, hi, LV[lvl], out.size(), shape); x.message(h, lvl, out, kind); break; }
		case 1: {
			int m = c.weighted({2, 4, 6, 4, 2}), file = -1; std::string target; int how = 0; // 0 ok, else why it must fail
			if (m == LOG_MEDIUM_FILE) { how = c.weighted({14, 2, 2, 1, 2}); file = c.draw(nf); target = x.files[file]; if (how == 1) target = scratch_dir(); if (how == 2) target = scratch_dir() + "/no/such/dir/log"; if (how == 3) target = ""; if (how == 4) target = "/dev/full"; }
			int err = 0; if (m == LOG_MEDIUM_FILE && how == 0 && c.chance(15)) { err = c.pick(std::vector<int>{EMFILE, ENFILE, EACCES, ENOMEM, ENOSPC}); how = 5; shim::fault(shim::K_FOPEN, 1, err); }
			char *t = strdup(target.c_str()); int r; { Console k; r = h.proxy ? proxy_log_select_medium(&h.ph, (LOG_MEDIUM)m, m == LOG_MEDIUM_FILE ? t : c.index & 1 ? t : nullptr) : log_select_medium(&h.log, (LOG_MEDIUM)m, m == LOG_MEDIUM_FILE ? t : c.index & 1 ? t : nullptr); } memset(t, 'X', target.size()); ::free(t); bool fired = shim::fault_fired(); shim::fault_clear();
			c.note("%s %d: from %s to %s %s -> %d", kind, hi, MD[h.medium], MD[m], m == LOG_MEDIUM_FILE ? quoted(target.substr(scratch_dir().size() < target.size() ? scratch_dir().size() : 0)).c_str() : "", r);
			bool bad = m == LOG_MEDIUM_EVENTLOG || how == 1 || how == 2 || how == 3 || (how == 5 && fired);
			if (bad) { CHECK(c, r < 0, "selecting %s %s returned %d", MD[m], err ? strerror(err) : target.c_str(), r); x.fails++; x.nothing_elsewhere(-1, -1, "a failed selection"); x.state("after a failed selection"); }
			else { CHECK(c, r == 0, "selecting %s returned %d", MD[m], r); h.medium = m; h.file = how == 4 ? -1 : file; h.full = m == LOG_MEDIUM_FILE && how == 4; x.switches++; x.ident(h, "after selecting a medium"); x.state("after selecting a medium"); }
			c.label("to %s%s", MD[m], bad ? " (fails)" : ""); break; }
		case 2: { h.level = c.draw(5); c.note("%s %d: threshold %s", kind, hi, LV[h.level]); if (h.proxy) proxy_log_level(&h.ph, (LOG_LEVEL)h.level); else h.log.level = h.level; break; }
		case 3: { if (h.proxy) { Console k; proxy_ident(&h.ph); } else { Console k; log_ident(&h.log); } c.note("%s %d: introduction", kind, hi); x.ident(h, "the introduction"); break; }
		case 4: if (!h.proxy) { bool cl = c.chance(50); int r = 0; { Console k; if (cl) log_close(&h.log); else r = log_open(&h.log); } c.note("log %d: %s", hi, cl ? "closed" : "opened"); CHECK(c, r == 0, "log_open returned %d", r); if (cl) { h.medium = LOG_MEDIUM_NONE; h.full = false; } else if (h.medium == LOG_MEDIUM_NONE) h.medium = LOG_MEDIUM_STDOUT; x.nothing_elsewhere(-1, -1, "opening or closing the log"); x.state(cl ? "after closing the log" : "after opening the log"); } break;
		case 5: { c.note("%s %d: freed and initialised again", kind, hi); x.close_handle(h); x.state("after freeing"); x.open_handle(h); break; }
		}
	}
	if (c.chance(15)) { // several threads log at once
		H &h = x.hs[0]; if (h.medium != LOG_MEDIUM_NONE && !h.full) {
			int nt = 2 + c.draw(2), per = 1 + c.draw(12), lvl = c.draw(5); size_t len = c.pick(std::vector<size_t>{10, 100, 1100, 5000}); std::vector<std::string> texts; c.note("%d threads with %d messages of about %zu bytes, level %s", nt, per, len, LV[lvl]);
			for (int t = 0; t < nt; t++) for (int i = 0; i < per; i++) texts.push_back(strf("<%d.%d.", t, i) + std::string(len, 'a' + t) + ">\n");
			{ Console k; std::vector<std::thread> th; for (int t = 0; t < nt; t++) th.emplace_back([&, t] { for (int i = 0; i < per; i++) { const char *s = texts[t * per + i].c_str(); if (h.proxy) proxy_log(&h.ph, (LOG_LEVEL)lvl, "%s", s); else log_printf(&h.log, (LOG_LEVEL)lvl, "%s", s); } }); for (auto &t : th) t.join(); }
			if (lvl > h.level) x.nothing_elsewhere(-1, -1, "suppressed messages of several threads");
			else if (h.medium == LOG_MEDIUM_SYSLOG) { auto v = shim::take_syslog(); CHECK(c, v.size() == texts.size(), "syslog received %zu of %zu messages", v.size(), texts.size()); std::multiset<std::string> a(texts.begin(), texts.end()), b; for (auto &s : v) { b.insert(s.text); CHECK(c, (s.prio & 7) == PRIO[lvl], "syslog priority %d", s.prio); } CHECK(c, a == b, "syslog received other messages"); }
			else { int p; size_t n; x.nothing_elsewhere(h.medium, h.file, "messages of several threads"); std::string t = x.fresh(h.medium, h.file, &p, &n); size_t total = 0; for (auto &s : texts) { size_t at = t.find(s); CHECK(c, at != std::string::npos, "a message of several threads is missing or not in one piece: %s", quoted(s, 40).c_str()); CHECK(c, t.find(s, at + 1) == std::string::npos, "a message appears twice"); total += s.size(); } CHECK(c, t.size() <= total + texts.size() * 64, "%zu bytes were written for %zu bytes of messages", t.size(), total); }
			c.label("threads"); }
	}
	for (auto &h : x.hs) x.close_handle(h); auto r = shim::res(); CHECK(c, r.files == 0 && !shim::syslog_open(), "after freeing: %ld files open, syslog %s", r.files, shim::syslog_open() ? "open" : "closed"); CHECK(c, r.blocks == base.blocks, "after freeing %ld blocks are left", r.blocks - base.blocks);
	for (int i = 0; i < nf; i++) CHECK(c, slurp(x.files[i]) == x.want[i], "the content of log file %d was changed", i);
	if (x.written && x.switches) c.nontrivial(); if (x.suppressed) c.label("suppressed"); if (x.fails) c.label("failed selection");
}
Property the_property = {"C21",
	"A case is 2-26 operations on one or two logs (the log functions or a proxy's): messages of five levels, six formats and 0 to 20000 bytes, threshold changes, switches between none, console, several files with earlier content, a full device, syslog and the unavailable event log, files that cannot be opened (injected errors, directories, missing paths), closing, reopening and freeing; sometimes several threads logging at once. After every operation the console (both streams captured), every file, syslog and the open files are compared with the model; a message must be there exactly once, with at most 64 bytes of timestamp before it. Non-trivial: a message was written after at least one switch.",
	init, run, 150000, 5000000, 30, {"the split of the console between stdout and stderr is not claimed", "the medium is switched by one thread only, as openelpd does"}};
