// Choice-sequence property-based testing engine.
//
// A test case is a sequence of bounded integer draws.  The draws come from a
// PRNG seeded by (VERIF_SEED, property, case index), from a replay file, or
// (coverage-guided campaigns) from fuzzer bytes.  Because a case is nothing but
// its draws, every failure is shrunk generically (delete / zero / lower draws)
// and replays exactly.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

struct CaseFail { std::string msg; };
struct CaseDiscard { std::string why; };

typedef std::vector<uint8_t> Bytes;

class Case {
public:
	enum Mode { RANDOM, REPLAY, FUZZ };
	Mode mode = RANDOM;
	uint64_t rng[2] = {1, 2};
	std::vector<uint64_t> in;          // REPLAY
	size_t pos = 0;
	const uint8_t *fz = nullptr;       // FUZZ
	size_t fzlen = 0;
	uint64_t index = 0;
	bool thorough = false;
	bool nontriv = false;

	// ---- draws
	uint64_t draw(uint64_t n);                       // [0,n)
	uint64_t fixed(uint64_t n, uint64_t v);          // v in a random case (recorded like a draw), so that strata can follow the case number
	int64_t range(int64_t lo, int64_t hi);           // inclusive
	bool chance(unsigned percent);                   // shrinks to false
	uint64_t bits(unsigned nbits);
	template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }
	int weighted(std::initializer_list<unsigned> w); // index
	Bytes blob(size_t len);                          // pseudo-random content from one draw
	size_t length(size_t max, std::initializer_list<size_t> edges);

	// ---- reporting
	void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	void label(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	void nontrivial() { nontriv = true; }
	[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	[[noreturn]] void discard(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
private:
	void rec(uint64_t v);
};

#define CHECK(c, cond, ...) do { if (!(cond)) (c).fail(__VA_ARGS__); } while (0)

// a genuine defect that is recorded, not repaired: one fixed history; true = it still shows
struct Finding { const char *key, *what; bool (*shows)(Case &); };

struct Property {
	const char *id;
	const char *rule;              // how cases are made and what is non-trivial
	void (*init)();                // once per worker process (may be null)
	void (*run)(Case &);           // one case
	uint64_t quick_cases;
	uint64_t thorough_cases;
	double case_timeout_s;         // beyond this the case counts as hung
	std::vector<std::string> assumptions;
	std::vector<Finding> findings = {};
};
extern Property the_property;      // defined by each property's file

std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string hex(const void *p, size_t n, size_t max = 48);
std::string quoted(const std::string &s, size_t max = 80);
uint64_t mono_ns();
uint64_t mix64(uint64_t x);
std::string scratch_dir();         // private directory of this worker process
extern int g_worker_no;            // number of this worker process
