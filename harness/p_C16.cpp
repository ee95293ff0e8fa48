// C16: digests, hex and password responses match the specification
#include "common.hpp"
#include <sys/mman.h>
extern "C" {
#include "digest.h"
#include "md5.h"
}
static void ref_selftest(Case &c) {
	static const std::pair<const char *, const char *> t[] = {{"", "D41D8CD98F00B204E9800998ECF8427E"}, {"a", "0CC175B9C0F1B6A831C399E269772661"}, {"message digest", "F96B697D7CB7938D525A2F31AAF161D0"}, {"12345678901234567890123456789012345678901234567890123456789012345678901234567890", "57EDF4A22BE3C955AC49DA2E2107B67A"}};
	for (auto &x : t) CHECK(c, md5_hex_upper(x.first) == x.second, "harness: reference MD5 is wrong");
}
static std::string hexu(const uint8_t *d) { std::string o; for (int i = 0; i < 16; i++) o += strf("%02X", d[i]); return o; }
static void run(Case &c) {
	static bool once = false; if (!once) { ref_selftest(c); once = true; }
	int kind = c.fixed(2, c.index % 40000 == 39) ? 5 : c.weighted({10, 8, 4, 4, 10});
	uint8_t d[16 + 8]; memset(d, 0xA5, sizeof d);
	switch (kind) {
	case 0: { size_t n = c.chance(60) ? c.draw(200) : c.length(c.thorough ? 300000 : 20000, {0, 1, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 4096}); Bytes raw = c.blob(n + 8); size_t off = c.draw(8); if (c.chance(10)) std::fill(raw.begin(), raw.end(), c.chance(50) ? 0 : 255);
		c.note("digest of %zu bytes at offset %zu", n, off); Bytes exact(raw.begin() + off, raw.begin() + off + n); uint8_t *heap = (uint8_t *)malloc(n + off + 1) ; if (n) memcpy(heap + off, exact.data(), n); heap = (uint8_t *)realloc(heap, n + off + (n + off == 0)); // exact end: overreads are seen
		digest_get(heap + off, n, d); ::free(heap); uint8_t want[16]; md5(exact.data(), n, want); CHECK(c, !memcmp(d, want, 16), "digest of %zu bytes is %s instead of %s", n, hexu(d).c_str(), hexu(want).c_str()); CHECK(c, d[16] == 0xA5, "written past the digest"); if (n > 1) c.nontrivial(); break; }
	case 1: { size_t n = c.chance(60) ? c.draw(400) : c.length(c.thorough ? 300000 : 20000, {0, 55, 56, 63, 64, 65, 128, 4096}); Bytes b = c.blob(n); MD5_CTX x; MD5_Init(&x); size_t o = 0; int pieces = 0; std::string s;
		while (o < n || (pieces < 40 && c.chance(10))) { size_t left = n - o, k = c.weighted({4, 4, 3, 2}); k = k == 0 ? c.draw(left + 1) : k == 1 ? c.draw(std::min<size_t>(left, 70) + 1) : k == 2 ? std::min<size_t>(left, c.pick(std::vector<size_t>{1, 63, 64, 65, 128, 55, 56, 8})) : left; if (pieces > 60) k = left; uint8_t *t = (uint8_t *)malloc(k ? k : 1); if (k) memcpy(t, b.data() + o, k); MD5_Update(&x, t, k); ::free(t); o += k; pieces++; if (s.size() < 200) s += strf(" %zu", k); }
		MD5_Final(d, &x); c.note("%zu bytes in pieces:%s", n, s.c_str()); uint8_t want[16]; md5(b.data(), n, want); CHECK(c, !memcmp(d, want, 16), "MD5 of %zu bytes in %d pieces is %s instead of %s", n, pieces, hexu(d).c_str(), hexu(want).c_str()); CHECK(c, d[16] == 0xA5, "written past the digest"); if (pieces > 1) c.nontrivial(); break; }
	case 2: { uint32_t v = c.chance(40) ? c.pick(std::vector<uint32_t>{0, 1, 0xffffffffu, 0x80000000u, 0x7fffffff, 0x0a0b0c0d, 0x9abcdef0u, 0xff, 0xff00, 0x0f0f0f0f}) : (uint32_t)c.bits(32); char h[12]; memset(h, '#', 12); digest_to_hex32(v, h); c.note("hex of %08x", v); CHECK(c, std::string(h, 8) == strf("%08x", v), "hex of %u is %s", v, quoted(std::string(h, 8)).c_str()); CHECK(c, h[8] == '#', "written past 8 digits");
		std::string s(h, 8); for (char &ch : s) if (c.chance(50)) ch = toupper(ch); CHECK(c, hex32_to_digest(std::vector<char>(s.begin(), s.end()).data()) == v, "%s converts to %08x", s.c_str(), hex32_to_digest(s.data())); c.nontrivial(); break; }
	case 3: { Bytes b = c.blob(16); char *s = (char *)malloc(33); memset(s, '#', 33); digest_to_str(b.data(), s); std::string want = hexu(b.data()); CHECK(c, s[32] == 0, "the text of a digest is not terminated"); CHECK(c, want == s, "the text of a digest is %s instead of %s", s, want.c_str()); ::free(s); c.nontrivial(); break; }
	case 4: { std::string pw = gen_password(c, c.thorough ? 5000 : 600); uint32_t v = c.chance(30) ? c.pick(std::vector<uint32_t>{0, 1, 0xffffffffu, 0x80000000u, 0x7fffffff, 0xabcdef01u}) : (uint32_t)c.bits(32); c.note("response to %08x for %s", v, quoted(pw).c_str()); char *p = strdup(pw.c_str()); int r = get_password_response(v, p, d); ::free(p); CHECK(c, r == 0, "get_password_response returned %d", r); auto want = response_for(strf("%08x", v), pw); CHECK(c, !memcmp(d, want.data(), 16), "the response is %s instead of %s", hexu(d).c_str(), hexu(want.data()).c_str()); CHECK(c, d[16] == 0xA5, "written past the response"); c.nontrivial(); break; }
	default: { // message lengths around 2^32 bits; expected values from md5sum
		static const std::pair<uint64_t, const char *> t[] = {{536870912ull, "aa559b4e3523a6c931f08f4df52d58f2"}, {536870911ull, "c6c4834a7b0928878ad48c867a1e24d6"}, {536870969ull, "0ccd318f88830d9d2aaa95e416efd8b8"}, {805306427ull, "8d097948ce540a5aabc0a46c4582e952"}, {1073741881ull, "d69fb224de774dc095b60d2e9062eab5"}};
		auto &x = t[c.fixed(sizeof t / sizeof *t, c.index / 40000 % (sizeof t / sizeof *t))]; uint64_t n = x.first, o = 0; static void *z = mmap(nullptr, (1ull << 30) + 4096, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); MD5_CTX m; MD5_Init(&m); uint64_t cuts[3] = {c.bits(29) % n, 1 + c.bits(20), n}; int k = 0;
		while (o < n) { uint64_t s = std::min(n - o, cuts[k++ % 3]); MD5_Update(&m, z, s); o += s; } MD5_Final(d, &m); c.note("%llu zero bytes", (unsigned long long)n); std::string want = upper_ascii(x.second); CHECK(c, hexu(d) == want, "MD5 of %llu zero bytes is %s instead of %s", (unsigned long long)n, hexu(d).c_str(), want.c_str()); c.nontrivial(); c.label("over 2^32 bits"); break; }
	}
	static const char *names[] = {"digest", "pieces", "hex32", "digest text", "password response", "huge"}; c.label("%s", names[kind]);
}
Property the_property = {"C16",
	"A case is one of: the digest of 0 to 20000 generated bytes at any alignment in an exactly sized block; the same supplied in random pieces (also empty, 1, 55, 56, 63-65 bytes); a 32-bit value to hex and back in random letter case; a digest to text; the response for a random challenge and password (all bytes, long); about 2^32 bits of zeros in random pieces. Oracle: an independent RFC 1321 implementation checked against the RFC's test vectors (md5sum for the huge ones), printf, exact output bounds. Non-trivial: all but inputs of 0 or 1 byte or a single piece.",
	nullptr, run, 240000, 8000000, 120, {"non-hexadecimal input to hex32_to_digest is unspecified"}};
