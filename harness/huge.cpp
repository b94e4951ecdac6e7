// Length monitor: messages of up to 2^36 bytes.  The library is linked against a hash that depends
// on the exact length and content of its input but costs almost nothing for a sparse one: a digest
// is the hash of (total length, positions and values of the non-zero bytes).  Messages are windows of
// a zero-filled read-only mapping with a few marked bytes; the reference uses the same hash.
//   huge <eddsa|h2c>
#include "ref.hpp"
#include "faz_eddsa_avx2.h"
#include "faz_hash_avx2.h"
#include <functional>
extern "C" {
#include "sha512.h"
#include "sha3.h"
}
using namespace faz::eddsa; using namespace faz::hash;
Report R;
struct Log { uint64_t len = 0; std::vector<std::pair<uint64_t, uint8_t>> nz; };
static uint8_t *base; static uint64_t mapped; static std::map<uint64_t, uint8_t> marks;      // non-zero bytes of the mapping
static uint64_t biggest, chunks; static std::vector<Log> logs;
static void put(Log &l, const uint8_t *p, uint64_t n) { chunks++; biggest = std::max(biggest, n); if (n) { if (p >= base && p < base + mapped) { uint64_t o = p - base; for (auto i = marks.lower_bound(o); i != marks.end() && i->first - o < n; ++i) l.nz.push_back({l.len + (i->first - o), i->second}); } else for (uint64_t i = 0; i < n; i++) if (p[i]) l.nz.push_back({l.len + i, p[i]}); } l.len += n; }
static void put(Log &l, const Bytes &b) { put(l, b.data(), b.size()); }
static Bytes digest(const Log &l, size_t n) { Bytes s((uint8_t *)&l.len, (uint8_t *)&l.len + 8); for (auto &x : l.nz) { s.insert(s.end(), (uint8_t *)&x.first, (uint8_t *)&x.first + 8); s.push_back(x.second); } return ref::sponge_bytes(136, s.data(), s.size(), n == 64 ? 0x1f : 0x06, n); }
static size_t fresh() { logs.push_back(Log()); return logs.size() - 1; }
extern "C" {
static size_t gt(const void *c) { size_t i; memcpy(&i, c, 8); return i; } static void st(void *c, size_t i) { memcpy(c, &i, 8); }
void sph_sha384_init(void *c) { st(c, fresh()); } void sph_sha512_init(void *c) { st(c, fresh()); }
void sph_sha384(void *c, const void *d, size_t n) { Log l = logs.at(gt(c)); put(l, (const uint8_t *)d, n); logs.push_back(l); st(c, logs.size() - 1); }
void sph_sha512_close(void *c, void *o) { Bytes d = digest(logs.at(gt(c)), 64); memcpy(o, d.data(), 64); st(c, fresh()); } void sph_sha512_addbits_and_close(void *c, unsigned, unsigned, void *o) { sph_sha512_close(c, o); }
void sha512_2w_avx(uint8_t *m[2], size_t n, uint8_t *o[2]) { for (int i = 0; i < 2; i++) { Log l; put(l, m[i], n); Bytes d = digest(l, 64); memcpy(o[i], d.data(), 64); } }
HashReturn Init(hashState *s, int) { st(s, fresh()); return SUCCESS; } HashReturn Update(hashState *s, const BitSequence *d, DataLength nb) { Log l = logs.at(gt(s)); put(l, d, nb / 8); logs.push_back(l); st(s, logs.size() - 1); return SUCCESS; }
HashReturn Final2(hashState *s, BitSequence *o, unsigned n) { Bytes d = digest(logs.at(gt(s)), n); memcpy(o, d.data(), n); return SUCCESS; } HashReturn Final(hashState *s, BitSequence *o) { return Final2(s, o, 64); }
HashReturn Hash2(int, const BitSequence *d, DataLength nb, BitSequence *o, unsigned n) { Log l; put(l, d, nb / 8); Bytes r = digest(l, n); memcpy(o, r.data(), n); return SUCCESS; } HashReturn SHAKE256(const BitSequence *d, DataLength nb, BitSequence *o, unsigned n) { return Hash2(0, d, nb, o, n); }
}
static size_t hl(const ref::Mode &m) { return m.c448 ? 114 : 64; }
static Bytes Hh(const ref::Mode &m, std::initializer_list<Bytes> pre, const uint8_t *msg, uint64_t n, bool with) { Log l; for (auto &b : pre) put(l, b); if (with) { if (m.phflag) { Log q; put(q, msg, n); put(l, digest(q, 64)); } else put(l, msg, n); } return digest(l, hl(m)); }
static Z hexpand(const ref::Mode &m, const Bytes &sk, Bytes &pre) { Bytes h = Hh(m, {sk}, 0, 0, false); size_t n = m.c448 ? 57 : 32; Bytes s(h.begin(), h.begin() + n); pre.assign(h.begin() + n, h.end()); if (m.c448) { s[0] &= 252; s[55] |= 128; s[56] = 0; } else { s[0] &= 248; s[31] &= 127; s[31] |= 64; } return ref::from_le(s.data(), n); }
static Bytes rsign(const ref::Mode &m, const uint8_t *msg, uint64_t n, const Bytes &ctx, const Bytes &pk, const Bytes &sk) { const ref::Curve &c = ref::curve(m); Bytes pre; Z s = hexpand(m, sk, pre); Bytes dom = ref::prefix(m, ctx); Bytes rh = Hh(m, {dom, pre}, msg, n, true); Z r = ref::mod(ref::from_le(rh.data(), rh.size()), c.L); Bytes Rb = c.enc(c.mulB(r)); Bytes kh = Hh(m, {dom, Rb, pk}, msg, n, true); Z k = ref::mod(ref::from_le(kh.data(), kh.size()), c.L), S = ref::mod(r + k * s, c.L); Bytes sb(c.blen); ref::to_le(S, sb.data(), c.blen); return ref::cat({Rb, sb}); }
static uint64_t glen(uint64_t &off) { Rng &g = R.rng; static const unsigned K[] = {12, 16, 20, 24, 28, 29, 30, 31, 32, 32, 32, 33, 34, 35, 36}; uint64_t n = (1ull << K[g.below(15)]); switch (g.below(4)) { case 0: n += g.below(70); break; case 1: n -= g.below(70); break; case 2: n += g.below(n); break; default: n += (1ull << g.below(20)); } off = 16384 + g.below(64); if (n > mapped - 65536) n = mapped - 65536 - g.below(100); return n; }
struct Sg { const char *nm; ref::Mode m; SignCtx sign; VerifyCtx verify; };
static int ps(uint8_t *s, const uint8_t *m, uint64_t l, const uint8_t *, uint64_t, uint8_t *pk, uint8_t *sk) { return Ed25519.Pure.sign(s, m, l, pk, sk); }
static int pv(const uint8_t *m, uint64_t l, const uint8_t *, uint64_t, uint8_t *pk, uint8_t *s) { return Ed25519.Pure.verify(m, l, pk, s); }
static void run_eddsa() { Rng &g = R.rng; Sg S[5] = {{"Ed25519", {false, false, 0}, (SignCtx)ps, (VerifyCtx)pv}, {"Ed25519ctx", {false, true, 0}, Ed25519.Context.sign, Ed25519.Context.verify}, {"Ed25519ph", {false, true, 1}, Ed25519.PreHash.sign, Ed25519.PreHash.verify}, {"Ed448", {true, true, 0}, Ed448.PureContext.sign, Ed448.PureContext.verify}, {"Ed448ph", {true, true, 1}, Ed448.PreHash.sign, Ed448.PreHash.verify}};
  uint64_t n = R.n(2400, 40000); for (uint64_t it = 0; it < n; it++) for (auto &s : S) { size_t nk = s.m.c448 ? 57 : 32; logs.clear(); uint64_t off, len = glen(off); uint8_t *msg = base + off; Bytes sk = g.bytes(nk), ctx = s.m.dom ? g.bytes(g.below(40)) : Bytes(); Bytes pre; Z sc = hexpand(s.m, sk, pre); const ref::Curve &c = ref::curve(s.m); Bytes pk = c.enc(c.mulB(ref::mod(sc, c.L)));
      Bytes sig(2 * nk), want = rsign(s.m, msg, len, ctx, pk, sk); std::string d = std::string("length=") + std::to_string(len) + " offset=" + std::to_string(off) + " sk=" + hexs(sk) + " ctx=" + hexs(ctx); R.op("sign"); int rc = s.sign(sig.data(), msg, len, ctx.data(), ctx.size(), pk.data(), sk.data()); if (rc != EDDSA_SIGNATURE_OK || sig != want) R.fail(std::string(s.nm) + ".sign.length", d + " rc=" + std::to_string(rc)); R.eval((std::string("sign ") + s.nm).c_str(), len * 64 + off);
      R.op("verify"); rc = s.verify(msg, len, ctx.data(), ctx.size(), pk.data(), want.data()); if (rc != EDDSA_VERIFICATION_OK) R.fail(std::string(s.nm) + ".verify.length", "valid signature refused: " + d + " rc=" + std::to_string(rc)); R.eval((std::string("verify ") + s.nm).c_str(), len * 64 + off);
      // another length or another window: never accepted
      uint64_t l2 = len, o2 = off; switch (g.below(4)) { case 0: l2 = len ^ (1ull << (g.below(5) + 28)); break; case 1: l2 = len - 1 - g.below(3); break; case 2: l2 = len & 0xffffffff; break; default: o2 = off + 1; } if (l2 > mapped - 65536 || (l2 == len && o2 == off)) { l2 = len - 1; o2 = off; } Log a, b; put(a, msg, len); put(b, base + o2, l2); if (a.len == b.len && a.nz == b.nz) continue; R.op("verify"); rc = s.verify(base + o2, l2, ctx.data(), ctx.size(), pk.data(), want.data()); if (rc == EDDSA_VERIFICATION_OK) R.fail(std::string(s.nm) + ".verify.otherlength", "accepted for length=" + std::to_string(l2) + " offset=" + std::to_string(o2) + ": " + d); R.eval((std::string("verify_other_length ") + s.nm).c_str(), l2 * 64 + o2); if (it < 1) R.sample(std::string(s.nm) + " " + d); } }
static void run_h2c() { Rng &g = R.rng; uint64_t n = R.n(6000, 60000); const ref::Curve &c = ref::E25519(); (void)c; for (uint64_t it = 0; it < n; it++) { logs.clear(); uint64_t off, len = glen(off); uint8_t *msg = base + off; std::string d = "length=" + std::to_string(len) + " offset=" + std::to_string(off); Bytes o[2];
      // each half is hash-to-field of (prefix byte, message); map the reference digests with the library's own map on a short stand-in: what is checked here is the length, the map itself is checked elsewhere
      for (int p = 0; p < 2; p++) { Log l; uint8_t b = (uint8_t)p; put(l, &b, 1); put(l, msg, len); Bytes dg = digest(l, 64); ALIGN uint64_t u[4]; R.op("hash_to_field"); hash_to_field(u, (uint8_t)p, msg, len); Z v = ref::mod(ref::from_le((uint8_t *)u, 32), ref::E25519().p), w = ref::mod(ref::mod(ref::from_le(dg.data(), 64), ref::E25519().L), ref::E25519().p); if (v != w) R.fail("hash_to_field.length", d + " prefix=" + std::to_string(p)); R.eval("hash_to_field", len * 64 + off); } if (it < 2) R.sample(d); } }
int main(int argc, char **argv) { std::map<std::string, std::string> opt; parse_args(argc, argv, opt); install_handlers(); unsigned top = 37; do { mapped = (1ull << top) + (1 << 20); base = (uint8_t *)mmap(0, mapped, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); } while (base == MAP_FAILED && --top > 33); if (base == MAP_FAILED) { printf("cannot map\n"); return 3; }
  Rng &g = R.rng; for (unsigned k = 0; k < top; k++) for (int i = 0; i < 3; i++) { uint64_t o = (1ull << k) + 16384 + g.below(64) - 8; if (i == 2) o = (1ull << k) + g.below(1ull << k); uint8_t v = (uint8_t)(1 + g.below(255)); base[o] = v; marks[o] = v; } base[16384] = 7; marks[16384] = 7; mprotect(base, mapped, PROT_READ);
  std::string c = opt["cmd"]; if (c == "eddsa") run_eddsa(); else if (c == "h2c") run_h2c(); else return 2; R.classes["largest_chunk_hashed_log2"] = 63 - __builtin_clzll(biggest | 1); R.classes["hash_update_calls"] = chunks; R.finish(); return 0; }
