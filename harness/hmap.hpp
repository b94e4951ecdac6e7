// Adversarial hash oracle.  With this header a driver replaces the SHA-512 and SHAKE256 the
// library is linked against by H'(x) = map(H(x)), where map turns digests into arithmetic
// corner cases (multiples of the group order, all ones, runs of 0/1 limbs, powers of two).
// The reference uses the same H', so every verdict stays exact: the scheme is EdDSA (or
// hash-to-curve) instantiated with another hash.  It drives scalar reduction, scalar
// recoding and point multiplication through operands that no message found by chance reaches.
#pragma once
#include "ref.hpp"
#include <map>
extern "C" {
#include "sha512.h"
#include "sha3.h"
}
namespace hm {
static uint64_t nmapped = 0;
static std::vector<Z> special;   // residues modulo the order to favour (hash-to-curve)
static Z mult_order(Rng &g, const Z &L, size_t nbytes) { Z lim = Z(1) << (unsigned)(8 * nbytes); Z q = lim / L - 2; Bytes b = g.bytes(nbytes); Z m = ref::from_le(b.data(), nbytes);
  switch (g.below(4)) { case 0: m = (long)g.below(20); break; case 1: m = q - (long)g.below(20); break; case 2: m = ref::mod(Z(1) << (unsigned)g.below(8 * nbytes), q); break; default: m = ref::mod(m, q); }
  Z v = m * L; long d = (long)g.below(9) - 4; switch (g.below(4)) { case 0: break; case 1: v += d; break; case 2: v += (Z(1) << (unsigned)g.below(256)); break; default: v -= (Z(1) << (unsigned)g.below(256)); } return ref::mod(v, lim); }
static std::map<Bytes, Bytes> over;   // outputs fixed in advance for given digests
// words: each digest has its own rate of extreme words
static Z words(Rng &g, size_t nw) { Z v = 0; unsigned rate = (unsigned)g.below(8); for (size_t i = 0; i < nw; i++) { uint64_t w = g.u64(); if (g.below(8) <= rate) switch (g.below(8)) { case 0: case 1: case 2: w = 0; break; case 3: case 4: w = ~0ull; break; case 5: w = g.below(4); break; case 6: w = ~g.below(4); break; default: w = 1ull << g.below(64); } v = (v << 64) + Z((unsigned long)(w >> 32)) * Z(4294967296ul) + Z((unsigned long)(w & 0xffffffffu)); } return v; }
// a multiple of (a small multiple of) the order with extreme words, plus a rest with extreme words
static Z order_plus(Rng &g, const Z &L, size_t n, size_t ordw) { Z lim = Z(1) << (unsigned)(8 * n), M = L << (unsigned)g.below(8); size_t kw = g.below((n + 7) / 8 - ordw + 1); Z K = kw ? words(g, kw) : Z((long)g.below(4)); Z T = words(g, 1 + g.below(ordw)); if (g.chance(1, 4)) T = -T; return ref::mod(K * M + T, lim); }
static Bytes map(const Bytes &d) { nmapped++; if (!over.empty()) { auto it = over.find(d); if (it != over.end()) return it->second; } size_t n = d.size(); Rng g; g.seed(fnv(d.data(), n)); Z v; Bytes o(n); bool is448 = n == 114; const Z &L = is448 ? ref::E448().L : ref::E25519().L;
  if (!special.empty() && g.chance(2, 3)) { Z lim = Z(1) << (unsigned)(8 * n); Z q = lim / L - 1; Bytes b = g.bytes(n); v = ref::mod(ref::from_le(b.data(), n), q); if (g.chance(1, 3)) v = (long)g.below(3); v = v * L + special[g.below(special.size())]; ref::to_le(v, o.data(), n); return o; }
  switch (g.below(13)) { case 0: return d; case 8: v = ref::mod(words(g, (n + 7) / 8), Z(1) << (unsigned)(8 * n)); ref::to_le(v, o.data(), n); break; case 9: case 10: case 11: v = order_plus(g, L, n, is448 ? 7 : 4); ref::to_le(v, o.data(), n); break; case 1: { uint8_t b = (uint8_t)(g.chance(1, 2) ? (g.chance(1, 2) ? 0 : 255) : g.u64()); std::fill(o.begin(), o.end(), b); break; }
    case 2: case 3: ref::to_le(mult_order(g, L, n), o.data(), n); break;
    case 4: { for (size_t i = 0; i < n; i += 8) { uint64_t w; switch (g.below(6)) { case 0: w = 0; break; case 1: w = ~0ull; break; case 2: w = 1; break; case 3: w = 1ull << 63; break; case 4: w = ~(1ull << 63); break; default: w = g.u64(); } memcpy(&o[i], &w, std::min<size_t>(8, n - i)); } break; }
    case 5: { unsigned a = (unsigned)g.below(8 * n), b = (unsigned)g.below(8 * n); v = ref::mod((Z(1) << a) - (Z(1) << b), Z(1) << (unsigned)(8 * n)); ref::to_le(v, o.data(), n); break; }
    case 6: { v = ref::mod(Z((long)g.below(64)) - 32, Z(1) << (unsigned)(8 * n)); ref::to_le(v, o.data(), n); break; }
    case 7: { // value below 2^253 (or 2^447) placed in the low part, whatever the high part
      Z lo = mult_order(g, L, is448 ? 56 : 32); ref::to_le(lo, o.data(), n); break; }
    default: { // nibble runs, for the recoding carries
      uint8_t pat[6] = {0x88, 0x77, 0x80, 0x08, 0x78, 0x87}; for (auto &x : o) x = g.chance(1, 12) ? (uint8_t)g.u64() : pat[0]; uint8_t p = pat[g.below(6)]; for (auto &x : o) if (x == 0x88) x = p; break; } }
  return o; }
// message logs: a context stores only an index, so copying a context is safe
static std::vector<Bytes> logs;
static void reset() { logs.clear(); logs.push_back(Bytes()); }
static size_t append(size_t id, const uint8_t *p, size_t n) { Bytes b = id < logs.size() ? logs[id] : Bytes(); if (n) b.insert(b.end(), p, p + n); logs.push_back(std::move(b)); return logs.size() - 1; }
} // namespace hm
extern "C" {
// A context is a plain struct of at least 200 bytes in both hashes: the index goes in front.
static size_t hm_get(const void *c) { size_t i; memcpy(&i, c, 8); return i; }
static void hm_set(void *c, size_t i) { memcpy(c, &i, 8); }
void sph_sha384_init(void *cc) { hm_set(cc, hm::append(0, 0, 0)); }
void sph_sha512_init(void *cc) { if (hm::logs.empty()) hm::reset(); hm_set(cc, hm::append(0, 0, 0)); }
void sph_sha384(void *cc, const void *data, size_t len) { hm_set(cc, hm::append(hm_get(cc), (const uint8_t *)data, len)); }
void sph_sha512_close(void *cc, void *dst) { Bytes d = ref::sha512(hm::logs.at(hm_get(cc))); memcpy(dst, d.data(), 64); sph_sha512_init(cc); }
void sha512_2w_avx(uint8_t *m[2], size_t n, uint8_t *out[2]) { Bytes d[2]; for (int i = 0; i < 2; i++) d[i] = ref::sha512(Bytes(m[i], m[i] + n)); for (int i = 0; i < 2; i++) memcpy(out[i], d[i].data(), 64); }
void sph_sha512_addbits_and_close(void *cc, unsigned, unsigned, void *dst) { sph_sha512_close(cc, dst); }
HashReturn Init(hashState *s, int) { if (hm::logs.empty()) hm::reset(); hm_set(s, hm::append(0, 0, 0)); return SUCCESS; }
HashReturn Update(hashState *s, const BitSequence *d, DataLength nb) { hm_set(s, hm::append(hm_get(s), d, nb / 8)); return SUCCESS; }
HashReturn Final2(hashState *s, BitSequence *out, unsigned n) { Bytes d = ref::shake256(hm::logs.at(hm_get(s)), n); memcpy(out, d.data(), n); return SUCCESS; }
HashReturn Final(hashState *s, BitSequence *out) { return Final2(s, out, 64); }
HashReturn Hash2(int, const BitSequence *d, DataLength nb, BitSequence *out, unsigned n) { Bytes r = ref::shake256(Bytes(d, d + nb / 8), n); memcpy(out, r.data(), n); return SUCCESS; }
HashReturn SHAKE256(const BitSequence *d, DataLength nb, BitSequence *out, unsigned n) { Bytes r = ref::shake256(Bytes(d, d + nb / 8), n); memcpy(out, r.data(), n); return SUCCESS; }
}
