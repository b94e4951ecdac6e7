// Independent reference: written from RFC 7748, RFC 8032, FIPS 180-4 and FIPS 202
// only, on top of GMP integers.  Shares no code with /repo.
#pragma once
#include "common.hpp"
#include <gmpxx.h>
typedef mpz_class Z;
namespace ref {
// ---- integers -------------------------------------------------------------
inline Z from_le(const uint8_t *p, size_t n) { Z r; mpz_import(r.get_mpz_t(), n, -1, 1, 0, 0, p); return r; }
inline void to_le(const Z &z, uint8_t *p, size_t n) { memset(p, 0, n); Z t = z; if (sgn(t) < 0) abort();
  if (mpz_sizeinbase(t.get_mpz_t(), 2) > 8 * n && t != 0) abort(); size_t c; mpz_export(p, &c, -1, 1, 0, 0, t.get_mpz_t()); }
inline Z mod(const Z &a, const Z &m) { Z r; mpz_mod(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
inline Z powm(const Z &b, const Z &e, const Z &m) { Z r; mpz_powm(r.get_mpz_t(), b.get_mpz_t(), e.get_mpz_t(), m.get_mpz_t()); return r; }
inline Z invm(const Z &a, const Z &m) { Z r; if (!mpz_invert(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t())) return 0; return r; }
inline bool is_square(const Z &a, const Z &p) { return mpz_legendre(a.get_mpz_t(), p.get_mpz_t()) >= 0; }
// ---- SHA-2 (64-bit) ---------------------------------------------------------
struct Sha512 { uint64_t h[8]; uint8_t b[128]; size_t n; unsigned __int128 len;
  static const uint64_t *K() {  // first 64 bits of the fractional parts of cube roots of the first 80 primes
    static uint64_t k[80]; static bool init = false;
    if (!init) { int c = 0; for (int p = 2; c < 80; p++) { bool pr = true; for (int d = 2; d * d <= p; d++) if (p % d == 0) pr = false; if (!pr) continue;
        Z v = Z(p) << 192; Z r; mpz_root(r.get_mpz_t(), v.get_mpz_t(), 3); Z m = r & ((Z(1) << 64) - 1); uint8_t t[8]; to_le(m, t, 8); memcpy(&k[c++], t, 8); } init = true; }
    return k; }
  static void iv(uint64_t *o, bool s384) { int c = 0, idx = 0; for (int p = 2; c < 8; p++) { bool pr = true; for (int d = 2; d * d <= p; d++) if (p % d == 0) pr = false; if (!pr) continue;
      idx++; if (s384 && idx <= 8) continue; Z v = Z(p) << 128; Z r = sqrt(v); Z m = r & ((Z(1) << 64) - 1); uint8_t t[8]; to_le(m, t, 8); memcpy(&o[c++], t, 8); } }
  explicit Sha512(bool s384 = false) { static uint64_t i512[8], i384[8]; static bool init = false; if (!init) { iv(i512, false); iv(i384, true); init = true; }
    memcpy(h, s384 ? i384 : i512, 64); n = 0; len = 0; }
  void block(const uint8_t *p) { const uint64_t *k = K(); uint64_t w[80];
    for (int i = 0; i < 16; i++) { w[i] = 0; for (int j = 0; j < 8; j++) w[i] = (w[i] << 8) | p[8 * i + j]; }
    auto rr = [](uint64_t x, int c) { return (x >> c) | (x << (64 - c)); };
    for (int i = 16; i < 80; i++) w[i] = w[i - 16] + w[i - 7] + (rr(w[i - 15], 1) ^ rr(w[i - 15], 8) ^ (w[i - 15] >> 7)) + (rr(w[i - 2], 19) ^ rr(w[i - 2], 61) ^ (w[i - 2] >> 6));
    uint64_t v[8]; memcpy(v, h, 64);
    for (int i = 0; i < 80; i++) { uint64_t t1 = v[7] + (rr(v[4], 14) ^ rr(v[4], 18) ^ rr(v[4], 41)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + k[i] + w[i];
      uint64_t t2 = (rr(v[0], 28) ^ rr(v[0], 34) ^ rr(v[0], 39)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
      for (int j = 7; j > 0; j--) v[j] = v[j - 1]; v[4] += t1; v[0] = t1 + t2; }
    for (int i = 0; i < 8; i++) h[i] += v[i]; }
  void update(const uint8_t *p, size_t l) { len += l; while (l) { if (n == 0 && l >= 128) { block(p); p += 128; l -= 128; continue; }
      size_t t = std::min(l, 128 - n); memcpy(b + n, p, t); n += t; p += t; l -= t; if (n == 128) { block(b); n = 0; } } }
  // nbits (0..7) extra bits, taken from the high end of ub
  void final(uint8_t *out, size_t outlen, uint8_t ub = 0, unsigned nbits = 0) {
    unsigned __int128 bits = len * 8 + nbits; uint8_t pad[256]; size_t l = 0;
    pad[l++] = (uint8_t)((ub & (uint8_t)(0xFF00 >> nbits)) | (0x80 >> nbits)); while ((n + l) % 128 != 112) pad[l++] = 0;
    for (int i = 15; i >= 0; i--) pad[l++] = (uint8_t)(bits >> (8 * i));
    update(pad, l); for (size_t i = 0; i < outlen; i++) out[i] = (uint8_t)(h[i / 8] >> (56 - 8 * (i % 8))); }
};
// When set, digests are passed through this map: EdDSA and hash-to-curve over another
// hash oracle, one whose outputs are chosen to be arithmetic corner cases (hmap.hpp).
inline Bytes (*&hmap())(const Bytes &) { static Bytes (*f)(const Bytes &) = nullptr; return f; }
inline Bytes raw_sha512(const Bytes &m) { Sha512 s; s.update(m.data(), m.size()); Bytes o(64); s.final(o.data(), 64); return o; }
inline Bytes sha512(const Bytes &m) { Bytes o = raw_sha512(m); return hmap() ? hmap()(o) : o; }
// ---- Keccak -------------------------------------------------------------------
inline void keccakf(uint64_t *A) {
  static uint64_t RC[24]; static int rot[25]; static bool init = false;
  if (!init) { uint8_t r = 1; for (int i = 0; i < 24; i++) { RC[i] = 0; for (int j = 0; j <= 6; j++) { if (r & 1) RC[i] |= 1ull << ((1 << j) - 1); r = (uint8_t)((r << 1) ^ ((r >> 7) * 0x71)); } }
    int x = 1, y = 0; rot[0] = 0; for (int t = 0; t < 24; t++) { rot[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64; int ny = (2 * x + 3 * y) % 5; x = y; y = ny; } init = true; }
  for (int r = 0; r < 24; r++) { uint64_t C[5], D[5], B[25];
    for (int x = 0; x < 5; x++) C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
    for (int x = 0; x < 5; x++) { uint64_t q = C[(x + 1) % 5]; D[x] = C[(x + 4) % 5] ^ ((q << 1) | (q >> 63)); }
    for (int i = 0; i < 25; i++) A[i] ^= D[i % 5];
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) { uint64_t v = A[x + 5 * y]; int k = rot[x + 5 * y]; B[y + 5 * ((2 * x + 3 * y) % 5)] = k ? (v << k) | (v >> (64 - k)) : v; }
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) A[x + 5 * y] = B[x + 5 * y] ^ (~B[(x + 1) % 5 + 5 * y] & B[(x + 2) % 5 + 5 * y]);
    A[0] ^= RC[r]; }
}
// bit-granular sponge: nbits message bits (LSB-first inside bytes), then `suffix` (LSB first, sbits bits), then pad10*1
inline Bytes sponge(size_t rate, const uint8_t *m, uint64_t nbits, uint8_t suffix, int sbits, size_t outlen) {
  std::vector<uint8_t> bits; bits.reserve(nbits + 2000);
  for (uint64_t i = 0; i < nbits; i++) bits.push_back((m[i / 8] >> (i % 8)) & 1);
  for (int i = 0; i < sbits; i++) bits.push_back((suffix >> i) & 1);
  bits.push_back(1); while (bits.size() % (8 * rate) != 8 * rate - 1) bits.push_back(0); bits.push_back(1);
  uint64_t A[25] = {0}; uint8_t *S = (uint8_t *)A;
  for (size_t o = 0; o < bits.size(); o += 8 * rate) { for (size_t i = 0; i < 8 * rate; i++) S[i / 8] ^= (uint8_t)(bits[o + i] << (i % 8)); keccakf(A); }
  Bytes out; while (out.size() < outlen) { for (size_t i = 0; i < rate && out.size() < outlen; i++) out.push_back(S[i]); if (out.size() < outlen) keccakf(A); }
  return out;
}
inline Bytes sponge_bytes(size_t rate, const uint8_t *m, size_t n, uint8_t domain, size_t outlen) {
  uint64_t A[25] = {0}; uint8_t *S = (uint8_t *)A; size_t i = 0;
  for (; n - i >= rate; i += rate) { for (size_t j = 0; j < rate; j++) S[j] ^= m[i + j]; keccakf(A); }
  for (size_t j = 0; i + j < n; j++) S[j] ^= m[i + j];
  S[n - i] ^= domain; S[rate - 1] ^= 0x80; keccakf(A);
  Bytes out; while (out.size() < outlen) { for (size_t j = 0; j < rate && out.size() < outlen; j++) out.push_back(S[j]); if (out.size() < outlen) keccakf(A); }
  return out;
}
inline Bytes shake256(const Bytes &m, size_t outlen) { Bytes o = sponge_bytes(136, m.data(), m.size(), 0x1F, outlen); return hmap() ? hmap()(o) : o; }
// ---- Montgomery ladders (RFC 7748 section 5) -------------------------------------
inline const Z &p25519() { static Z p = (Z(1) << 255) - 19; return p; }
inline const Z &p448() { static Z p = (Z(1) << 448) - (Z(1) << 224) - 1; return p; }
inline Z ladder(const Z &p, unsigned bits, unsigned long a24, const Z &k, const Z &u) {
  Z x1 = u, x2 = 1, z2 = 0, x3 = u, z3 = 1, A, AA, B, BB, E, C, D, DA, CB; int swap = 0;
  mpz_t t; mpz_init(t);
  auto mm = [&](Z &r, const Z &a, const Z &b) { mpz_mul(t, a.get_mpz_t(), b.get_mpz_t()); mpz_mod(r.get_mpz_t(), t, p.get_mpz_t()); };
  for (int i = (int)bits - 1; i >= 0; i--) { int kt = mpz_tstbit(k.get_mpz_t(), i); swap ^= kt; if (swap) { std::swap(x2, x3); std::swap(z2, z3); } swap = kt;
    A = x2 + z2; mm(AA, A, A); B = x2 - z2; mm(BB, B, B); E = AA - BB; C = x3 + z3; D = x3 - z3; mm(DA, D, A); mm(CB, C, B);
    A = DA + CB; mm(x3, A, A); A = DA - CB; mm(A, A, A); mm(z3, x1, A); mm(x2, AA, BB); A = AA + E * a24; mm(z2, E, A); }
  if (swap) { std::swap(x2, x3); std::swap(z2, z3); }
  mpz_clear(t); return mod(x2 * powm(z2, p - 2, p), p);
}
inline Bytes x25519(const Bytes &k, const Bytes &u) { Bytes s = k, v = u; s[0] &= 248; s[31] &= 127; s[31] |= 64; v[31] &= 127;
  Z r = ladder(p25519(), 255, 121665, from_le(s.data(), 32), mod(from_le(v.data(), 32), p25519())); Bytes o(32); to_le(r, o.data(), 32); return o; }
inline Bytes x448(const Bytes &k, const Bytes &u) { Bytes s = k; s[0] &= 252; s[55] |= 128;
  Z r = ladder(p448(), 448, 39081, from_le(s.data(), 56), mod(from_le(u.data(), 56), p448())); Bytes o(56); to_le(r, o.data(), 56); return o; }
// ---- Edwards curves -----------------------------------------------------------------
struct Pt { Z X, Y, Zc, T; };
struct Curve {
  Z p, d, L, Bx, By; int a; unsigned cof_bits; size_t blen; bool is448; std::vector<Pt> pow2B;
  Z red(const Z &x) const { return mod(x, p); }
  Pt id() const { return Pt{0, 1, 1, 0}; }
  Pt aff(const Z &x, const Z &y) const { return Pt{x, y, 1, red(x * y)}; }
  // unified, complete addition (a=-1 with square -1, d nonsquare; a=1, d nonsquare)
  Pt add(const Pt &P, const Pt &Q) const { Z A = red(P.X * Q.X), B = red(P.Y * Q.Y), C = red(red(P.T * Q.T) * d), D = red(P.Zc * Q.Zc);
    Z E = red((P.X + P.Y) * (Q.X + Q.Y) - A - B), F = D - C, G = D + C, H = (a == 1) ? Z(B - A) : Z(B + A);
    return Pt{red(E * F), red(G * H), red(F * G), red(E * H)}; }
  Pt neg(const Pt &P) const { return Pt{red(-P.X), P.Y, P.Zc, red(-P.T)}; }
  Pt mul(const Z &k, const Pt &P) const { Pt r = id(); if (k == 0) return r; for (int i = (int)mpz_sizeinbase(k.get_mpz_t(), 2) - 1; i >= 0; i--) { r = add(r, r); if (mpz_tstbit(k.get_mpz_t(), i)) r = add(r, P); } return r; }
  Pt mulB(const Z &k) const { Pt r = id(); size_t n = k == 0 ? 0 : mpz_sizeinbase(k.get_mpz_t(), 2); for (size_t i = 0; i < n; i++) if (mpz_tstbit(k.get_mpz_t(), i)) r = add(r, pow2B[i]); return r; }
  void affine(const Pt &P, Z &x, Z &y) const { Z i = powm(P.Zc, p - 2, p); x = red(P.X * i); y = red(P.Y * i); }
  bool eq(const Pt &P, const Pt &Q) const { return red(P.X * Q.Zc - Q.X * P.Zc) == 0 && red(P.Y * Q.Zc - Q.Y * P.Zc) == 0; }
  bool onCurve(const Z &x, const Z &y) const { return red(a * x * x + y * y - 1 - red(d * x % p * x) * red(y * y)) == 0; }
  Bytes enc(const Pt &P) const { Z x, y; affine(P, x, y); Bytes o(blen); to_le(y, o.data(), blen); if (mpz_odd_p(x.get_mpz_t())) o[blen - 1] |= 0x80; return o; }
  // RFC 8032 5.1.3 / 5.2.3. returns false when decoding fails
  bool dec(const uint8_t *b, Pt &P) const { Bytes t(b, b + blen); int s = t[blen - 1] >> 7; t[blen - 1] &= 0x7F; Z y = from_le(t.data(), blen); if (y >= p) return false;
    Z y2 = red(y * y), u = red(y2 - 1), v = (a == 1) ? red(d * y2 - 1) : red(d * y2 + 1), x;
    // both curves: x^2 = u/v ; v is never 0
    Z w = red(u * powm(v, p - 2, p)); if (!is_square(w, p)) return false;
    if (is448) x = powm(w, (p + 1) / 4, p); else { x = powm(w, (p + 3) / 8, p); if (red(x * x) != w) x = red(x * powm(2, (p - 1) / 4, p)); }
    if (red(x * x) != w) abort();
    if (x == 0 && s) return false; if ((int)mpz_odd_p(x.get_mpz_t()) != s) x = red(-x); P = aff(x, y); return true; }
  void initB() { Pt q = aff(Bx, By); for (int i = 0; i < 460; i++) { pow2B.push_back(q); q = add(q, q); } }
};
inline const Curve &E25519() { static Curve c; static bool i = false; if (!i) { c.p = p25519(); c.a = -1; c.is448 = false; c.blen = 32; c.cof_bits = 3;
    c.d = mod(-121665 * invm(121666, c.p), c.p); c.L = (Z(1) << 252) + Z("27742317777372353535851937790883648493"); c.By = mod(4 * invm(5, c.p), c.p);
    Bytes e(32); to_le(c.By, e.data(), 32); Pt P; if (!c.dec(e.data(), P)) abort(); c.Bx = P.X; c.initB(); i = true; } return c; }
inline const Curve &E448() { static Curve c; static bool i = false; if (!i) { c.p = p448(); c.a = 1; c.is448 = true; c.blen = 57; c.cof_bits = 2; c.d = mod(Z(-39081), c.p);
    c.L = (Z(1) << 446) - Z("13818066809895115352007386748515426880336692474882178609894547503885");
    c.Bx = Z("224580040295924300187604334099896036246789641632564134246125461686950415467406032909029192869357953282578032075146446173674602635247710");
    c.By = Z("298819210078481492676017930443930673437544040154080242095928241372331506189835876003536878655418784733982303233503462500531545062832660"); c.initB(); i = true; } return c; }
// ---- EdDSA (RFC 8032) --------------------------------------------------------------
struct Mode { bool c448; bool dom; uint8_t phflag; };   // dom: dom2/dom4 prefix present
inline Bytes cat(std::initializer_list<Bytes> l) { Bytes r; for (auto &b : l) r.insert(r.end(), b.begin(), b.end()); return r; }
inline Bytes H(const Mode &m, const Bytes &in) { return m.c448 ? shake256(in, 114) : sha512(in); }
inline Bytes prefix(const Mode &m, const Bytes &ctx) { if (!m.dom) return Bytes();
  std::string s = m.c448 ? "SigEd448" : "SigEd25519 no Ed25519 collisions"; Bytes r(s.begin(), s.end()); r.push_back(m.phflag); r.push_back((uint8_t)ctx.size()); r.insert(r.end(), ctx.begin(), ctx.end()); return r; }
inline Bytes PH(const Mode &m, const Bytes &msg) { if (!m.phflag) return msg; return m.c448 ? shake256(msg, 64) : sha512(msg); }
inline const Curve &curve(const Mode &m) { return m.c448 ? E448() : E25519(); }
inline Z expand(const Mode &m, const Bytes &sk, Bytes &pre) { Bytes h = m.c448 ? shake256(sk, 114) : sha512(sk); size_t n = curve(m).blen; Bytes s(h.begin(), h.begin() + n); pre.assign(h.begin() + n, h.end());
  if (m.c448) { s[0] &= 252; s[55] |= 128; s[56] = 0; } else { s[0] &= 248; s[31] &= 127; s[31] |= 64; } return from_le(s.data(), n); }
inline Bytes keygen(const Mode &m, const Bytes &sk) { Bytes pre; Z s = expand(m, sk, pre); const Curve &c = curve(m); return c.enc(c.mulB(mod(s, c.L))); }
inline Bytes sign(const Mode &m, const Bytes &msg, const Bytes &ctx, const Bytes &pk, const Bytes &sk) { const Curve &c = curve(m); Bytes pre; Z s = expand(m, sk, pre); Bytes dom = prefix(m, ctx), ph = PH(m, msg);
  Bytes rh = H(m, cat({dom, pre, ph})); Z r = mod(from_le(rh.data(), rh.size()), c.L); Bytes Rb = c.enc(c.mulB(r));
  Bytes kh = H(m, cat({dom, Rb, pk, ph})); Z k = mod(from_le(kh.data(), kh.size()), c.L); Z S = mod(r + k * s, c.L); Bytes sb(c.blen); to_le(S, sb.data(), c.blen); return cat({Rb, sb}); }
enum Verdict { ACCEPT, BADKEY, BADSIG };
// cofactorless, canonical-only (RFC 8032 with S < L and canonical point decoding)
inline Verdict verify(const Mode &m, const Bytes &msg, const Bytes &ctx, const Bytes &pk, const Bytes &sig) { const Curve &c = curve(m); Pt A; bool keyok = c.dec(pk.data(), A);
  if (!keyok) return BADKEY; Z S = from_le(sig.data() + c.blen, c.blen); if (S >= c.L) return BADSIG;
  Bytes Rb(sig.begin(), sig.begin() + c.blen); Bytes kh = H(m, cat({prefix(m, ctx), Rb, pk, PH(m, msg)})); Z k = mod(from_le(kh.data(), kh.size()), c.L);
  return c.enc(c.add(c.mulB(S), c.mul(k, c.neg(A)))) == Rb ? ACCEPT : BADSIG; }
} // namespace ref
