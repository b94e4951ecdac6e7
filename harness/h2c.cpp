// Online monitor of hash-to-curve: both implementations against an independent
// evaluation (GMP) of  clear_cofactor(map(u0) + map(u1)),  u_i = SHA-512(i || msg) mod order,
// where map is Elligator 2 into edwards25519.
//   h2c hash   messages through h2c25519_x64 / h2c25519_avx2
//   h2c map    map_to_curve / map_to_curve_2w / point addition on chosen field elements
//   h2c pred   isOnCurve / areEqual / print_point on chosen coordinate pairs
// Built with -DHMAP the digests are adversarial (hmap.hpp).
#include "ref.hpp"
#ifdef HMAP
#include "hmap.hpp"
#define HRESET() hm::reset()
#else
#define HRESET() (void)0
#endif
#include "faz_hash_avx2.h"
using namespace faz::hash;
using namespace faz::fp;
Report R;
static const ref::Curve &E() { return ref::E25519(); }
static const Z &P_() { return ref::p25519(); }
static Z rd(const Z &x) { return ref::mod(x, P_()); }
static Z inv(const Z &x) { return ref::powm(rd(x), P_() - 2, P_()); }
static bool sqrt_p(const Z &a, Z &r) { Z w = rd(a); if (!ref::is_square(w, P_())) return false; r = ref::powm(w, (P_() + 3) / 8, P_()); if (rd(r * r) != w) r = rd(r * ref::powm(2, (P_() - 1) / 4, P_())); return rd(r * r) == w; }
static const Z &c1() { static Z c; static bool i = false; if (!i) { sqrt_p(Z(-486664), c); if (mpz_odd_p(c.get_mpz_t())) c = rd(-c); i = true; } return c; }

// Elligator 2 for curve25519 (Z = 2), then the birational map to edwards25519
static ref::Pt ref_map(const Z &u, std::string *cls = 0) { const Z A = 486662; Z t = rd(2 * u * u), x1 = rd(-A * inv(1 + t)), gx = rd(rd(x1 * x1 + A * x1 + 1) * x1), x, y;
  if (sqrt_p(gx, y)) { x = x1; if (!mpz_odd_p(y.get_mpz_t())) y = rd(-y); if (cls) *cls = "x1"; }
  else { x = rd(-x1 - A); gx = rd(rd(x * x + A * x + 1) * x); if (!sqrt_p(gx, y)) abort(); if (mpz_odd_p(y.get_mpz_t())) y = rd(-y); if (cls) *cls = "x2"; }
  if (y == 0 || rd(x + 1) == 0) { if (cls) *cls = "exceptional"; return E().id(); }
  return E().aff(rd(rd(c1() * x) * inv(y)), rd((x - 1) * inv(x + 1))); }
static ref::Pt ref_h2c(const Z &u0, const Z &u1) { return E().mul(8, E().add(ref_map(u0), ref_map(u1))); }
static Z ref_u(uint8_t prefix, const Bytes &m) { Bytes in(1, prefix); in.insert(in.end(), m.begin(), m.end()); Bytes d = ref::sha512(in); return ref::mod(ref::from_le(d.data(), 64), E().L); }
static Z fe(const uint64_t *w) { return ref::from_le((const uint8_t *)w, 32); }
static void put(uint64_t *w, const Z &z) { ref::to_le(z, (uint8_t *)w, 32); }

static std::vector<Z> specials() { std::vector<Z> v = {0, 1, 2, 3, 5}; const Z A = 486662; Z r;
  if (sqrt_p((A - 1) * inv(2), r)) { v.push_back(r); v.push_back(rd(-r)); } if (sqrt_p(inv(2 * (A - 1)), r)) { v.push_back(r); v.push_back(rd(-r)); }
  for (long k = 1; k < 16; k++) { v.push_back(rd(Z(-k))); v.push_back(inv(Z(k))); v.push_back(inv(Z(2 * k))); } if (sqrt_p(Z(-1), r)) v.push_back(r);
  for (unsigned i = 1; i < 255; i += 13) { v.push_back(Z(1) << i); v.push_back((Z(1) << i) - 1); v.push_back(P_() - (Z(1) << i)); }
  v.push_back((Z(1) << 255) - 20); v.push_back(E().L - 1); v.push_back(E().L); return v; }

static Bytes gen_msg() { Rng &g = R.rng; uint64_t k = g.below(20); size_t n = k < 8 ? g.below(60) : k < 14 ? g.below(400) : k < 18 ? 128 * g.below(5) + 105 + g.below(30) : k == 18 ? g.below(5000) : (g.chance(1, 8) ? g.below(200000) : g.below(1000)); if (g.chance(1, 10)) return Bytes(n, g.chance(1, 2) ? 0 : 255); return g.bytes(n); }

static void run_hash() { Rng &g = R.rng; uint64_t n = R.n(24000, 600000);
#ifdef HMAP
  std::vector<Z> sp; for (auto &z : specials()) if (z < E().L) sp.push_back(z);
  // pairs (u, 1/(2u)), both below the order: opposite images
  for (int i = 0; i < 4000 && sp.size() < 90; i++) { Bytes b = g.bytes(31); Z u = ref::mod(ref::from_le(b.data(), 31), E().L), w = inv(2 * u); if (u != 0 && w < E().L) { sp.push_back(u); sp.push_back(w); } }
  hm::special = sp; ref::hmap() = hm::map; HRESET();
#endif
  for (uint64_t it = 0; it < n; it++) { HRESET(); Bytes m = gen_msg(); Z u0 = ref_u(0, m), u1 = ref_u(1, m); ref::Pt W = ref_h2c(u0, u1); Z wx, wy; E().affine(W, wx, wy);
    std::string a, b; if (it % 16 == 0) { ref_map(u0, &a); ref_map(u1, &b); R.classes["branches." + a + "." + b]++; }
    auto det = [&](const Point &P) { return "msg[" + std::to_string(m.size()) + "]=" + hexs(m) + " u0=" + u0.get_str(16) + " u1=" + u1.get_str(16) + " got=" + fe(P.X).get_str(16) + "," + fe(P.Y).get_str(16) + " want=" + wx.get_str(16) + "," + wy.get_str(16); };
    Point pt[2]; for (int im = 0; im < 2; im++) { Buf mb(m.size(), g.below(33)); if (!m.empty()) memcpy(mb.p(), m.data(), m.size()); Point &P = pt[im]; memset(&P, 0x5C, sizeof P);
      if (im == 0) { R.op("h2c25519_x64"); h2c25519_x64(&P, mb.p(), m.size()); } else { R.op("h2c25519_avx2"); h2c25519_avx2(&P, mb.p(), m.size()); }
      std::string k = im ? "h2c.avx2" : "h2c.x64"; if (rd(fe(P.X) - wx) != 0 || rd(fe(P.Y) - wy) != 0) R.fail(k, det(P));
      if (!mb.intact() || (!m.empty() && memcmp(mb.p(), m.data(), m.size()))) R.fail(k + ".input", det(P));
      R.op("isOnCurve"); if (isOnCurve(&P) != 1) R.fail(k + ".oncurve", det(P)); R.eval(im ? "avx2" : "x64", fnv(m.data(), m.size(), im)); }
    R.op("areEqual"); if (areEqual(&pt[0], &pt[1]) != 1) R.fail("h2c.agree", det(pt[0]));
    if (wx == 0) R.classes["identity_image"]++; if (rd(u0 - u1) == 0) R.classes["equal_halves"]++; if (it < 2) R.sample(det(pt[0]));
    // field elements
    if (it % 4 == 0) { ALIGN EltFp25519_1w_fullradix f0, f1, g0, g1; hash_to_field(f0, 0, m.data(), m.size()); hash_to_field(f1, 1, m.data(), m.size()); R.op("hash_to_field_2w"); hash_to_field_2w(g0, g1, m.data(), m.size());
      if (rd(fe(f0) - u0) != 0 || rd(fe(f1) - u1) != 0) R.fail("hash_to_field", det(pt[0])); if (rd(fe(g0) - u0) != 0 || rd(fe(g1) - u1) != 0) R.fail("hash_to_field_2w", det(pt[0])); R.eval("hash_to_field", fnv(m.data(), m.size(), 7)); } }
#ifdef HMAP
  R.classes["digests_mapped"] = hm::nmapped;
#endif
}

static Z gen_fe(bool wide) { Rng &g = R.rng; static std::vector<Z> sp = specials(); uint64_t k = g.below(8); Z z; if (k < 3) { z = sp[g.below(sp.size())]; if (g.chance(1, 3)) z = rd(-z); } else if (k < 6) { Bytes b = g.bytes(32); z = ref::from_le(b.data(), 32); if (!wide) z = rd(z); }
  else { uint64_t w[4]; for (auto &x : w) switch (g.below(5)) { case 0: x = 0; break; case 1: x = ~0ull; break; case 2: x = 1ull << g.below(64); break; case 3: x = ~0ull - g.below(40); break; default: x = g.u64(); } z = ref::from_le((uint8_t *)w, 32); if (!wide) z = rd(z); }
  if (wide && g.chance(1, 4) && z + P_() < (Z(1) << 256)) z += P_(); return z; }
static ref::Pt proj(const PointXYZT_1way_full &Q) { return ref::Pt{rd(fe(Q.X)), rd(fe(Q.Y)), rd(fe(Q.Z)), rd(fe(Q.T))}; }
static bool well(const ref::Pt &Q) { return Q.Zc != 0 && rd(Q.X * Q.Y - Q.Zc * Q.T) == 0; }
static void run_map() { Rng &g = R.rng; uint64_t n = R.n(40000, 1000000);
  for (uint64_t it = 0; it < n; it++) { Z u[2] = {gen_fe(true), gen_fe(true)}; if (it % 16 == 3) u[1] = u[0]; if (it % 16 == 5) u[1] = rd(-u[0]); if (it % 16 == 7) u[1] = inv(2 * u[0]);
    std::string cl[2]; ref::Pt W[2] = {ref_map(rd(u[0]), &cl[0]), ref_map(rd(u[1]), &cl[1])}; PointXYZT_1way_full Q[2];
    for (int i = 0; i < 2; i++) { ALIGN EltFp25519_1w_fullradix f; put(f, u[i]); R.op("map_to_curve"); map_to_curve(&Q[i], f); ref::Pt q = proj(Q[i]); if (!well(q) || !E().eq(q, W[i])) R.fail("map_to_curve", "u=" + u[i].get_str(16)); if (fe(f) != u[i]) R.fail("map_to_curve.input", "u=" + u[i].get_str(16)); R.eval(("map." + cl[i]).c_str(), fnv(f, 32)); }
    { ALIGN EltFp25519_1w_fullradix f; EltFp25519_1w_redradix a, b; EltFp25519_2w_redradix ab; put(f, u[0]); Fp25519._1w_red.arith.misc.unser(a, (uint8_t *)f); put(f, u[1]); Fp25519._1w_red.arith.misc.unser(b, (uint8_t *)f); Fp25519._2w_red.arithex.inter(ab, a, b); PointXYZT_2way q2; R.op("map_to_curve_2w"); map_to_curve_2w(&q2, ab);
      Z o[4][2]; __m256i *src[4] = {q2.X, q2.Y, q2.Z, q2.T}; for (int c = 0; c < 4; c++) { Fp25519._2w_red.arithex.deinter(a, b, src[c]); ALIGN EltFp25519_1w_fullradix s; Fp25519._1w_red.arith.misc.ser((uint8_t *)s, a); o[c][0] = fe(s); Fp25519._1w_red.arith.misc.ser((uint8_t *)s, b); o[c][1] = fe(s); }
      for (int l = 0; l < 2; l++) { ref::Pt q{o[0][l], o[1][l], o[2][l], o[3][l]}; if (!well(q) || !E().eq(q, W[l])) R.fail("map_to_curve_2w", "lane=" + std::to_string(l) + " u0=" + u[0].get_str(16) + " u1=" + u[1].get_str(16)); } R.eval("map2w", fnv(f, 32, 3)); }
    // addition of the images: equal, opposite and neutral operands included
    PointXYZT_1way_full S, a = Q[0], b = Q[1]; if (it % 8 == 1) { b = a; } else if (it % 8 == 2) { b = a; Fp25519._1w_full.arith.neg(b.X); Fp25519._1w_full.arith.neg(b.T); } else if (it % 8 == 4) { memset(&b, 0, sizeof b); b.Y[0] = 1; b.Z[0] = 1; }
    ref::Pt pa = proj(a), pb = proj(b), w = E().add(pa, pb); R.op("fulladd"); _1way_fulladd_1w_full(&S, &a, &b); ref::Pt q = proj(S); if (!well(q) || !E().eq(q, w)) R.fail("fulladd", "u0=" + u[0].get_str(16) + " u1=" + u[1].get_str(16) + " kind=" + std::to_string(it % 8)); R.eval(w.X == 0 ? "add.neutral_or_2torsion" : "add", fnv(a.X, 32, fnv(b.X, 32))); if (it < 2) R.sample("map u0=" + u[0].get_str(16) + " u1=" + u[1].get_str(16)); } }

static void run_pred() { Rng &g = R.rng; uint64_t n = R.n(60000, 1500000); (void)g;
  for (uint64_t it = 0; it < n; it++) { Z x = gen_fe(true), y = gen_fe(true); uint64_t k = g.below(6); Z lim = Z(1) << 256;
    if (k < 3) { // a true point, possibly in a non-canonical representation, possibly with one bit flipped
      ref::Pt Q; Bytes b; do b = g.bytes(32); while (!E().dec(b.data(), Q)); if (g.chance(1, 8)) { static const char *tor[] = {"0100000000000000000000000000000000000000000000000000000000000000", "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "0000000000000000000000000000000000000000000000000000000000000080", "0000000000000000000000000000000000000000000000000000000000000000", "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a"}; Bytes t = unhex(tor[g.below(5)]); E().dec(t.data(), Q); }
      x = Q.X; y = Q.Y; if (g.chance(1, 4) && x + P_() < lim) x += P_(); if (g.chance(1, 4) && y + P_() < lim) y += P_(); if (k == 2) { Z &t = g.chance(1, 2) ? x : y; t ^= Z(1) << (unsigned)g.below(256); } }
    Point P; memset(&P, 0, sizeof P); put(P.X, x); put(P.Y, y); bool on = E().onCurve(rd(x), rd(y)); R.op("isOnCurve"); int r = isOnCurve(&P); if (r != (on ? 1 : 0)) R.fail("isOnCurve", "x=" + x.get_str(16) + " y=" + y.get_str(16) + " ret=" + std::to_string(r) + " want=" + std::to_string(on)); R.eval(on ? "on" : "off", fnv(&P, 64));
    if (fe(P.X) != x || fe(P.Y) != y) R.fail("isOnCurve.input", "x=" + x.get_str(16));
    Z x2 = x, y2 = y; switch (g.below(6)) { case 0: break; case 1: x2 = rd(-x); break; case 2: y2 ^= Z(1) << (unsigned)g.below(256); break; case 3: x2 ^= Z(1) << (unsigned)g.below(256); break; case 4: x2 = x + P_() < lim ? Z(x + P_()) : rd(x); y2 = y + P_() < lim ? Z(y + P_()) : rd(y); break; default: x2 = gen_fe(true); y2 = g.chance(1, 2) ? y : gen_fe(true); }
    Point Q; memset(&Q, 0, sizeof Q); put(Q.X, x2); put(Q.Y, y2); bool eq = rd(x - x2) == 0 && rd(y - y2) == 0; R.op("areEqual"); r = areEqual(&P, &Q); if (r != (eq ? 1 : 0)) R.fail("areEqual", "x=" + x.get_str(16) + " y=" + y.get_str(16) + " x2=" + x2.get_str(16) + " y2=" + y2.get_str(16) + " ret=" + std::to_string(r)); R.eval(eq ? "equal" : "differ", fnv(&P, 64, fnv(&Q, 64)));
    if (it % 16 == 0) { char *bp = 0; size_t bn = 0; FILE *f = open_memstream(&bp, &bn); R.op("print_point"); print_point(f, &P); fclose(f); std::string s(bp, bn); free(bp); Z v[2]; size_t a = s.find("0x"), b = a == std::string::npos ? a : s.find("0x", a + 2); bool ok = b != std::string::npos; if (ok) { ok = v[0].set_str(s.substr(a + 2, s.find_first_of(" \n", a) - a - 2), 16) == 0 && v[1].set_str(s.substr(b + 2, s.find_first_of(" \n", b) - b - 2), 16) == 0; ok = ok && rd(v[0] - x) == 0 && rd(v[1] - y) == 0; } if (!ok) R.fail("print_point", s); R.eval("print", fnv(&P, 64, 11)); } } }

// one message longer than 32 bits of length: both implementations must still agree with the reference
static void run_long() { size_t total = ((size_t)1 << 32) + (R.shard ? 5 : -1) ; Bytes m(total); for (size_t i = 0; i < total; i += 4096) m[i] = (uint8_t)(i >> 12); Z u[2]; for (int p = 0; p < 2; p++) { ref::Sha512 r; uint8_t b = (uint8_t)p, d[64]; r.update(&b, 1); for (size_t o = 0; o < total; o += 1 << 24) { r.update(m.data() + o, std::min<size_t>(1 << 24, total - o)); R.opcount++; } r.final(d, 64); u[p] = ref::mod(ref::from_le(d, 64), E().L); }
  Z wx, wy; E().affine(ref_h2c(u[0], u[1]), wx, wy); for (int im = 0; im < 2; im++) { Point P; R.op("long"); (im ? h2c25519_avx2 : h2c25519_x64)(&P, m.data(), total); if (rd(fe(P.X) - wx) != 0 || rd(fe(P.Y) - wy) != 0) R.fail(im ? "h2c.avx2.long" : "h2c.x64.long", "bytes=" + std::to_string(total)); R.eval("over_2^32_bytes", fnv(&P, 64, im)); } }

int main(int argc, char **argv) { std::map<std::string, std::string> opt; parse_args(argc, argv, opt); install_handlers(); std::string c = opt["cmd"];
  if (c == "hash") run_hash(); else if (c == "map") run_map(); else if (c == "pred") run_pred(); else if (c == "long") run_long(); else return 2; R.finish(); return 0; }
