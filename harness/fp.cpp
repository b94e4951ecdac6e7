// Online monitor of the prime-field API: every call is made on the real library
// through the public PrimeField tables, its operands are snapshotted before and
// its result is compared (modulo p) with exact GMP arithmetic.
//   fp <full25519|red25519|vec25519|full448|red448|vec448>
#include "ref.hpp"
#include "faz_fp_avx2.h"
using namespace faz::fp;
Report R;

struct FD { const PrimeField *F; Z p; int NF, NB, ND, half; bool is448; unsigned long a24; std::string nm;
  int ex(int i) const { return is448 ? 28 * i : (51 * i + 1) / 2; }
  int bits(int i) const { return is448 ? 28 : (i % 2 ? 25 : 26); }
  int pos(int i) const { return i < half ? 2 * i : 2 * (i - half) + 1; } };
static FD D;
static Z modp(const Z &x) { return ref::mod(x, D.p); }
static std::string zh(const Z &z) { return z.get_str(16); }

// ---- operand generation --------------------------------------------------------
static Z nearval() {   // a value near an arithmetically interesting point
  Rng &g = R.rng; Z b; unsigned w = D.NF * 64;
  switch (g.below(9)) {
  case 0: b = 0; break; case 1: b = D.p; break; case 2: b = 2 * D.p; break;
  case 3: b = Z(1) << (unsigned)g.below(w + 1); break;
  case 4: b = (D.p - 1) / 2; break;
  case 5: b = D.p - (Z(1) << (unsigned)g.below(w)); break;
  case 6: b = (Z(1) << w); break;
  case 7: b = (Z(1) << (unsigned)g.below(w + 1)) - (Z(1) << (unsigned)g.below(w + 1)); break;
  default: b = (Z(1) << (unsigned)(D.is448 ? 224 : 255)); break; }
  uint64_t k = g.below(4); long d = k == 0 ? 0 : k == 1 ? (long)g.below(3) : k == 2 ? (long)g.below(64) : (long)g.below(1u << 20);
  b += g.chance(1, 2) ? d : -d; Z m = Z(1) << w; return ref::mod(b, m); }
// words whose product with a small constant ends next to a multiple of 2^64
static uint64_t near_quotient() { Rng &g = R.rng; uint64_t m; switch (g.below(4)) { case 0: m = D.is448 ? 39082 : 121666; break; case 1: m = D.is448 ? 39081 : 121665; break; case 2: m = 19; break; default: m = 38; } uint64_t k = g.below(m) + 1; uint64_t w = k == m ? ~0ull : (uint64_t)(((unsigned __int128)k << 64) / m); return w + g.below(3) - (g.chance(1, 3) ? 1 : 0); }
static uint64_t hostile64() { Rng &g = R.rng; switch (g.below(10)) { case 8: return near_quotient(); case 0: return 0; case 1: return ~0ull; case 2: return 1; case 3: return ~0ull - g.below(40); case 4: return 1ull << g.below(64);
    case 5: return (1ull << g.below(64)) - 1; case 6: return ~((1ull << g.below(64)) - 1); case 7: return g.below(100); default: return g.u64(); } }
static void genwords(uint64_t *w) { Rng &g = R.rng; uint64_t k = g.below(8);
  if (k < 2) { for (int i = 0; i < D.NF; i++) w[i] = g.u64(); }
  else if (k < 5) { for (int i = 0; i < D.NF; i++) w[i] = hostile64(); }
  else { memset(w, 0, 8 * D.NF); ref::to_le(nearval(), (uint8_t *)w, 8 * D.NF); } }

static Z words2z(const uint64_t *w, int n) { return ref::from_le((const uint8_t *)w, 8 * n); }
static Bytes canon(const Z &v) { Bytes b(D.NB); ref::to_le(modp(v), b.data(), D.NB); return b; }

// ---- operands made for a result: exact intermediate and final words are chosen, operands are solved for ------
static Z hostilev(int n) { Z r = 0; uint64_t k = R.rng.below(4); if (k == 0) return nearval(); for (int i = n - 1; i >= 0; i--) r = (r << 64) + Z((unsigned long)(k == 1 && R.rng.chance(2, 3) ? ~0ull : hostile64())); return r; }
static Z foldhi(const Z &hi) { return D.is448 ? Z(hi + (hi << 224)) : Z(hi * 38); }
static void setw(uint64_t *w, const Z &v, int n) { memset(w, 0, 8 * n); ref::to_le(v, (uint8_t *)w, 8 * n); }
static Z anyrep(Z v) { Z m = Z(1) << (64 * D.NF); v = modp(v); for (int i = 0; i < 2; i++) if (v + D.p < m && R.rng.chance(1, 2)) v += D.p; return v; }
// a (and nothing else) is changed; false: left as it was
static bool aim(const std::string &k, uint64_t *a, const uint64_t *b) { Rng &g = R.rng; const int N = D.NF; Z m = Z(1) << (64 * N), vb = ref::from_le((const uint8_t *)b, 8 * N), V = hostilev(N), x;
  if (g.chance(1, 2)) V = g.chance(1, 2) ? Z(g.below(1 << (1 + g.below(14)))) : modp(-Z(g.below(1 << (1 + g.below(14)))));
  if (k == "add") x = ref::mod(V - vb, m); else if (k == "sub") x = ref::mod(V + vb, m);
  else if (k == "mul") { uint64_t c = g.below(3); if (c == 0) { if (modp(vb) == 0) return false; x = anyrep(V * ref::powm(modp(vb), D.p - 2, D.p)); } else if (c == 1) { if (vb % 2 == 0) return false; Z i; mpz_invert(i.get_mpz_t(), vb.get_mpz_t(), m.get_mpz_t()); x = ref::mod(V * i, m); }
    else { if (vb == 0) return false; x = (V * m + hostilev(N)) / vb; while (x >= m) x >>= 1 + (unsigned)g.below(8); } }
  else if (k == "sqr") { uint64_t c = g.below(2); if (c) { Z T = hostilev(2 * N); mpz_sqrt(x.get_mpz_t(), T.get_mpz_t()); x = ref::mod(x, m); } else { if (!ref::is_square(modp(V), D.p)) return false; x = anyrep(D.is448 ? ref::powm(modp(V), (D.p + 1) / 4, D.p) : [&] { Z v = modp(V), r = ref::powm(v, (D.p + 3) / 8, D.p); if (modp(r * r - v) != 0) r = modp(r * ref::powm(Z(2), (D.p - 1) / 4, D.p)); return r; }()); } }
  else if (k == "mula24") { uint64_t c = g.below(3); if (c == 0) x = anyrep(V * ref::powm(Z(D.a24), D.p - 2, D.p)); else { Z top = c == 1 ? Z(D.a24 - 1 - g.below(3)) : Z(g.below(D.a24)); x = (top * m + (g.chance(1, 2) ? Z(m - 1 - g.below(1 << (1 + g.below(20)))) : V)) / D.a24; } }
  else return false;
  setw(a, x, N); return true; }
static void aimred(uint64_t *t) { Rng &g = R.rng; const int N = D.NF; if (!g.chance(1, 3)) return; Z m = Z(1) << (64 * N), V = g.chance(1, 2) ? hostilev(N) : Z(g.below(1 << (1 + g.below(14)))), hi = ref::from_le((const uint8_t *)(t + N), 8 * N); Z lo = V - foldhi(hi); setw(t, g.chance(1, 2) ? ref::mod(lo, m) : anyrep(lo), N); }
static uint64_t aimed_;

// runs `f` with an in-memory FILE and returns what it printed
static std::string captured(std::function<void(FILE *)> f) { char *b = 0; size_t n = 0; FILE *m = open_memstream(&b, &n); f(m); fclose(m); std::string s(b, n); free(b); return s; }
// "0x<big-endian hex>\n" lines -> values
static std::vector<Z> parse_hex(const std::string &s) { std::vector<Z> r; size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size(); std::string l = s.substr(i, e - i); i = e + 1;
    if (l.rfind("0x", 0) == 0) { Z z; if (l.size() > 2 && z.set_str(l.substr(2), 16) == 0) r.push_back(z); else r.push_back(Z(-1)); } else if (!l.empty()) r.push_back(Z(-1)); } return r; }

#define CHECK(cond, key, det) do { if (!(cond)) R.fail(D.nm + "." + key, det); } while (0)

// ============================== full radix =========================================
struct FullBuf { ALIGN uint64_t g0[8]; ALIGN uint64_t w[32]; ALIGN uint64_t g1[8];
  FullBuf() { for (int i = 0; i < 8; i++) g0[i] = g1[i] = 0xA5A5A5A5A5A5A5A5ull; for (int i = 0; i < 32; i++) w[i] = 0x5C5C5C5C5C5C5C5Cull; }
  // words [n, 32) and both guards untouched
  bool ok(int n, const uint64_t *snap = 0) const { for (int i = 0; i < 8; i++) if (g0[i] != 0xA5A5A5A5A5A5A5A5ull || g1[i] != 0xA5A5A5A5A5A5A5A5ull) return false;
    for (int i = n; i < 32; i++) if (w[i] != (snap ? snap[i] : 0x5C5C5C5C5C5C5C5Cull)) return false; return true; } };

static void run_full() {
  const Arith_1w &A = D.F->_1w_full.arith; const Arith_1w_fullradix &X = D.F->_1w_full.arithex; Rng &g = R.rng; const int N = D.NF;
  auto has = [](const void *p) { return p != 0; };
  uint64_t n = R.n(3000000, 60000000);
  for (uint64_t it = 0; it < n; it++) {
    FullBuf a, b, c; genwords(a.w); genwords(b.w); Z za = words2z(a.w, N), zb = words2z(b.w, N);
    uint64_t kind = g.below(100); std::string op; uint64_t al = g.below(6);
    if (al == 3) { memcpy(b.w, a.w, 8 * N); zb = za; }
    uint64_t h = fnv(a.w, 8 * N, fnv(b.w, 8 * N, kind * 131 + al));
    auto det = [&]() { return "op=" + op + " alias=" + std::to_string(al) + " a=" + zh(za) + " b=" + zh(zb) + " c=" + zh(words2z(c.w, N)); };
    if (kind < 44) { // three-operand
      typedef void (*F3)(uint64_t *, uint64_t *, uint64_t *); F3 f; Z e; std::string k;
      if (kind < 12) { f = A.add; k = "add"; e = za + zb; } else if (kind < 26) { f = A.sub; k = "sub"; e = za - zb; } else { f = A.mul; k = "mul"; e = za * zb; }
      if (g.chance(1, 4) && aim(k, a.w, b.w)) { aimed_++; za = words2z(a.w, N); e = k == "add" ? Z(za + zb) : k == "sub" ? Z(za - zb) : Z(za * zb); h = fnv(a.w, 8 * N, h); }
      op = k; R.op(k.c_str()); uint64_t *pc = c.w, *pa = a.w, *pb = b.w; FullBuf *dst = &c;
      if (al == 0) { pc = a.w; dst = &a; } else if (al == 1) { pc = b.w; dst = &b; } else if (al == 2) { pc = pb = a.w; dst = &a; zb = za; e = k == "add" ? Z(2 * za) : k == "sub" ? Z(0) : Z(za * za); }
      f(pc, pa, pb); Z r = words2z(pc, N); memcpy(c.w, pc, 8 * N);
      CHECK(modp(r - e) == 0, k, det());
      if (pa != pc) CHECK(words2z(a.w, N) == za, k + ".input", det()); if (pb != pc && pb != pa) CHECK(words2z(b.w, N) == zb, k + ".input", det());
      CHECK(dst->ok(N), k + ".bounds", det()); R.eval(k.c_str(), h); if (it < 3) R.sample(det());
    } else if (kind < 52) { op = "sqr"; if (g.chance(1, 4) && aim("sqr", a.w, b.w)) { aimed_++; za = words2z(a.w, N); h = fnv(a.w, 8 * N, h); } R.op("sqr"); A.sqr(a.w); memcpy(c.w, a.w, 8 * N); CHECK(modp(words2z(a.w, N) - za * za) == 0, op, det()); CHECK(a.ok(N), op + ".bounds", det()); R.eval("sqr", h);
    } else if (kind < 56) { op = "neg"; R.op("neg"); A.neg(a.w); memcpy(c.w, a.w, 8 * N); CHECK(modp(words2z(a.w, N) + za) == 0, op, det()); R.eval("neg", h);
    } else if (kind < 58) { op = "inv"; if (!g.chance(1, 3)) continue; R.op("inv"); if (!has((void *)A.inv)) continue; A.inv(c.w, a.w); CHECK(modp(words2z(c.w, N) - ref::powm(modp(za), D.p - 2, D.p)) == 0, op, det()); CHECK(c.ok(N), op + ".bounds", det()); CHECK(words2z(a.w, N) == za, op + ".input", det()); R.eval("inv", h);
    } else if (kind < 63) { // comparison, biased to equal and nearly equal residues
      op = "cmp"; R.op("cmp"); uint64_t m = g.below(6); Z lim = Z(1) << (64 * N); Z q = zb;
      if (m == 0) q = za; else if (m == 1) q = za + D.p < lim ? Z(za + D.p) : Z(za); else if (m == 2) q = za >= D.p ? Z(za - D.p) : Z(za); else if (m == 3) q = za ^ (Z(1) << (unsigned)g.below(64 * N));
      else if (m == 4) { q = za; for (int j = 0; j < 3; j++) q ^= (Z(2) << (unsigned)(g.below(8 * N - 1) * 8)); q = ref::mod(q, lim); }
      ref::to_le(q, (uint8_t *)b.w, 8 * N); zb = q; int r = A.cmp(a.w, b.w); bool eq = modp(za - q) == 0; CHECK((r == 0) == eq, op, det() + " ret=" + std::to_string(r));
      CHECK(modp(words2z(a.w, N) - za) == 0 && modp(words2z(b.w, N) - zb) == 0, op + ".input", det()); R.eval(eq ? "cmp.equal" : "cmp.differ", h);
    } else if (kind < 66) { op = "cmv"; if (!has((void *)A.cmv)) continue; R.op("cmv"); int bit = (int)g.below(2); uint64_t *pc = al == 0 ? a.w : al == 1 ? b.w : c.w; A.cmv(bit, pc, a.w, b.w); CHECK(modp(words2z(pc, N) - (bit ? zb : za)) == 0, op, det() + " bit=" + std::to_string(bit)); R.eval("cmv", h);
    } else if (kind < 69) { op = "sgn"; R.op("sgn"); if (!has((void *)A.sgn)) continue; int r = A.sgn(a.w); CHECK(r == (int)mpz_odd_p(modp(za).get_mpz_t()), op, det() + " ret=" + std::to_string(r)); CHECK(modp(words2z(a.w, N) - za) == 0, op + ".input", det()); R.eval("sgn", h);
    } else if (kind < 75) { op = "ser"; R.op("ser"); size_t mis = g.below(2) ? 0 : g.below(32); (void)mis; Buf o(D.NB, 0); A.misc.ser(o.p(), a.w); CHECK(Bytes(o.p(), o.p() + D.NB) == canon(za), op, det() + " out=" + hexs(o.p(), D.NB)); CHECK(o.intact(), op + ".bounds", det()); CHECK(modp(words2z(a.w, N) - za) == 0, op + ".input", det()); R.eval("ser", h);
    } else if (kind < 78) { op = "unser"; R.op("unser"); Buf o(D.NB, 0); memcpy(o.p(), a.w, D.NB); A.misc.unser(c.w, o.p()); CHECK(modp(words2z(c.w, N) - za) == 0, op, det()); CHECK(memcmp(o.p(), a.w, D.NB) == 0 && o.intact() && c.ok(N), op + ".bounds", det()); R.eval("unser", h);
    } else if (kind < 79) { switch (g.below(5)) {
        case 0: op = "prime"; R.op("prime"); A.prime(c.w); CHECK(words2z(c.w, N) == D.p, op, det()); R.eval("prime", 1); break;
        case 1: op = "zero"; R.op("zero"); memcpy(c.w, a.w, 8 * N); A.misc.zero(c.w); CHECK(words2z(c.w, N) == 0, op, det()); R.eval("zero", h); break;
        case 2: op = "copy"; R.op("copy"); A.misc.copy(c.w, a.w); CHECK(words2z(c.w, N) == za && words2z(a.w, N) == za && c.ok(N), op, det()); R.eval("copy", h); break;
        case 3: { op = "print"; R.op("print"); auto v = parse_hex(captured([&](FILE *f) { A.misc.print(f, a.w); })); CHECK(v.size() == 1 && v[0] >= 0 && modp(v[0] - za) == 0, op, det()); R.eval("print", h); break; }
        default: { op = "alloc"; R.op("alloc"); uint64_t *q = A.misc.alloc(); CHECK(q && ((uintptr_t)q % 32) == 0, op, "misaligned or null"); A.misc.copy(q, a.w); CHECK(words2z(q, N) == za, op, det()); A.misc.free(q); R.eval("alloc", h); } }
    } else if (kind < 80) { op = "rand"; R.op("rand"); if (!g.chance(1, 20)) continue; FullBuf c2; A.misc.rand(c.w); A.misc.rand(c2.w); CHECK(c.ok(N) && c2.ok(N), op + ".bounds", det()); CHECK(words2z(c.w, N) != words2z(c2.w, N), op, "two draws equal"); R.eval("rand", fnv(c.w, 8 * N));
    } else if (kind < 81) { op = "srt"; if (!g.chance(1, 2) || !A.srt) continue; R.op("srt"); uint64_t *dummy = 0; (void)dummy;
      // (c,a): c <- sqrt(c/a).  Only specified when c/a is a square and a != 0
      uint64_t m = g.below(4); Z v = modp(za), u;
      if (v == 0) continue; Z x = m == 0 ? Z(g.below(5)) : modp(zb); u = modp(x * x * v); ref::to_le(u, (uint8_t *)c.w, 8 * N);
      A.srt(c.w, a.w); Z r = words2z(c.w, N); CHECK(modp(r * r * v - u) == 0, op, "u=" + zh(u) + " v=" + zh(v) + " got=" + zh(r)); CHECK(modp(words2z(a.w, N) - za) == 0, op + ".input", det()); CHECK(c.ok(N), op + ".bounds", det()); R.eval("srt", h);
    } else if (kind < 85) { op = "mula24"; if (g.chance(1, 2) && aim("mula24", a.w, b.w)) { aimed_++; za = words2z(a.w, N); h = fnv(a.w, 8 * N, h); } R.op("mula24"); uint64_t *pc = al == 0 ? a.w : c.w; X.mula24(pc, a.w); Z r = words2z(pc, N); CHECK(modp(r - za * D.a24) == 0, op, det()); R.eval("mula24", h);
    } else if (kind < 89) { op = "intmul"; if (g.chance(1, 4) && aim("mul", a.w, b.w)) { aimed_++; za = words2z(a.w, N); h = fnv(a.w, 8 * N, h); } R.op("intmul"); X.intmul(c.w, a.w, b.w); CHECK(words2z(c.w, 2 * N) == za * zb, op, det()); CHECK(c.ok(2 * N) && words2z(a.w, N) == za && words2z(b.w, N) == zb, op + ".bounds", det()); R.eval("intmul", h);
    } else if (kind < 92) { op = "intsqr"; if (g.chance(1, 4) && aim("sqr", a.w, b.w)) { aimed_++; za = words2z(a.w, N); h = fnv(a.w, 8 * N, h); } R.op("intsqr"); X.intsqr(c.w, a.w); CHECK(words2z(c.w, 2 * N) == za * za, op, det()); CHECK(c.ok(2 * N) && words2z(a.w, N) == za, op + ".bounds", det()); R.eval("intsqr", h);
    } else if (kind < 95) { op = "reduce"; R.op("reduce"); uint64_t t[32]; memset(t, 0, sizeof t); for (int i = 0; i < 2 * N; i += N) genwords(t + i); aimred(t); FullBuf q; memcpy(q.w, t, 16 * N); Z zt = words2z(t, 2 * N); X.reduce(c.w, q.w); CHECK(modp(words2z(c.w, N) - zt) == 0, op, "t=" + zh(zt) + " c=" + zh(words2z(c.w, N))); CHECK(c.ok(N), op + ".bounds", det()); R.eval("reduce", fnv(t, 16 * N));
    } else { // two independent products / squares / reductions packed back to back
      FullBuf c2; uint64_t t[32]; memset(t, 0, sizeof t); for (int i = 0; i < 4 * N; i += N) genwords(t + i); if (kind >= 98) { aimred(t); aimred(t + 2 * N); } else if (kind < 97) { if (g.chance(1, 4)) aim("mul", t, t + 2 * N); if (g.chance(1, 4)) aim("mul", t + N, t + 3 * N); } else if (g.chance(1, 2)) { aim("sqr", t, t); aim("sqr", t + N, t); } h = fnv(t, 32 * N); FullBuf x, y; 
      if (kind < 97) { op = "intmul2"; R.op("intmul2"); memcpy(x.w, t, 16 * N); memcpy(y.w, t + 2 * N, 16 * N); X.intmul2(c2.w, x.w, y.w); CHECK(words2z(c2.w, 2 * N) == words2z(t, N) * words2z(t + 2 * N, N) && words2z(c2.w + 2 * N, 2 * N) == words2z(t + N, N) * words2z(t + 3 * N, N), op, "x=" + hexs(t, 16 * N) + " y=" + hexs(t + 2 * N, 16 * N)); CHECK(c2.ok(4 * N), op + ".bounds", op); R.eval("intmul2", h);
      } else if (kind < 98) { op = "intsqr2"; R.op("intsqr2"); memcpy(x.w, t, 16 * N); X.intsqr2(c2.w, x.w); CHECK(words2z(c2.w, 2 * N) == words2z(t, N) * words2z(t, N) && words2z(c2.w + 2 * N, 2 * N) == words2z(t + N, N) * words2z(t + N, N), op, "x=" + hexs(t, 16 * N)); CHECK(c2.ok(4 * N), op + ".bounds", op); R.eval("intsqr2", h);
      } else { op = "reduce2"; R.op("reduce2"); memcpy(x.w, t, 32 * N); X.reduce2(c2.w, x.w); CHECK(modp(words2z(c2.w, N) - words2z(t, 2 * N)) == 0 && modp(words2z(c2.w + N, N) - words2z(t + 2 * N, 2 * N)) == 0, op, "t=" + hexs(t, 32 * N)); CHECK(c2.ok(2 * N), op + ".bounds", op); R.eval("reduce2", h); }
    }
  }
  // straight-line programs: results feed later operations, aliasing at random
  uint64_t np = R.n(6000, 120000);
  for (uint64_t it = 0; it < np; it++) { FullBuf r[4]; Z z[4]; std::string tr; for (int i = 0; i < 4; i++) { genwords(r[i].w); z[i] = modp(words2z(r[i].w, N)); tr += zh(words2z(r[i].w, N)) + ";"; }
    uint64_t hh = fnv(r, sizeof r);
    for (int s = 0; s < 24; s++) { int o = (int)g.below(7), i = (int)g.below(4), j = (int)g.below(4), k = (int)g.below(4); tr += std::to_string(o) + std::to_string(i) + std::to_string(j) + std::to_string(k) + " "; R.op("program"); hh = hh * 31 + o * 64 + i * 16 + j * 4 + k;
      switch (o) { case 0: A.add(r[i].w, r[j].w, r[k].w); z[i] = modp(z[j] + z[k]); break; case 1: A.sub(r[i].w, r[j].w, r[k].w); z[i] = modp(z[j] - z[k]); break; case 2: A.mul(r[i].w, r[j].w, r[k].w); z[i] = modp(z[j] * z[k]); break;
        case 3: A.sqr(r[i].w); z[i] = modp(z[i] * z[i]); break; case 4: A.neg(r[i].w); z[i] = modp(-z[i]); break; case 5: X.mula24(r[i].w, r[j].w); z[i] = modp(z[j] * D.a24); break;
        default: A.cmv((int)(s & 1), r[i].w, r[j].w, r[k].w); z[i] = (s & 1) ? z[k] : z[j]; }
      if (modp(words2z(r[i].w, N) - z[i]) != 0) { R.fail(D.nm + ".program", tr); break; } }
    R.eval("program", hh); }
  R.classes["operands_solved_for_a_result"] = aimed_;
}

// ============================== reduced radix ======================================
// A lane-generic view: digit i of lane l lives at u64 index at(l,i).
struct View { int lanes; int vecs4; // number of u64 words the representation uses
  int at(int l, int i) const { if (lanes == 1) return D.pos(i); if (lanes == 2) return (i < D.half ? 4 * i : 4 * (i - D.half) + 1) + 2 * l; return 4 * D.pos(i) + l; }
  int words() const { return lanes == 1 ? (D.is448 ? 16 : 12) : lanes * D.ND; } };
struct RedBuf { ALIGN uint64_t g0[8]; ALIGN uint64_t w[72]; ALIGN uint64_t g1[8]; RedBuf() { for (int i = 0; i < 8; i++) g0[i] = g1[i] = 0xA5A5A5A5A5A5A5A5ull; for (int i = 0; i < 72; i++) w[i] = 0x5C5C5C5C5C5C5C5Cull; }
  __m256i *v() { return (__m256i *)w; }
  bool ok(int n) const { for (int i = 0; i < 8; i++) if (g0[i] != 0xA5A5A5A5A5A5A5A5ull || g1[i] != 0xA5A5A5A5A5A5A5A5ull) return false; for (int i = n; i < 72; i++) if (w[i] != 0x5C5C5C5C5C5C5C5Cull) return false; return true; } };
static Z val(const View &V, const RedBuf &b, int l) { Z r = 0; for (int i = 0; i < D.ND; i++) { Z d = (unsigned long)b.w[V.at(l, i)]; r += d << (unsigned)D.ex(i); } return r; }
static void put(const View &V, RedBuf &b, int l, const uint64_t *d) { for (int i = 0; i < D.ND; i++) b.w[V.at(l, i)] = d[i]; }
static void get(const View &V, const RedBuf &b, int l, uint64_t *d) { for (int i = 0; i < D.ND; i++) d[i] = b.w[V.at(l, i)]; }
// canonical-base digits (every digit below its radix)
static void gendigits(uint64_t *d) { Rng &g = R.rng; uint64_t k = g.below(8);
  if (k < 3) { Z v = k == 0 ? nearval() : ref::from_le(g.bytes(D.NB).data(), D.NB); v = ref::mod(v, Z(1) << (D.is448 ? 448u : 255u)); for (int i = 0; i < D.ND; i++) { Z t = (v >> (unsigned)D.ex(i)) & ((Z(1) << D.bits(i)) - 1); d[i] = t.get_ui(); } }
  else if (k == 3) for (int i = 0; i < D.ND; i++) d[i] = (1ull << D.bits(i)) - 1;
  else if (k == 4) for (int i = 0; i < D.ND; i++) d[i] = g.u64() & ((1ull << D.bits(i)) - 1);
  else for (int i = 0; i < D.ND; i++) { uint64_t m = (1ull << D.bits(i)) - 1; switch (g.below(6)) { case 0: d[i] = 0; break; case 1: case 2: d[i] = m; break; case 3: d[i] = 1; break; case 4: d[i] = m - g.below(4); break; default: d[i] = g.u64() & m; } } }
static void genwide(uint64_t *d, int bits) { Rng &g = R.rng; for (int i = 0; i < D.ND; i++) { uint64_t m = bits >= 64 ? ~0ull : (1ull << bits) - 1; switch (g.below(6)) { case 0: d[i] = m; break; case 1: d[i] = 0; break; case 2: d[i] = m - g.below(1000); break; case 3: d[i] = 1ull << g.below(bits); break; default: d[i] = g.u64() & m; } } }
// may digits a*b be multiplied without overflowing the 64-bit accumulators?
static bool mulok(const uint64_t *a, const uint64_t *b) {
  const int n = D.ND; for (int i = 0; i < n; i++) if (a[i] >> 32 || b[i] >> 32) return false;
  if (!D.is448) { for (int i = 0; i < n; i++) if (a[i] > 3ull << (D.bits(i)) || b[i] > 3ull << (D.bits(i))) return false; return true; }
  for (int i = 0; i < 4; i++) { if ((a[i] + a[i + 4] + a[i + 8] + a[i + 12]) >> 32) return false; if ((b[i] + b[i + 4] + b[i + 8] + b[i + 12]) >> 32) return false; }
  unsigned __int128 c[48]; memset(c, 0, sizeof c);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) c[i + j] += (unsigned __int128)a[i] * b[j];
  for (int k = 31; k >= 16; k--) { c[k - 8] += c[k]; c[k - 16] += c[k]; c[k] = 0; }
  for (int k = 0; k < 16; k++) if (c[k] >> 63) return false; return true; }

struct Ops { // the same monitor drives the 1-, 2- and 4-lane tables
  int lanes; std::string nm; View V;
  std::function<void(RedBuf &, RedBuf &, RedBuf &)> add, sub, mul, intmul; std::function<void(RedBuf &)> sqr, neg, compress, compressfast, intsqr; std::function<void(RedBuf &, RedBuf &)> addsub, compress2;
  std::function<void(RedBuf &, RedBuf &, RedBuf &, RedBuf &)> addsub4; std::function<void(uint8_t *, RedBuf &)> ser; std::function<void(RedBuf &, uint8_t *)> unser; std::function<void(RedBuf &, RedBuf &)> copy; std::function<void(RedBuf &)> zero; std::function<void(FILE *, RedBuf &)> print; };

static std::string dump(const Ops &O, RedBuf &b) { std::string s; uint64_t d[16]; for (int l = 0; l < O.lanes; l++) { get(O.V, b, l, d); s += "["; for (int i = 0; i < D.ND; i++) { char t[24]; snprintf(t, sizeof t, "%llx,", (unsigned long long)d[i]); s += t; } s += "]"; } return s; }

// operand of depth 0 (compressed) or 1 (one add/sub/addsub/neg of compressed ones), each made by the library itself or written digit by digit
// digits of a chosen value, rewritten so that digits exceed their radix without changing the value (at most what one addition gives)
static void redistributed(uint64_t *d) { Rng &g = R.rng; Z top = Z(1) << (unsigned)(D.ex(D.ND - 1) + D.bits(D.ND - 1)), v; switch (g.below(6)) { case 0: v = D.p; break; case 1: v = 2 * D.p; break; case 2: v = top; break; case 3: v = 0; break; case 4: v = modp(nearval()); break; default: v = Z(1) << (unsigned)g.below(D.is448 ? 448 : 255); }
  if (g.chance(2, 3)) { long e = (long)g.below(1u << (1 + g.below(20))); v += g.chance(1, 2) ? e : -e; } if (g.chance(1, 3)) v += D.p; if (v < 0) v += D.p; Z lim = 2 * top - 2; if (v > lim) v = v - D.p;
  Z q = v; for (int i = 0; i < D.ND; i++) { Z m = Z(1) << D.bits(i), t = i + 1 < D.ND ? Z(q % m) : q; d[i] = t.get_ui(); q = (q - t) >> D.bits(i); }
  for (int i = D.ND - 1; i > 0; i--) if (d[i] && (d[i] >> D.bits(i) || g.chance(2, 3))) { uint64_t b = 1ull << D.bits(i - 1); if (d[i - 1] + b <= 2 * b - 2) { d[i]--; d[i - 1] += b; } } }
static const char *genop(Ops &O, RedBuf &r, int maxdepth) { Rng &g = R.rng; uint64_t d[16]; RedBuf x, y; bool deep = maxdepth > 0 && g.chance(1, 2);
  if (deep && g.chance(1, 4)) { for (int l = 0; l < O.lanes; l++) { redistributed(d); bool ok = true; for (int i = 0; i < D.ND; i++) if (d[i] > (2ull << D.bits(i)) - 2) ok = false; if (!ok) gendigits(d); put(O.V, r, l, d); } return "redistributed"; }
  auto base = [&](RedBuf &t) { switch (g.below(4)) {
      case 0: for (int l = 0; l < O.lanes; l++) { gendigits(d); put(O.V, t, l, d); } break;
      case 1: { Buf b(D.NB * O.lanes); for (int l = 0; l < O.lanes; l++) { uint64_t w[8]; genwords(w); memcpy(b.p() + l * D.NB, w, D.NB); } O.unser(t, b.p()); break; }
      case 2: for (int l = 0; l < O.lanes; l++) { genwide(d, (int)g.below(4) ? 62 : 29 + (int)g.below(33)); put(O.V, t, l, d); } O.compress(t); break;
      default: { RedBuf p, q; for (int l = 0; l < O.lanes; l++) { gendigits(d); put(O.V, p, l, d); gendigits(d); put(O.V, q, l, d); } O.mul(t, p, q); } } };
  base(x); if (!deep) { r = x; return "d0"; } base(y);
  switch (g.below(3)) { case 0: O.add(r, x, y); return "add"; case 1: O.sub(r, x, y); return "sub"; default: if (O.addsub) { O.addsub(x, y); r = g.chance(1, 2) ? x : y; } else { RedBuf c2; O.addsub4(r, c2, x, y); if (g.chance(1, 2)) r = c2; } return "addsub"; } }

static bool all_mulok(Ops &O, RedBuf &a, RedBuf &b) { uint64_t x[16], y[16]; for (int l = 0; l < O.lanes; l++) { get(O.V, a, l, x); get(O.V, b, l, y); if (!mulok(x, y)) return false; } return true; }
static uint64_t hb(Ops &O, RedBuf &a, uint64_t s) { return fnv(a.w, 8 * O.V.words(), s); }

static void run_red(Ops O) {
  Rng &g = R.rng; const int L = O.lanes; std::string pre = O.nm + "."; auto cls = [&](const char *o) { static std::map<std::string, std::string> m; std::string &s = m[pre + o]; if (s.empty()) s = pre + o; return s.c_str(); };
  auto expect = [&](const std::string &op, RedBuf &r, std::function<Z(int)> e, const std::string &det) { for (int l = 0; l < L; l++) { Z v = val(O.V, r, l); if (modp(v - e(l)) != 0) R.fail(D.nm + "." + pre + op, "lane=" + std::to_string(l) + " " + det + " got=" + zh(modp(v)) + " want=" + zh(modp(e(l)))); } if (!r.ok(O.V.words())) R.fail(D.nm + "." + pre + op + ".bounds", det); };
  uint64_t n = R.n(L == 1 ? 2000000 : 900000, L == 1 ? 20000000 : 12000000), skipped = 0;
  for (uint64_t it = 0; it < n; it++) {
    uint64_t kind = g.below(20); RedBuf a, b, c; 
    if (kind < 6) { // mul
      genop(O, a, 1); genop(O, b, 1); if (!all_mulok(O, a, b)) { skipped++; continue; } RedBuf sa = a, sb = b; uint64_t al = g.below(5); R.op("mul");
      uint64_t h = hb(O, a, hb(O, b, al)); std::string det = "alias=" + std::to_string(al) + " a=" + dump(O, sa) + " b=" + dump(O, sb);
      if (kind == 5) { O.intmul(c, a, b); RedBuf t = c; expect("intmul", t, [&](int l) { return Z(val(O.V, sa, l) * val(O.V, sb, l)); }, det); O.compress(c); expect("intmul+compress", c, [&](int l) { return Z(val(O.V, sa, l) * val(O.V, sb, l)); }, det); R.eval(cls("intmul"), h); continue; }
      RedBuf *pc = &c, *pb = &b; if (al == 0) pc = &a; else if (al == 1) pc = &b; else if (al == 2) { if (!all_mulok(O, a, a)) continue; pb = &a; sb = sa; }
      O.mul(*pc, a, *pb); expect("mul", *pc, [&](int l) { return Z(val(O.V, sa, l) * val(O.V, sb, l)); }, det);
      if (pc != &a && memcmp(a.w, sa.w, 8 * O.V.words())) R.fail(D.nm + "." + pre + "mul.input", det); R.eval(cls("mul"), h); if (it < 4) R.sample("mul " + det);
      // the product must itself be a good operand
      RedBuf q = *pc, q2 = *pc, t; Z v[4]; for (int l = 0; l < L; l++) v[l] = val(O.V, q, l); O.add(t, q, q2); if (all_mulok(O, t, q)) { RedBuf u; O.mul(u, t, q); expect("mul.chain", u, [&](int l) { return Z(2 * v[l] * v[l]); }, det); }
    } else if (kind < 10) { genop(O, a, 1); if (!all_mulok(O, a, a)) { skipped++; continue; } RedBuf sa = a; R.op("sqr"); std::string det = "a=" + dump(O, sa);
      if (kind == 9 && O.intsqr) { O.intsqr(a); O.compress(a); expect("intsqr+compress", a, [&](int l) { Z v = val(O.V, sa, l); return Z(v * v); }, det); R.eval(cls("intsqr"), hb(O, sa, 7)); }
      else { O.sqr(a); expect("sqr", a, [&](int l) { Z v = val(O.V, sa, l); return Z(v * v); }, det); R.eval(cls("sqr"), hb(O, sa, 8)); }
    } else if (kind < 12) { genop(O, a, 0); genop(O, b, 0); RedBuf sa = a, sb = b; uint64_t al = g.below(4); RedBuf *pc = al == 0 ? &a : al == 1 ? &b : &c; std::string det = "alias=" + std::to_string(al) + " a=" + dump(O, sa) + " b=" + dump(O, sb); uint64_t h = hb(O, a, hb(O, b, kind * 4 + al));
      if (g.chance(1, 2)) { R.op("add"); O.add(*pc, a, b); expect("add", *pc, [&](int l) { return Z(val(O.V, sa, l) + val(O.V, sb, l)); }, det); R.eval(cls("add"), h); }
      else { R.op("sub"); O.sub(*pc, a, b); expect("sub", *pc, [&](int l) { return Z(val(O.V, sa, l) - val(O.V, sb, l)); }, det); R.eval(cls("sub"), h); }
      if (pc == &c && (memcmp(a.w, sa.w, 8 * O.V.words()) || memcmp(b.w, sb.w, 8 * O.V.words()))) R.fail(D.nm + "." + pre + "addsub.input", det);
    } else if (kind < 13) { genop(O, a, 0); genop(O, b, 0); RedBuf sa = a, sb = b; R.op("addsub"); std::string det = "a=" + dump(O, sa) + " b=" + dump(O, sb); RedBuf *s = &a, *d = &b, c2; if (O.addsub) O.addsub(a, b); else { O.addsub4(c, c2, a, b); s = &c; d = &c2; }
      expect("addsub.sum", *s, [&](int l) { return Z(val(O.V, sa, l) + val(O.V, sb, l)); }, det); expect("addsub.diff", *d, [&](int l) { return Z(val(O.V, sa, l) - val(O.V, sb, l)); }, det); R.eval(cls("addsub"), hb(O, sa, hb(O, sb, 3)));
    } else if (kind < 14) { if (!O.neg) continue; genop(O, a, 0); RedBuf sa = a; R.op("neg"); O.neg(a); expect("neg", a, [&](int l) { return Z(-val(O.V, sa, l)); }, "a=" + dump(O, sa)); R.eval(cls("neg"), hb(O, sa, 5));
    } else if (kind < 16) { uint64_t d[16]; int bits = (int)g.below(3) ? 63 : 28 + (int)g.below(35); for (int l = 0; l < L; l++) { genwide(d, bits > 62 ? 62 : bits); put(O.V, a, l, d); } RedBuf sa = a; std::string det = "a=" + dump(O, sa); R.op("compress");
      if (O.compress2 && g.chance(1, 2)) { for (int l = 0; l < L; l++) { genwide(d, bits > 62 ? 62 : bits); put(O.V, b, l, d); } RedBuf sb = b; O.compress2(a, b); expect("compress2.first", a, [&](int l) { return val(O.V, sa, l); }, det); expect("compress2.second", b, [&](int l) { return val(O.V, sb, l); }, "b=" + dump(O, sb)); R.eval(cls("compress2"), hb(O, sa, hb(O, sb, 1))); }
      else { O.compress(a); expect("compress", a, [&](int l) { return val(O.V, sa, l); }, det); R.eval(cls("compress"), hb(O, sa, 9)); }
      // a compressed value must be a legal operand
      RedBuf t; O.add(t, a, a); if (!all_mulok(O, t, a) ) { bool bad = false; uint64_t x[16]; for (int l = 0; l < L; l++) { get(O.V, a, l, x); for (int i = 0; i < D.ND; i++) if (x[i] >> (D.bits(i) + 2)) bad = true; } if (bad) R.fail(D.nm + "." + pre + "compress.range", det + " out=" + dump(O, a)); }
    } else if (kind < 17) { // fast compression, on products of compressed operands
      RedBuf x, y; genop(O, x, 0); genop(O, y, 0); if (!all_mulok(O, x, y)) continue; O.intmul(a, x, y); RedBuf sa = a; R.op("compressfast"); O.compressfast(a); expect("compressfast", a, [&](int l) { return val(O.V, sa, l); }, "a=" + dump(O, sa)); R.eval(cls("compressfast"), hb(O, sa, 2));
    } else { // serialisation
      genop(O, a, 1); RedBuf sa = a; Buf o(D.NB * L); R.op("ser"); O.ser(o.p(), a); Bytes want; for (int l = 0; l < L; l++) { Bytes w = canon(val(O.V, sa, l)); want.insert(want.end(), w.begin(), w.end()); }
      if (Bytes(o.p(), o.p() + D.NB * L) != want) R.fail(D.nm + "." + pre + "ser", "a=" + dump(O, sa) + " got=" + hexs(o.p(), D.NB * L)); if (!o.intact()) R.fail(D.nm + "." + pre + "ser.bounds", "a=" + dump(O, sa)); R.eval(cls("ser"), hb(O, sa, 11));
      if (kind == 18) { Buf i(D.NB * L); Bytes in; for (int l = 0; l < L; l++) { uint64_t w[8]; genwords(w); memcpy(i.p() + l * D.NB, w, D.NB); } in.assign(i.p(), i.p() + D.NB * L); R.op("unser"); O.unser(c, i.p()); expect("unser", c, [&](int l) { return ref::from_le(in.data() + l * D.NB, D.NB); }, hexs(in)); if (memcmp(in.data(), i.p(), in.size()) || !i.intact()) R.fail(D.nm + "." + pre + "unser.input", hexs(in)); R.eval(cls("unser"), fnv(in.data(), in.size()));
        // anything unserialised must be a legal operand
        RedBuf t; O.add(t, c, c); if (all_mulok(O, t, c)) { RedBuf u; O.mul(u, t, c); expect("unser.chain", u, [&](int l) { Z v = ref::from_le(in.data() + l * D.NB, D.NB); return Z(2 * v * v); }, hexs(in)); } }
      if (kind == 19 && g.chance(1, 8)) { R.op("misc"); auto pv = parse_hex(captured([&](FILE *f) { O.print(f, a); })); bool good = (int)pv.size() == L; for (int l = 0; good && l < L; l++) good = pv[l] >= 0 && modp(pv[l] - val(O.V, sa, l)) == 0; if (!good) R.fail(D.nm + "." + pre + "print", dump(O, sa)); O.copy(c, a); expect("copy", c, [&](int l) { return val(O.V, sa, l); }, dump(O, sa)); O.zero(c); expect("zero", c, [&](int) { return Z(0); }, ""); for (int l = 0; l < L; l++) if (val(O.V, c, l) != 0) R.fail(D.nm + "." + pre + "zero", "non-zero digits"); R.eval(cls("misc"), hb(O, sa, 12)); }
    } }
  R.classes[pre + "outside-operand-domain"] += skipped;
  // straight-line programs over the whole table; the harness keeps operand depth legal
  uint64_t np = R.n(4000, 100000);
  for (uint64_t it = 0; it < np; it++) { const int NR = 4; RedBuf r[NR]; std::vector<Z> z[NR]; int dep[NR]; std::string tr; for (int i = 0; i < NR; i++) { genop(O, r[i], 0); dep[i] = 0; for (int l = 0; l < L; l++) z[i].push_back(modp(val(O.V, r[i], l))); tr += dump(O, r[i]); } uint64_t hh = fnv(tr.data(), tr.size());
    for (int s = 0; s < 20; s++) { int o = (int)g.below(6), i = (int)g.below(NR), j = (int)g.below(NR), k = (int)g.below(NR); R.op("program"); hh = hh * 131 + o * 64 + i * 16 + j * 4 + k; 
      if (o < 2) { if (dep[j] || dep[k]) { o = 2; } } if ((o == 2 || o == 3) && !all_mulok(O, r[j], r[k])) { O.compress(r[j]); O.compress(r[k]); dep[j] = dep[k] = 0; }
      tr += " " + std::to_string(o) + std::to_string(i) + std::to_string(j) + std::to_string(k); std::vector<Z> e(L); int res = i;
      if (o == 0) { O.add(r[i], r[j], r[k]); for (int l = 0; l < L; l++) e[l] = z[j][l] + z[k][l]; dep[i] = 1; }
      else if (o == 1) { O.sub(r[i], r[j], r[k]); for (int l = 0; l < L; l++) e[l] = z[j][l] - z[k][l]; dep[i] = 1; }
      else if (o < 4) { O.mul(r[i], r[j], r[k]); for (int l = 0; l < L; l++) e[l] = z[j][l] * z[k][l]; dep[i] = 0; }
      else if (o == 4) { if (!all_mulok(O, r[i], r[i])) { O.compress(r[i]); } O.sqr(r[i]); for (int l = 0; l < L; l++) e[l] = z[i][l] * z[i][l]; dep[i] = 0; }
      else { O.compress(r[i]); e = z[i]; dep[i] = 0; }
      bool bad = false; for (int l = 0; l < L; l++) { z[res][l] = modp(e[l]); if (modp(val(O.V, r[res], l) - z[res][l]) != 0) bad = true; } if (bad) { R.fail(D.nm + "." + pre + "program", tr); break; } }
    R.eval(cls("program"), hh); }
}

template <class T> static void wire_common(Ops &O, const T &P) { (void)O; (void)P; }
static Ops ops1() { const Fp_1w_redradix *P = &D.F->_1w_red; Ops O; O.lanes = 1; O.nm = "1w"; O.V.lanes = 1;
  O.add = [=](RedBuf &c, RedBuf &a, RedBuf &b) { P->arith.add(c.w, a.w, b.w); }; O.sub = [=](RedBuf &c, RedBuf &a, RedBuf &b) { P->arith.sub(c.w, a.w, b.w); }; O.mul = [=](RedBuf &c, RedBuf &a, RedBuf &b) { P->arith.mul(c.w, a.w, b.w); }; O.intmul = [=](RedBuf &c, RedBuf &a, RedBuf &b) { P->arithex.intmul(c.w, a.w, b.w); };
  O.sqr = [=](RedBuf &c) { P->arith.sqr(c.w); }; if (P->arith.neg) O.neg = [=](RedBuf &c) { P->arith.neg(c.w); }; O.compress = [=](RedBuf &c) { P->arithex.compress(c.w); }; O.compressfast = [=](RedBuf &c) { P->arithex.compressfast(c.w); };
  O.addsub = [=](RedBuf &a, RedBuf &b) { P->arithex.addsub(a.w, b.w); }; O.ser = [=](uint8_t *o, RedBuf &a) { P->arith.misc.ser(o, a.w); }; O.unser = [=](RedBuf &a, uint8_t *i) { P->arith.misc.unser(a.w, i); };
  O.copy = [=](RedBuf &c, RedBuf &a) { P->arith.misc.copy(c.w, a.w); }; O.zero = [=](RedBuf &c) { P->arith.misc.zero(c.w); }; O.print = [=](FILE *f, RedBuf &a) { P->arith.misc.print(f, a.w); }; return O; }
template <class P_> static Ops opsv(const P_ *P, int lanes) { Ops O; O.lanes = lanes; O.nm = std::to_string(lanes) + "w"; O.V.lanes = lanes;
  O.add = [=](RedBuf &c, RedBuf &a, RedBuf &b) { P->arith.add(c.v(), a.v(), b.v()); }; O.sub = [=](RedBuf &c, RedBuf &a, RedBuf &b) { P->arith.sub(c.v(), a.v(), b.v()); }; O.mul = [=](RedBuf &c, RedBuf &a, RedBuf &b) { P->arith.mul(c.v(), a.v(), b.v()); }; O.intmul = [=](RedBuf &c, RedBuf &a, RedBuf &b) { P->arithex.intmul(c.v(), a.v(), b.v()); };
  O.sqr = [=](RedBuf &c) { P->arith.sqr(c.v()); }; O.intsqr = [=](RedBuf &c) { P->arithex.intsqr(c.v()); }; if (P->arith.neg) O.neg = [=](RedBuf &c) { P->arith.neg(c.v()); }; O.compress = [=](RedBuf &c) { P->arithex.compress(c.v()); }; O.compress2 = [=](RedBuf &c, RedBuf &d) { P->arithex.compress2(c.v(), d.v()); }; O.compressfast = [=](RedBuf &c) { P->arithex.compressfast(c.v()); };
  O.ser = [=](uint8_t *o, RedBuf &a) { P->arith.misc.ser(o, a.v()); }; O.unser = [=](RedBuf &a, uint8_t *i) { P->arith.misc.unser(a.v(), i); };
  O.copy = [=](RedBuf &c, RedBuf &a) { P->arith.misc.copy(c.v(), a.v()); }; O.zero = [=](RedBuf &c) { P->arith.misc.zero(c.v()); }; O.print = [=](FILE *f, RedBuf &a) { P->arith.misc.print(f, a.v()); }; return O; }

// operations that exist on one table only
static void extra1(Ops O) { const Fp_1w_redradix *P = &D.F->_1w_red; Rng &g = R.rng; uint64_t n = R.n(60000, 1200000);
  for (uint64_t it = 0; it < n; it++) { RedBuf a, b, c; genop(O, a, 1); RedBuf sa = a; Z va = modp(val(O.V, a, 0)); std::string det = "a=" + dump(O, sa); uint64_t h = hb(O, a, 77); uint64_t k = g.below(14);
    if (k < 5) { R.op("cmp"); uint64_t m = g.below(5); if (m == 0) genop(O, b, 1); else { Z q = va; if (m == 2) q ^= Z(1) << (unsigned)g.below(8 * D.NB - 1); if (m == 3) for (int j = 0; j < 3; j++) q ^= (Z(2) << (unsigned)(g.below(D.NB - 1) * 8)); if (m == 4) { q = q + 2 * (Z(1) << (unsigned)(8 * g.below(D.NB - 1))); } q = modp(q); RedBuf t; uint64_t d[16]; 
        for (int i = 0; i < D.ND; i++) { Z x = (q >> (unsigned)D.ex(i)) & ((Z(1) << D.bits(i)) - 1); d[i] = x.get_ui(); } put(O.V, b, 0, d); if (g.chance(1, 2)) { P->arith.prime(t.w); RedBuf u = b; P->arith.add(b.w, u.w, t.w); } }
      Z vb = modp(val(O.V, b, 0)); int r = P->arith.cmp(a.w, b.w); bool eq = va == vb; if ((r == 0) != eq) R.fail(D.nm + ".1w.cmp", det + " b=" + dump(O, b) + " ret=" + std::to_string(r)); R.eval(eq ? "1w.cmp.equal" : "1w.cmp.differ", hb(O, b, h)); }
    else if (k < 7) { if (!P->arith.sgn) continue; R.op("sgn"); int r = P->arith.sgn(a.w); if (r != (int)mpz_odd_p(va.get_mpz_t())) R.fail(D.nm + ".1w.sgn", det); R.eval("1w.sgn", h); }
    else if (k < 9) { if (!P->arith.cmv) continue; R.op("cmv"); genop(O, b, 1); Z vb = modp(val(O.V, b, 0)); int bit = (int)g.below(2); uint64_t al = g.below(3); RedBuf *pc = al == 0 ? &a : al == 1 ? &b : &c; uint64_t hh = hb(O, b, h); P->arith.cmv(bit, pc->w, a.w, b.w); if (modp(val(O.V, *pc, 0)) != (bit ? vb : va)) R.fail(D.nm + ".1w.cmv", det); R.eval("1w.cmv", hh); }
    else if (k == 9) { if (!g.chance(1, 2) || !all_mulok(O, a, a)) continue; R.op("inv"); P->arith.inv(c.w, a.w); Z e = ref::powm(va, D.p - 2, D.p); if (modp(val(O.V, c, 0)) != e) R.fail(D.nm + ".1w.inv", det); if (modp(val(O.V, a, 0)) != va) R.fail(D.nm + ".1w.inv.input", det); R.eval("1w.inv", h); }
    else if (k == 10) { if (!g.chance(1, 2) || !P->arith.srt) continue; RedBuf v; genop(O, v, 0); Z vv = modp(val(O.V, v, 0)); if (vv == 0) continue; R.op("srt"); RedBuf sv = v;
      if (D.is448) { P->arith.srt(c.w, v.w); Z r = modp(val(O.V, c, 0)); if (ref::is_square(vv, D.p)) { if (modp(r * r * vv - 1) != 0) R.fail(D.nm + ".1w.srt", "v=" + zh(vv)); R.eval("1w.invsqrt.square", h); } else R.eval("1w.invsqrt.nonsquare", h, false); }
      else { Z x = g.chance(1, 6) ? Z(g.below(4)) : va; Z u = modp(x * x * vv); uint64_t d[16]; for (int i = 0; i < D.ND; i++) { Z t = (u >> (unsigned)D.ex(i)) & ((Z(1) << D.bits(i)) - 1); d[i] = t.get_ui(); } put(O.V, c, 0, d); P->arith.srt(c.w, v.w); Z r = modp(val(O.V, c, 0)); if (modp(r * r * vv - u) != 0) R.fail(D.nm + ".1w.srt", "u=" + zh(u) + " v=" + zh(vv) + " got=" + zh(r)); if (modp(val(O.V, v, 0)) != vv) R.fail(D.nm + ".1w.srt.input", det); R.eval("1w.srt", h); } }
    else if (k == 11) { R.op("prime"); P->arith.prime(c.w); if (val(O.V, c, 0) != D.p) R.fail(D.nm + ".1w.prime", dump(O, c)); R.eval("1w.prime", 1); }
    else if (k == 12) { R.op("alloc"); uint64_t *q = P->arith.misc.alloc(); if (!q || (uintptr_t)q % 32) R.fail(D.nm + ".1w.alloc", "null or misaligned"); else { P->arith.misc.zero(q); memcpy(q, a.w, 8 * O.V.words()); Buf o(D.NB); P->arith.misc.ser(o.p(), q); if (Bytes(o.p(), o.p() + D.NB) != canon(va)) R.fail(D.nm + ".1w.alloc", det); P->arith.misc.free(q); } R.eval("1w.alloc", h); }
    else { if (!g.chance(1, 20)) continue; R.op("rand"); RedBuf c2; P->arith.misc.rand(c.w); P->arith.misc.rand(c2.w); if (!c.ok(O.V.words()) || val(O.V, c, 0) == val(O.V, c2, 0) || val(O.V, c, 0) >> (D.is448 ? 449u : 256u) != 0) R.fail(D.nm + ".1w.rand", dump(O, c) + dump(O, c2)); R.eval("1w.rand", hb(O, c, 1)); } } }

static void lanes_of(__m256i v, uint64_t *o) { _mm256_storeu_si256((__m256i *)o, v); }
static void genpair(Ops &O, RedBuf &a, RedBuf &b, bool *eq) { // lane-wise: equal, equal mod p, tiny or structured differences
  Rng &g = R.rng; genop(O, a, 1); for (int l = 0; l < O.lanes; l++) { Z va = modp(val(O.V, a, l)), q = va; switch (g.below(6)) { case 0: q = ref::from_le(g.bytes(D.NB).data(), D.NB); break; case 1: q ^= Z(1) << (unsigned)g.below(8 * D.NB - 1); break; case 2: for (int j = 0; j < 3; j++) q ^= Z(2) << (unsigned)(g.below(D.NB - 1) * 8); break; case 3: q += 2; break; default: break; }
    q = modp(q); uint64_t d[16]; for (int i = 0; i < D.ND; i++) { Z x = (q >> (unsigned)D.ex(i)) & ((Z(1) << D.bits(i)) - 1); d[i] = x.get_ui(); } put(O.V, b, l, d); eq[l] = q == va; } }

static void extra2(Ops O, Ops O1) { const Fp_2w_redradix *P = &D.F->_2w_red; Rng &g = R.rng; uint64_t n = R.n(80000, 1600000);
  for (uint64_t it = 0; it < n; it++) { RedBuf a, b, c; uint64_t k = g.below(12); uint64_t q[4];
    if (k < 3) { bool eq[4]; genpair(O, a, b, eq); R.op("cmp"); uint64_t h = hb(O, a, hb(O, b, 1)); RedBuf sa = a; lanes_of(P->arith.cmp(a.v(), b.v()), q); for (int l = 0; l < 2; l++) if ((q[2 * l] == 0) != eq[l]) R.fail(D.nm + ".2w.cmp", "lane=" + std::to_string(l) + " a=" + dump(O, sa) + " b=" + dump(O, b)); R.eval(eq[0] == eq[1] ? "2w.cmp.same" : "2w.cmp.mixed", h); }
    else if (k < 5) { if (!P->arith.cmv) continue; genop(O, a, 1); genop(O, b, 1); RedBuf sa = a, sb = b; uint64_t m0 = g.below(2), m1 = g.below(2), al = g.below(3); R.op("cmv"); RedBuf *pc = al == 0 ? &a : al == 1 ? &b : &c; P->arith.cmv(_mm256_set_epi64x(0, (long long)m1, 0, (long long)m0), pc->v(), a.v(), b.v());
      for (int l = 0; l < 2; l++) if (modp(val(O.V, *pc, l) - val(O.V, (l ? m1 : m0) ? sb : sa, l)) != 0) R.fail(D.nm + ".2w.cmv", "lane=" + std::to_string(l) + " m=" + std::to_string(m0) + std::to_string(m1) + " a=" + dump(O, sa) + " b=" + dump(O, sb)); R.eval("2w.cmv", hb(O, sa, hb(O, sb, m0 * 2 + m1))); }
    else if (k < 7) { if (!P->arith.sgn) continue; genop(O, a, 1); R.op("sgn"); lanes_of(P->arith.sgn(a.v()), q); for (int l = 0; l < 2; l++) if ((q[2 * l] & 1) != (uint64_t)mpz_odd_p(modp(val(O.V, a, l)).get_mpz_t())) R.fail(D.nm + ".2w.sgn", dump(O, a)); R.eval("2w.sgn", hb(O, a, 5)); }
    else if (k < 9) { if (!P->arith.ngz) continue; genop(O, a, 0); RedBuf sa = a; uint64_t al = g.below(2); RedBuf *pc = al ? &a : &c; R.op("ngz"); P->arith.ngz(pc->v(), a.v()); for (int l = 0; l < 2; l++) if (modp(val(O.V, *pc, l) - (l == 0 ? Z(-val(O.V, sa, 0)) : val(O.V, sa, 1))) != 0) R.fail(D.nm + ".2w.ngz", "lane=" + std::to_string(l) + " " + dump(O, sa)); R.eval("2w.ngz", hb(O, sa, 6)); }
    else if (k < 11) { RedBuf x, y; genop(O1, x, 1); genop(O1, y, 1); RedBuf u, v; R.op("inter"); P->arithex.inter(a.v(), x.w, y.w); for (int l = 0; l < 2; l++) if (val(O.V, a, l) != val(O1.V, l ? y : x, 0)) R.fail(D.nm + ".2w.inter", dump(O1, x) + dump(O1, y)); P->arithex.deinter(u.w, v.w, a.v()); if (val(O1.V, u, 0) != val(O1.V, x, 0) || val(O1.V, v, 0) != val(O1.V, y, 0)) R.fail(D.nm + ".2w.deinter", dump(O1, x) + dump(O1, y)); if (!a.ok(O.V.words()) || !u.ok(O1.V.words()) || !v.ok(O1.V.words())) R.fail(D.nm + ".2w.inter.bounds", dump(O1, x)); R.eval("2w.inter", hb(O1, x, hb(O1, y, 1))); }
    else { R.op("misc"); __m256i *t = P->arith.misc.alloc(); genop(O, a, 1); if (!t || (uintptr_t)t % 32) R.fail(D.nm + ".2w.alloc", "null or misaligned"); else { P->arith.misc.copy(t, a.v()); Buf o(2 * D.NB); P->arith.misc.ser(o.p(), t); for (int l = 0; l < 2; l++) if (Bytes(o.p() + l * D.NB, o.p() + (l + 1) * D.NB) != canon(val(O.V, a, l))) R.fail(D.nm + ".2w.alloc", dump(O, a)); if (g.chance(1, 20)) { P->arith.misc.rand(t); memcpy(c.w, t, 8 * O.V.words()); if (val(O.V, c, 0) == val(O.V, c, 1)) R.fail(D.nm + ".2w.rand", dump(O, c)); } P->arith.misc.free(t); } R.eval("2w.misc", hb(O, a, 8)); } } }

static void extra4(Ops O) { const Fp_4w_redradix *P = &D.F->_4w_red; Rng &g = R.rng; uint64_t n = R.n(80000, 1600000);
  for (uint64_t it = 0; it < n; it++) { RedBuf a, b, c; uint64_t k = g.below(12); uint64_t q[4];
    if (k < 3) { bool eq[4]; genpair(O, a, b, eq); R.op("cmp"); RedBuf sa = a; lanes_of(P->arith.cmp(a.v(), b.v()), q); for (int l = 0; l < 4; l++) if ((q[l] == 0) != eq[l]) R.fail(D.nm + ".4w.cmp", "lane=" + std::to_string(l) + " a=" + dump(O, sa) + " b=" + dump(O, b)); R.eval("4w.cmp", hb(O, sa, hb(O, b, 1))); }
    else if (k < 5) { if (!P->arith.ngz) continue; genop(O, a, 0); RedBuf sa = a; R.op("ngz"); uint64_t al = 1; (void)al; P->arith.ngz(c.v(), a.v()); const int src[4] = {1, 0, 2, 3}; for (int l = 0; l < 4; l++) { Z w = val(O.V, sa, src[l]); if (l == 2) w = -w; if (modp(val(O.V, c, l) - w) != 0) R.fail(D.nm + ".4w.ngz", "lane=" + std::to_string(l) + " " + dump(O, sa)); } R.eval("4w.ngz", hb(O, sa, 6)); }
    else if (k < 8) { RedBuf x, y; genop(O, x, 0); genop(O, y, 0); if (!all_mulok(O, x, y)) continue; O.intmul(a, x, y); genop(O, x, 0); genop(O, y, 0); if (!all_mulok(O, x, y)) continue; O.intmul(b, x, y); RedBuf sa = a, sb = b; R.op("addsublar"); P->arithex.addsublar(a.v(), b.v());
      for (int l = 0; l < 4; l++) { if (modp(val(O.V, a, l) - val(O.V, sa, l) - val(O.V, sb, l)) != 0) R.fail(D.nm + ".4w.addsublar.sum", dump(O, sa) + dump(O, sb)); if (modp(val(O.V, b, l) - val(O.V, sa, l) + val(O.V, sb, l)) != 0) R.fail(D.nm + ".4w.addsublar.diff", dump(O, sa) + dump(O, sb)); } R.eval("4w.addsublar", hb(O, sa, hb(O, sb, 4))); }
    else if (k < 10) { RedBuf x, y; genop(O, x, 0); genop(O, y, 0); if (!all_mulok(O, x, y)) continue; O.intmul(a, x, y); O.intmul(b, y, y); RedBuf sa = a, sb = b; R.op("new_compressfast2"); if (!P->arithex.new_compressfast2) continue; P->arithex.new_compressfast2(a.v(), b.v()); for (int l = 0; l < 4; l++) if (modp(val(O.V, a, l) - val(O.V, sa, l)) != 0 || modp(val(O.V, b, l) - val(O.V, sb, l)) != 0) R.fail(D.nm + ".4w.new_compressfast2", dump(O, sa) + dump(O, sb)); R.eval("4w.new_compressfast2", hb(O, sa, hb(O, sb, 9))); }
    else if (k == 10) { if (!P->arith.srt || !g.chance(1, 4)) continue; RedBuf v; genop(O, v, 0); RedBuf x; genop(O, x, 0); R.op("srt"); Z u[4], vv[4]; bool skip = false; uint64_t d[16]; for (int l = 0; l < 4; l++) { vv[l] = modp(val(O.V, v, l)); if (vv[l] == 0) skip = true; Z xx = modp(val(O.V, x, l)); u[l] = modp(xx * xx * vv[l]); for (int i = 0; i < D.ND; i++) { Z t = (u[l] >> (unsigned)D.ex(i)) & ((Z(1) << D.bits(i)) - 1); d[i] = t.get_ui(); } put(O.V, c, l, d); } if (skip) continue; P->arith.srt(c.v(), v.v()); for (int l = 0; l < 4; l++) { Z r = modp(val(O.V, c, l)); if (modp(r * r * vv[l] - u[l]) != 0) R.fail(D.nm + ".4w.srt", "lane=" + std::to_string(l) + " u=" + zh(u[l]) + " v=" + zh(vv[l]) + " got=" + zh(r)); if (modp(val(O.V, v, l) - vv[l]) != 0) R.fail(D.nm + ".4w.srt.input", "lane " + std::to_string(l)); } R.eval("4w.srt", hb(O, v, hb(O, x, 3))); }
    else { R.op("misc"); __m256i *t = P->arith.misc.alloc(); genop(O, a, 1); if (!t || (uintptr_t)t % 32) R.fail(D.nm + ".4w.alloc", "null or misaligned"); else { P->arith.misc.copy(t, a.v()); Buf o(4 * D.NB); P->arith.misc.ser(o.p(), t); for (int l = 0; l < 4; l++) if (Bytes(o.p() + l * D.NB, o.p() + (l + 1) * D.NB) != canon(val(O.V, a, l))) R.fail(D.nm + ".4w.alloc", dump(O, a)); if (g.chance(1, 20)) { P->arith.misc.rand(t); memcpy(c.w, t, 8 * O.V.words()); for (int l = 1; l < 4; l++) if (val(O.V, c, 0) == val(O.V, c, l)) R.fail(D.nm + ".4w.rand", dump(O, c)); } P->arith.misc.free(t); } R.eval("4w.misc", hb(O, a, 8)); } } }

int main(int argc, char **argv) {
  std::map<std::string, std::string> opt; parse_args(argc, argv, opt); install_handlers(); std::string cmd = opt["cmd"];
  D.is448 = cmd.find("448") != std::string::npos; D.F = D.is448 ? &Fp448 : &Fp25519; D.p = D.is448 ? ref::p448() : ref::p25519(); D.NF = D.is448 ? 7 : 4; D.NB = D.is448 ? 56 : 32; D.ND = D.is448 ? 16 : 10; D.half = D.ND / 2; D.a24 = D.is448 ? 39082 : 121666; D.nm = D.is448 ? "Fp448" : "Fp25519";
  if (cmd.rfind("full", 0) == 0) { D.nm += ".full"; run_full(); }
  else if (cmd.rfind("red", 0) == 0) { D.nm += ".red"; Ops o = ops1(); run_red(o); extra1(o); }
  else if (cmd.rfind("vec", 0) == 0) { D.nm += ".vec"; Ops o1 = ops1(), o2 = opsv(&D.F->_2w_red, 2); o2.addsub = [](RedBuf &a, RedBuf &b) { D.F->_2w_red.arithex.addsub(a.v(), b.v()); }; run_red(o2); extra2(o2, o1);
    Ops o4 = opsv(&D.F->_4w_red, 4); o4.addsub4 = [](RedBuf &c, RedBuf &d, RedBuf &a, RedBuf &b) { D.F->_4w_red.arithex.addsub(c.v(), d.v(), a.v(), b.v()); }; run_red(o4); extra4(o4); }
  else { fprintf(stderr, "usage\n"); return 2; }
  R.finish(); return 0; }
