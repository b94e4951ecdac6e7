// Online monitor of the EdDSA API (Ed25519 pure/ctx/ph, Ed448 ctx/ph).
//   eddsa <sign25519|sign448>      keygen and sign, byte for byte against RFC 8032 on GMP
//   eddsa <verify25519|verify448>  verdict on honest, mutated and adversarially built signatures
//   eddsa <modes25519|modes448>    separation of modes and contexts, context-length errors
#include "ref.hpp"
#ifdef HMAP
#include "hmap.hpp"
#endif
#include "faz_eddsa_avx2.h"
using namespace faz::eddsa;
#ifdef HMAP
#define HRESET() hm::reset()
#else
#define HRESET() (void)0
#endif
Report R;
static bool is448; static size_t NK, NS;
struct M { const char *nm; ref::Mode m; bool ctx; std::function<int(uint8_t *, const uint8_t *, uint64_t, const uint8_t *, uint64_t, uint8_t *, uint8_t *)> sign;
  std::function<int(const uint8_t *, uint64_t, const uint8_t *, uint64_t, uint8_t *, uint8_t *)> verify; SignKeyGen keygen; };
static std::vector<M> modes;
static void setup() {
  if (!is448) { NK = 32; NS = 64;
    modes.push_back({"Ed25519", {false, false, 0}, false, [](uint8_t *s, const uint8_t *m, uint64_t l, const uint8_t *, uint64_t, uint8_t *pk, uint8_t *sk) { return Ed25519.Pure.sign(s, m, l, pk, sk); }, [](const uint8_t *m, uint64_t l, const uint8_t *, uint64_t, uint8_t *pk, uint8_t *s) { return Ed25519.Pure.verify(m, l, pk, s); }, Ed25519.Pure.keygen});
    modes.push_back({"Ed25519ctx", {false, true, 0}, true, Ed25519.Context.sign, Ed25519.Context.verify, Ed25519.Context.keygen});
    modes.push_back({"Ed25519ph", {false, true, 1}, true, Ed25519.PreHash.sign, Ed25519.PreHash.verify, Ed25519.PreHash.keygen});
    if (Ed25519.Pure.key_size != 32 || Ed25519.Context.key_size != 32 || Ed25519.PreHash.key_size != 32 || Ed25519.Pure.signature_size != 64 || Ed25519.Context.signature_size != 64 || Ed25519.PreHash.signature_size != 64) R.fail("Ed25519.sizes", "key_size/signature_size");
  } else { NK = 57; NS = 114;
    modes.push_back({"Ed448", {true, true, 0}, true, Ed448.PureContext.sign, Ed448.PureContext.verify, Ed448.PureContext.keygen});
    modes.push_back({"Ed448ph", {true, true, 1}, true, Ed448.PreHash.sign, Ed448.PreHash.verify, Ed448.PreHash.keygen});
    if (Ed448.PureContext.key_size != 57 || Ed448.PreHash.key_size != 57 || Ed448.PureContext.signature_size != 114 || Ed448.PreHash.signature_size != 114) R.fail("Ed448.sizes", "key_size/signature_size"); } }
static const ref::Curve &C() { return is448 ? ref::E448() : ref::E25519(); }

// an exactly sized copy at a chosen misalignment, with canaries, that must not change
struct In { Buf b; Bytes v; In(const Bytes &x, size_t mis) : b(x.size(), mis), v(x) { if (!x.empty()) memcpy(b.p(), x.data(), x.size()); } uint8_t *p() { return b.p(); } bool ok() { return (v.empty() || !memcmp(b.p(), v.data(), v.size())) && b.intact(); } };
static Bytes gen_msg() { Rng &g = R.rng; uint64_t k = g.below(20); size_t n; if (k < 8) n = g.below(80); else if (k < 15) n = g.below(600); else if (k < 18) { static const int bl[] = {128, 136, 64, 112, 111, 110, 72, 104}; n = bl[g.below(8)] * g.below(5) + g.below(9); n = n > 4 ? n - 4 : 0; } else n = g.below(5000);
  if (g.chance(1, 12)) return Bytes(n, g.chance(1, 2) ? 0 : 0xff); return g.bytes(n); }
static Bytes gen_ctx(const M &m) { Rng &g = R.rng; if (!m.ctx) return Bytes(); uint64_t k = g.below(8); size_t n = k < 2 ? 0 : k < 4 ? g.below(20) : k == 4 ? 255 : g.below(256); return g.bytes(n); }
static Bytes gen_seed() { Rng &g = R.rng; if (g.chance(7, 8)) return g.bytes(NK); Bytes b(NK, g.chance(1, 2) ? 0 : 0xff); if (g.chance(1, 2)) b[g.below(NK)] ^= (uint8_t)(1 << g.below(8)); return b; }
static std::string ctxs(const M &m, const Bytes &msg, const Bytes &ctx) { return std::string(m.nm) + " msg[" + std::to_string(msg.size()) + "]=" + hexs(msg) + " ctx[" + std::to_string(ctx.size()) + "]=" + hexs(ctx); }

static Bytes do_keygen(const M &m, const Bytes &sk) { Rng &g = R.rng; In s(sk, g.below(33)); Buf o(NK, g.below(33)); HRESET(); R.op("keygen"); int rc = m.keygen(o.p(), s.p()); std::string k = std::string(m.nm) + ".keygen";
  if (rc != EDDSA_KEYGEN_OK) R.fail(k + ".rc", "rc=" + std::to_string(rc) + " sk=" + hexs(sk)); if (!s.ok()) R.fail(k + ".input", hexs(sk)); if (!o.intact()) R.fail(k + ".bounds", hexs(sk)); return Bytes(o.p(), o.p() + NK); }
static Bytes do_sign(const M &m, const Bytes &msg, const Bytes &ctx, const Bytes &pk, const Bytes &sk, int *rcout = 0) { Rng &g = R.rng; In a(msg, g.below(33)), c(ctx, g.below(33)), p(pk, g.below(33)), s(sk, g.below(33)); Buf o(NS, g.below(33)); HRESET(); R.op("sign");
  int rc = m.sign(o.p(), a.p(), msg.size(), c.p(), ctx.size(), p.p(), s.p()); std::string k = std::string(m.nm) + ".sign";
  if (rcout) *rcout = rc; else if (rc != EDDSA_SIGNATURE_OK) R.fail(k + ".rc", "rc=" + std::to_string(rc) + " " + ctxs(m, msg, ctx));
  if (!a.ok() || !c.ok() || !p.ok() || !s.ok()) R.fail(k + ".input", ctxs(m, msg, ctx)); if (!o.intact()) R.fail(k + ".bounds", ctxs(m, msg, ctx)); return Bytes(o.p(), o.p() + NS); }
static int do_verify(const M &m, const Bytes &msg, const Bytes &ctx, const Bytes &pk, const Bytes &sig) { Rng &g = R.rng; In a(msg, g.below(33)), c(ctx, g.below(33)), p(pk, g.below(33)), s(sig, g.below(33)); HRESET(); R.op("verify");
  int rc = m.verify(a.p(), msg.size(), c.p(), ctx.size(), p.p(), s.p()); if (!a.ok() || !c.ok() || !p.ok() || !s.ok()) R.fail(std::string(m.nm) + ".verify.input", ctxs(m, msg, ctx)); return rc; }

// ------------------------------- keygen / sign --------------------------------------
static Z gen_scalar();
static void run_sign() { Rng &g = R.rng; uint64_t n = is448 ? R.n(4800, 120000) : R.n(16000, 400000);
  for (uint64_t i = 0; i < n; i++) { Bytes sk = gen_seed(); const M &mk = modes[g.below(modes.size())]; Bytes pk = do_keygen(mk, sk), wpk = ref::keygen(mk.m, sk);
    if (pk != wpk) R.fail(std::string(mk.nm) + ".keygen", "sk=" + hexs(sk) + " got=" + hexs(pk) + " want=" + hexs(wpk)); R.eval("keygen", fnv(sk.data(), NK)); pk = wpk;
    if (g.chance(1, 10)) { pk = g.bytes(NK); }   // the public key argument only enters the hash
    for (const M &m : modes) { Bytes msg = gen_msg(), ctx = gen_ctx(m); if (i < modes.size() * 0 + 1) R.sample("sk=" + hexs(sk) + " " + ctxs(m, Bytes(msg.begin(), msg.begin() + std::min<size_t>(msg.size(), 16)), Bytes(ctx.begin(), ctx.begin() + std::min<size_t>(ctx.size(), 16))));
      Bytes sig = do_sign(m, msg, ctx, pk, sk), want = ref::sign(m.m, msg, ctx, pk, sk);
      if (sig != want) R.fail(std::string(m.nm) + ".sign", "sk=" + hexs(sk) + " pk=" + hexs(pk) + " got=" + hexs(sig) + " want=" + hexs(want) + " " + ctxs(m, msg, ctx));
      R.eval(m.nm, fnv(sig.data(), NS, fnv(sk.data(), NK))); } }
  // every context length 0..255 once per run, every message length around the block sizes
#ifdef HMAP
  // The digests of one signature solved backwards: the secret scalar and the challenge have extreme words and the
  // commitment is chosen so that r + k*a does, too (modulo the order, or its low words before any reduction).
  for (uint64_t i = 0; i < n; i++) { const M &m = modes[g.below(modes.size())]; const ref::Curve &c = C(); size_t B = c.blen, hl = 2 * B, W = is448 ? 7 : 4; Bytes sk = gen_seed(), msg = gen_msg(), ctx = gen_ctx(m), dom = ref::prefix(m.m, ctx); if (msg.size() > 300) msg.resize(300);
    hm::over.clear(); auto raw = [&](const Bytes &x) { return is448 ? ref::sponge_bytes(136, x.data(), x.size(), 0x1F, 114) : ref::raw_sha512(x); };
    auto scalar = [&](bool wide) { Z v = g.chance(1, 2) ? hm::words(g, W) : gen_scalar(); return wide ? ref::mod(v, Z(1) << (unsigned)(8 * (is448 ? 56 : 32))) : ref::mod(v, c.L); };
    auto digest = [&](const Z &v) { Bytes o(hl); Z q = (Z(1) << (unsigned)(8 * hl)) / c.L - 1; Z mlt = g.chance(1, 3) ? Z(0) : g.chance(1, 2) ? ref::mod(hm::words(g, hl / 8 + 1), q) : Z((long)g.below(20)); ref::to_le(v + mlt * c.L, o.data(), hl); return o; };
    Z a0 = scalar(true), k = scalar(false); Bytes az(hl); { Bytes lo(B, 0); ref::to_le(a0, lo.data(), is448 ? 56 : 32); std::copy(lo.begin(), lo.end(), az.begin()); Bytes hi = g.bytes(B); std::copy(hi.begin(), hi.end(), az.begin() + B); } hm::over[raw(sk)] = az;
    Bytes pre; Z a = ref::expand(m.m, sk, pre), am = g.chance(1, 2) ? a : ref::mod(a, c.L); Bytes pk = ref::keygen(m.m, sk), ph = ref::PH(m.m, msg);
    unsigned tw = 64 * (unsigned)(1 + g.below(W - 1)); Z M2; switch (g.below(4)) { case 0: M2 = c.L; break; case 1: M2 = Z(1) << tw; break; default: M2 = Z(1) << (unsigned)(is448 ? 445 : 252); }
    Z T = hm::words(g, W), r = ref::mod(T - k * am, M2); if (M2 < c.L && g.chance(1, 2)) { Z q = (c.L - r) / M2; if (q > 0) r += M2 * ref::mod(hm::words(g, W), q); }
    Bytes rd = digest(r); hm::over[raw(ref::cat({dom, pre, ph}))] = rd; Bytes Rb = c.enc(c.mulB(r)); hm::over[raw(ref::cat({dom, Rb, pk, ph}))] = digest(k);
    Bytes gpk = do_keygen(m, sk); if (gpk != pk) R.fail(std::string(m.nm) + ".keygen", "solved a=" + hexs(az) + " got=" + hexs(gpk) + " want=" + hexs(pk));
    Bytes sig = do_sign(m, msg, ctx, pk, sk), want = ref::sign(m.m, msg, ctx, pk, sk); if (Z(ref::mod(r + k * a, c.L)) != ref::from_le(want.data() + B, B)) R.fail("oracle", "solved signature");
    if (sig != want) R.fail(std::string(m.nm) + ".sign", "solved sk=" + hexs(sk) + " az=" + hexs(az) + " r=" + hexs(rd) + " got=" + hexs(sig) + " want=" + hexs(want) + " " + ctxs(m, msg, ctx));
    if (i % 8 == 0) { int rc = do_verify(m, msg, ctx, pk, want); if (rc != EDDSA_VERIFICATION_OK) R.fail(std::string(m.nm) + ".rejects_valid", "solved pk=" + hexs(pk) + " sig=" + hexs(want) + " rc=" + std::to_string(rc)); }
    R.eval((std::string(m.nm) + ".solved").c_str(), fnv(sig.data(), NS, fnv(az.data(), hl))); }
  hm::over.clear();
#endif
  for (size_t l = R.shard; l < 600; l += R.nshards) for (const M &m : modes) { Bytes sk = g.bytes(NK), pk = ref::keygen(m.m, sk), msg = g.bytes(l), ctx = m.ctx ? g.bytes(l % 256) : Bytes(); Bytes sig = do_sign(m, msg, ctx, pk, sk), want = ref::sign(m.m, msg, ctx, pk, sk);
      if (sig != want) R.fail(std::string(m.nm) + ".sign", "sk=" + hexs(sk) + " pk=" + hexs(pk) + " got=" + hexs(sig) + " want=" + hexs(want) + " " + ctxs(m, msg, ctx)); R.eval("length_sweep", fnv(sig.data(), NS, l)); } }

// ------------------------------- verify ----------------------------------------------
static std::vector<ref::Pt> torsion() { const ref::Curve &c = C(); std::vector<ref::Pt> t; // generate the full small-order subgroup
  int want = is448 ? 4 : 8; Rng g; g.seed(99); for (;;) { Bytes b = g.bytes(c.blen); b[c.blen - 1] &= is448 ? 0x80 : 0xff; ref::Pt P; if (!c.dec(b.data(), P)) continue; ref::Pt T = c.mul(c.L, P); int o = 1; ref::Pt q = T; while (!c.eq(q, c.id())) { q = c.add(q, T); o++; } if (o == want) { q = c.id(); for (int i = 0; i < want; i++) { t.push_back(q); q = c.add(q, T); } return t; } } }
static Z hram(const M &m, const Bytes &Rb, const Bytes &pk, const Bytes &msg, const Bytes &ctx) { Bytes kh = ref::H(m.m, ref::cat({ref::prefix(m.m, ctx), Rb, pk, ref::PH(m.m, msg)})); return ref::mod(ref::from_le(kh.data(), kh.size()), C().L); }
static Bytes sle(const Z &s) { Bytes b(C().blen); ref::to_le(s, b.data(), b.size()); return b; }
static Z gen_scalar() { Rng &g = R.rng; const Z &L = C().L; unsigned bits = is448 ? 446 : 252; switch (g.below(7)) { case 0: return Z((long)g.below(300)); case 1: return L - 1 - (long)g.below(300); case 2: return ref::mod(Z(1) << (unsigned)g.below(bits + 1), L); case 3: return ref::mod((Z(1) << (unsigned)g.below(bits + 1)) - (Z(1) << (unsigned)g.below(bits + 1)), L); case 4: { Bytes b(C().blen, 0); for (auto &x : b) x = (uint8_t)(g.chance(1, 4) ? g.u64() : g.chance(1, 2) ? 0 : 255); return ref::mod(ref::from_le(b.data(), b.size()), L); } case 5: { Bytes b(C().blen, (uint8_t)(g.u64())); return ref::mod(ref::from_le(b.data(), b.size()), L); } default: { Bytes b = g.bytes(C().blen + 8); return ref::mod(ref::from_le(b.data(), b.size()), L); } } }
enum { MUST_ACCEPT, MUST_REJECT, EITHER };
// What RFC 8032 fixes. Where key or commitment carry a small-order component both the
// cofactored and the cofactorless equation are allowed for Ed448; Ed25519 is exact.
static int expected(const M &m, const Bytes &msg, const Bytes &ctx, const Bytes &pk, const Bytes &sig, bool *badkey) { const ref::Curve &c = C(); *badkey = false; if (m.ctx && ctx.size() > 255) return MUST_REJECT; ref::Pt A, Rp; if (!c.dec(pk.data(), A)) { *badkey = true; return MUST_REJECT; }
  Z S = ref::from_le(sig.data() + c.blen, c.blen); if (S >= c.L) return MUST_REJECT; Bytes Rb(sig.begin(), sig.begin() + c.blen); if (!c.dec(Rb.data(), Rp)) return MUST_REJECT; Z k = hram(m, Rb, pk, msg, ctx);
  ref::Pt D = c.add(c.add(c.mulB(S), c.mul(k, c.neg(A))), c.neg(Rp)); bool strict = c.eq(D, c.id()); for (unsigned i = 0; i < c.cof_bits; i++) D = c.add(D, D); bool cof = c.eq(D, c.id());
  if (!is448) return strict ? MUST_ACCEPT : MUST_REJECT; if (!cof) return MUST_REJECT;
  bool primeA = c.eq(c.mul(c.L, A), c.id()), primeR = c.eq(c.mul(c.L, Rp), c.id()); if (primeA && primeR) return strict ? MUST_ACCEPT : MUST_REJECT; return EITHER; }
static void judge(const char *cls, const M &m, const Bytes &msg, const Bytes &ctx, const Bytes &pk, const Bytes &sig) { bool bk; int e = expected(m, msg, ctx, pk, sig, &bk); int rc = do_verify(m, msg, ctx, pk, sig); bool acc = rc == EDDSA_VERIFICATION_OK;
  auto det = [&]() { return std::string(cls) + " rc=" + std::to_string(rc) + " pk=" + hexs(pk) + " sig=" + hexs(sig) + " " + ctxs(m, msg, ctx); };
  if (e == MUST_ACCEPT && !acc) R.fail(std::string(m.nm) + ".rejects_valid", det()); if (e == MUST_REJECT && acc) R.fail(std::string(m.nm) + ".accepts_invalid." + cls, det());
  if (!acc && rc != EDDSA_INVALID_SIGNATURE && rc != EDDSA_ERROR_PUBLICKEY && rc != EDDSA_ERROR_CONTEXT) R.fail(std::string(m.nm) + ".verify.code", det());
  // an undecodable key may be reported as such; a decodable one may not
  if (rc == EDDSA_ERROR_PUBLICKEY && !bk) R.fail(std::string(m.nm) + ".verify.badkey", det());
  std::string k = std::string(m.nm) + (acc ? ".accept." : ".reject.") + cls; R.eval(k.c_str(), fnv(sig.data(), NS, fnv(pk.data(), NK, fnv(msg.data(), msg.size(), fnv(ctx.data(), ctx.size()))))); }

static void run_verify(int part) { Rng &g = R.rng; const ref::Curve &c = C(); std::vector<ref::Pt> T = torsion(); uint64_t n = is448 ? R.n(3200, 80000) : R.n(8000, 200000);
  size_t B = c.blen;
  for (uint64_t i = 0; i < n; i++) { const M &m = modes[g.below(modes.size())]; Bytes msg = gen_msg(), ctx = gen_ctx(m); if (msg.size() > 1000) msg.resize(1000);
    Bytes sk = gen_seed(), pk = ref::keygen(m.m, sk), sig = ref::sign(m.m, msg, ctx, pk, sk);
    if (i < 2) R.sample("honest pk=" + hexs(pk) + " sig=" + hexs(sig) + " mode=" + m.nm);
    judge("honest", m, msg, ctx, pk, sig);
    if (part == 1) continue;
    // single-bit mutations
    { Bytes s = sig; size_t b = g.below(8 * NS); s[b / 8] ^= (uint8_t)(1 << (b % 8)); judge("flip_sig", m, msg, ctx, pk, s); }
    { Bytes p = pk; size_t b = g.below(8 * NK); p[b / 8] ^= (uint8_t)(1 << (b % 8)); judge("flip_key", m, msg, ctx, p, sig); }
    if (!msg.empty()) { Bytes x = msg; size_t b = g.below(8 * x.size()); x[b / 8] ^= (uint8_t)(1 << (b % 8)); judge("flip_msg", m, x, ctx, pk, sig); }
    { Bytes x = msg; if (g.chance(1, 2)) x.push_back((uint8_t)g.u64()); else if (!x.empty()) x.pop_back(); else x.push_back(0); judge("msg_len", m, x, ctx, pk, sig); }
    if (m.ctx) { Bytes x = ctx; if (!x.empty() && g.chance(1, 2)) { size_t b = g.below(8 * x.size()); x[b / 8] ^= (uint8_t)(1 << (b % 8)); } else if (!x.empty() && g.chance(1, 2)) x.pop_back(); else if (x.size() < 255) x.push_back(0); else x[0] ^= 1; judge("ctx", m, msg, x, pk, sig);
      // boundary between context and message moved
      if (!msg.empty() && ctx.size() < 255) { Bytes x2 = ctx, y(msg.begin() + 1, msg.end()); x2.push_back(msg[0]); judge("ctx_shift", m, y, x2, pk, sig); } }
    // malleability: S + kL, and the sign/high bits
    { Z S = ref::from_le(sig.data() + B, B); Z lim = Z(1) << (unsigned)(8 * B); Z q = (lim - S) / c.L; unsigned long mx = is448 ? 1023 : 15; if (q < mx) mx = q.get_ui(); unsigned long k = 1 + g.below(g.chance(1, 2) ? 2 : mx); Z S2 = S + c.L * Z(k); if (S2 < lim) { Bytes s = sig; Bytes t = sle(S2); std::copy(t.begin(), t.end(), s.begin() + B); judge("S_plus_kL", m, msg, ctx, pk, s); }
      Bytes s = sig; s[NS - 1] |= (uint8_t)(is448 ? (1 + g.below(255)) : (0x80 >> g.below(3))); judge("S_high_bits", m, msg, ctx, pk, s); }
    { Bytes s = sig; Bytes t = sle(c.L - 1 - ref::from_le(sig.data() + B, B)); std::copy(t.begin(), t.end(), s.begin() + B); judge("S_complement", m, msg, ctx, pk, s); }
    // commitment encodings: sign bit flipped, y + p when it fits
    { Bytes s = sig; s[B - 1] ^= 0x80; judge("R_sign", m, msg, ctx, pk, s); Bytes p2 = pk; p2[B - 1] ^= 0x80; judge("A_sign", m, msg, ctx, p2, sig); }
    if (i % 2 == 0) { // built with chosen S on a small-order key: the verifier's scalar S is fully controlled
      Z S = gen_scalar(); const ref::Pt &A = T[g.below(T.size())]; Bytes apk = c.enc(A); ref::Pt SB = c.mulB(S); bool made = false; for (size_t t = 0; t < T.size() && !made; t++) { Bytes Rb = c.enc(c.add(SB, T[t])); Z k = hram(m, Rb, apk, msg, ctx); if (c.eq(c.add(SB, c.mul(k, c.neg(A))), c.add(SB, T[t]))) { judge("smallorder_key_valid", m, msg, ctx, apk, ref::cat({Rb, sle(S)})); made = true; Z S3 = S + c.L; judge("smallorder_key_S_ge_L", m, msg, ctx, apk, ref::cat({Rb, sle(S3)})); } else judge("smallorder_key_other", m, msg, ctx, apk, ref::cat({Rb, sle(S)})); } }
    if (i % 2 == 1) { // mixed-order key / commitment
      Bytes pre; Z a = ref::expand(m.m, sk, pre); size_t ti = 1 + g.below(T.size() - 1), tj = g.below(T.size()); Bytes apk = c.enc(c.add(c.mulB(ref::mod(a, c.L)), T[ti])); Z r = gen_scalar(); Bytes Rb = c.enc(c.add(c.mulB(r), T[tj])); Z k = hram(m, Rb, apk, msg, ctx); judge("mixed_order_key", m, msg, ctx, apk, ref::cat({Rb, sle(ref::mod(r + k * a, c.L))}));
      // honest key, commitment with a small-order component
      Rb = c.enc(c.add(c.mulB(r), T[ti])); k = hram(m, Rb, pk, msg, ctx); judge("mixed_order_R", m, msg, ctx, pk, ref::cat({Rb, sle(ref::mod(r + k * a, c.L))}));
      // chosen commitment scalar r on an honest key (identity and other special R)
      Rb = c.enc(c.mulB(r)); k = hram(m, Rb, pk, msg, ctx); judge("chosen_r", m, msg, ctx, pk, ref::cat({Rb, sle(ref::mod(r + k * a, c.L))}));
      // key with a structured secret scalar
      Z a2 = gen_scalar(); Bytes pk2 = c.enc(c.mulB(a2)); k = hram(m, Rb, pk2, msg, ctx); judge("chosen_a", m, msg, ctx, pk2, ref::cat({Rb, sle(ref::mod(r + k * a2, c.L))})); }
    if (i % 3 == 0) { // key encodings: random, non-canonical y, x=0 with sign set, all-ones; a universal forgery is tried where the point would be small-order
      Bytes p; switch (g.below(5)) { case 0: p = g.bytes(B); if (is448) p[56] &= 0x80; break; case 1: { Z y = c.p + (long)g.below(20); p = Bytes(B); ref::to_le(y, p.data(), B); if (g.chance(1, 2)) p[B - 1] |= 0x80; break; } case 2: { Z y = g.chance(1, 2) ? Z(1) : Z(c.p - 1); p = Bytes(B); ref::to_le(y, p.data(), B); p[B - 1] |= 0x80; break; } case 3: { p = pk; p[B - 1] |= (uint8_t)(is448 ? 1 + g.below(127) : 0x40); break; } default: p = Bytes(B, 0xff); for (int z = 0; z < 2; z++) if (g.chance(1, 2)) p[g.below(B)] = (uint8_t)g.u64(); }
      judge("key_encoding", m, msg, ctx, p, sig);
      // if the verifier mistakes p for a small-order point, R = SB + T is accepted for some T
      Z S = gen_scalar(); ref::Pt SB = c.mulB(S); for (auto &t : T) judge("key_encoding_forge", m, msg, ctx, p, ref::cat({c.enc(c.add(SB, t)), sle(S)})); }
    if (i % 3 == 1) { // non-canonical encodings of R, identity key: R must compare as bytes
      for (auto &t : T) { Z x, y; c.affine(t, x, y); Bytes e(B); Z y2 = y + c.p; if (y2 < (Z(1) << (unsigned)(is448 ? 448 + 7 : 255))) { ref::to_le(y2, e.data(), B); if (mpz_odd_p(x.get_mpz_t())) e[B - 1] |= 0x80; judge("R_noncanonical", m, msg, ctx, c.enc(c.id()), ref::cat({e, sle(0)})); } if (x == 0) { Bytes e2 = c.enc(t); e2[B - 1] |= 0x80; judge("R_noncanonical", m, msg, ctx, c.enc(c.id()), ref::cat({e2, sle(0)})); } } }
  }
  // S just below and just above the order at every byte of the comparison, on the neutral key (R = SB is then the only valid commitment)
  { Bytes lb = sle(c.L); Bytes apk = c.enc(c.id()); for (size_t i = 0; i < B; i++) for (int up = 0; up < 2; up++) { const M &m = modes[g.below(modes.size())]; Bytes s = lb; if (up ? s[i] == 255 : s[i] == 0) continue; unsigned room = up ? 255 - s[i] : s[i], d = g.chance(1, 2) ? 1 : 1 + g.below(room); s[i] = (uint8_t)(up ? s[i] + d : s[i] - d);
      switch (g.below(3)) { case 0: for (size_t k = 0; k < i; k++) s[k] = (uint8_t)g.u64(); break; case 1: for (size_t k = 0; k < i; k++) s[k] = 0; break; default: for (size_t k = 0; k < i; k++) s[k] = 255; }
      Bytes msg = g.bytes(g.below(40)), ctx = gen_ctx(m); judge(up ? "S_above_order" : "S_below_order", m, msg, ctx, apk, ref::cat({c.enc(c.mulB(ref::mod(ref::from_le(s.data(), B), c.L))), s})); } }
  if (part == 0) { // every single-bit flip of one signature and key per shard
    const M &m = modes[R.shard % modes.size()]; Bytes msg = g.bytes(40), ctx = gen_ctx(m), sk = g.bytes(NK), pk = ref::keygen(m.m, sk), sig = ref::sign(m.m, msg, ctx, pk, sk);
    for (size_t b = 0; b < 8 * NS; b++) { Bytes s = sig; s[b / 8] ^= (uint8_t)(1 << (b % 8)); judge("every_sig_bit", m, msg, ctx, pk, s); } for (size_t b = 0; b < 8 * NK; b++) { Bytes p = pk; p[b / 8] ^= (uint8_t)(1 << (b % 8)); judge("every_key_bit", m, msg, ctx, p, sig); } } }

// ------------------------------- round trip --------------------------------------------
static void run_round() { Rng &g = R.rng; uint64_t n = is448 ? R.n(24000, 600000) : R.n(80000, 2000000);
  for (uint64_t i = 0; i < n; i++) { const M &m = modes[g.below(modes.size())]; Bytes sk = gen_seed(), pk = do_keygen(m, sk), msg = gen_msg(), ctx = gen_ctx(m), sig = do_sign(m, msg, ctx, pk, sk); int rc = do_verify(m, msg, ctx, pk, sig); if (i < 2) R.sample("sk=" + hexs(sk) + " sig=" + hexs(sig));
    if (rc != EDDSA_VERIFICATION_OK) R.fail(std::string(m.nm) + ".roundtrip", "rc=" + std::to_string(rc) + " sk=" + hexs(sk) + " pk=" + hexs(pk) + " sig=" + hexs(sig) + " " + ctxs(m, msg, ctx)); R.eval(m.nm, fnv(sig.data(), NS)); } }

// ------------------------------- mode and context separation -----------------------------
static void run_modes() { Rng &g = R.rng; uint64_t n = is448 ? R.n(4000, 100000) : R.n(12000, 300000);
  for (uint64_t i = 0; i < n; i++) { Bytes sk = g.bytes(NK), msg = gen_msg(), ctx = g.bytes(g.below(256)); if (msg.size() > 600) msg.resize(600); if (g.chance(1, 4)) ctx.clear(); Bytes pk = do_keygen(modes[0], sk); for (auto &m : modes) { Bytes q = do_keygen(m, sk); if (q != pk) R.fail(std::string(m.nm) + ".keygen.mode", hexs(sk)); }
    const M &ms = modes[g.below(modes.size())]; Bytes sctx = ms.ctx ? ctx : Bytes(); Bytes sig = do_sign(ms, msg, sctx, pk, sk);
    Bytes hash = is448 ? ref::shake256(msg, 64) : ref::sha512(msg);
    for (auto &mv : modes) for (int v = 0; v < 6; v++) { Bytes c = ctx, mm = msg; if (v == 1) c.clear(); else if (v == 2) { if (c.size() < 255) c.push_back(0); else c.pop_back(); } else if (v == 3) { if (!c.empty()) c[g.below(c.size())] ^= (uint8_t)(1 << g.below(8)); } else if (v == 4) mm = hash; else if (v == 5) { // dom prefix smuggled into the message
          mm = ref::cat({ref::prefix(ms.m, sctx), msg}); }
        if (!mv.ctx) c.clear(); bool same = &mv == &ms && c == sctx && mm == msg; int rc = do_verify(mv, mm, c, pk, sig); bool acc = rc == EDDSA_VERIFICATION_OK;
        if (acc != same) R.fail(std::string(ms.nm) + ".as." + mv.nm, "v=" + std::to_string(v) + " sk=" + hexs(sk) + " " + ctxs(ms, msg, sctx) + " sig=" + hexs(sig)); R.eval(same ? "same_mode" : &mv == &ms ? "other_context_or_message" : "other_mode", fnv(sig.data(), NS, v * 7 + (&mv - &modes[0]))); }
    // context too long: an error code, no signature written, nothing accepted
    if (i % 3 == 0) for (auto &m : modes) if (m.ctx) { size_t l = g.chance(1, 3) ? 256 : 256 + g.below(1200); Bytes big = g.bytes(l); In a(msg, 0), c(big, 0), p(pk, 0), s(sk, 0); Buf o(NS, 0); Bytes before(o.p(), o.p() + NS); R.op("longctx"); int rc = m.sign(o.p(), a.p(), msg.size(), c.p(), l, p.p(), s.p());
        if (rc != EDDSA_ERROR_CONTEXT) R.fail(std::string(m.nm) + ".longctx.sign", "ctxlen=" + std::to_string(l) + " rc=" + std::to_string(rc)); if (Bytes(o.p(), o.p() + NS) != before) R.fail(std::string(m.nm) + ".longctx.output", "ctxlen=" + std::to_string(l));
        // the signature a verifier that truncates the length would accept
        Bytes tr(big.begin(), big.begin() + (l & 255)), sg = ref::sign(m.m, msg, tr, pk, sk); int rv = do_verify(m, msg, big, pk, sg); if (rv != EDDSA_ERROR_CONTEXT) R.fail(std::string(m.nm) + ".longctx.verify", "ctxlen=" + std::to_string(l) + " rc=" + std::to_string(rv)); R.eval("context_over_255", fnv(sig.data(), NS, l));
        // lengths that look short when cut to 8, 16, 32 or 63 bits; the call must refuse them before it reads anything
        static const uint64_t W[] = {1ull << 8, 1ull << 16, 1ull << 31, 1ull << 32, 1ull << 33, 1ull << 48, 1ull << 63}; uint64_t wl = W[g.below(7)] + g.below(256); if (g.chance(1, 10)) wl = ~0ull - g.below(3); R.op("hugectx"); rc = m.sign(o.p(), a.p(), msg.size(), c.p(), wl, p.p(), s.p()); if (rc != EDDSA_ERROR_CONTEXT || Bytes(o.p(), o.p() + NS) != before) R.fail(std::string(m.nm) + ".longctx.sign", "ctxlen=" + std::to_string(wl) + " rc=" + std::to_string(rc));
        Bytes tr2(big.begin(), big.begin() + (wl & 255)), sg2 = ref::sign(m.m, msg, tr2, pk, sk); In z(sg2, 0); rv = m.verify(a.p(), msg.size(), c.p(), wl, p.p(), z.p()); if (rv != EDDSA_ERROR_CONTEXT) R.fail(std::string(m.nm) + ".longctx.verify", "ctxlen=" + std::to_string(wl) + " rc=" + std::to_string(rv)); R.eval("context_length_over_2^8", fnv(sig.data(), NS, wl)); }
    if (i < 2) R.sample(std::string("signed as ") + ms.nm + " sk=" + hexs(sk) + " ctxlen=" + std::to_string(sctx.size())); } }

int main(int argc, char **argv) { std::map<std::string, std::string> opt; parse_args(argc, argv, opt); install_handlers();
#ifdef HMAP
  ref::hmap() = hm::map;
#endif
 std::string cmd = opt["cmd"]; is448 = cmd.find("448") != std::string::npos; setup();
  if (cmd.rfind("sign", 0) == 0) run_sign(); else if (cmd.rfind("verify", 0) == 0) run_verify(0); else if (cmd.rfind("round", 0) == 0) run_round(); else if (cmd.rfind("modes", 0) == 0) run_modes(); else { fprintf(stderr, "usage\n"); return 2; }
  R.finish(); return 0; }
