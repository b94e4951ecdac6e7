// Online monitor of the Diffie-Hellman API (X25519, X25519_x64, X448): every call is
// made through the public tables and its 32/56-byte output is compared with an
// independent RFC 7748 ladder on GMP integers.
//   dh <shared25519|shared448|keygen25519|keygen448>
#include "ref.hpp"
#include "faz_ecdh_avx2.h"
using namespace faz::ecdh;
Report R;
static bool is448; static size_t NB; static Z P;
static Bytes ref_x(const Bytes &k, const Bytes &u) { return is448 ? ref::x448(k, u) : ref::x25519(k, u); }
static Bytes le(const Z &z) { Bytes b(NB); ref::to_le(ref::mod(z, Z(1) << (unsigned)(8 * NB)), b.data(), NB); return b; }
static const Z &ord() { return is448 ? ref::E448().L : ref::E25519().L; }

static Bytes structured() { Rng &g = R.rng; Bytes b(NB, 0); unsigned bits = 8 * NB;
  switch (g.below(8)) {
  case 0: return le(Z(1) << (unsigned)g.below(bits));
  case 1: return le((Z(1) << (unsigned)g.below(bits + 1)) - (Z(1) << (unsigned)g.below(bits + 1)));
  case 2: { uint8_t f = g.chance(1, 2) ? 0 : 0xff; for (auto &x : b) x = f; unsigned k = 1 + g.below(4); for (unsigned i = 0; i < k; i++) b[g.below(NB)] = (uint8_t)g.u64(); return b; }
  case 3: { for (size_t i = 0; i < NB; i += 8) { uint64_t w; switch (g.below(5)) { case 0: w = 0; break; case 1: w = ~0ull; break; case 2: w = 1ull << g.below(64); break; case 3: w = ~0ull - g.below(40); break; default: w = g.u64(); } memcpy(&b[i], &w, 8); } return b; }
  case 4: return le(P + (long)g.below(64) - 32);
  case 5: return le(2 * P + (long)g.below(64) - 32);
  case 6: return le(Z((long)g.below(70000)));
  default: return g.bytes(NB); } }
static Bytes gen_scalar() { Rng &g = R.rng; uint64_t k = g.below(10); if (k < 4) return g.bytes(NB); if (k < 8) return structured();
  // j*L + small: drives the scalar multiple through exceptional additions
  Z j = is448 ? Z((long)(1 + g.below(4))) : Z((long)(1 + g.below(8))); Z v = ord() * j + (long)g.below(129) - 64; if (sgn(v) < 0) v = 0; return le(v); }
static const std::vector<Z> &low() { static std::vector<Z> v; if (v.empty()) { v = {0, 1, P - 1, P, P + 1}; if (!is448) { v.push_back(Z("325606250916557431795983626356110631294008115727848805560023387167927233504")); v.push_back(Z("39382357235489614581723060781553021112529911719440698176882885853963445705823")); } } return v; }
static Bytes gen_u() { Rng &g = R.rng; uint64_t k = g.below(12); if (k < 4) return g.bytes(NB); if (k < 8) return structured();
  if (k == 8) { Z z = low()[g.below(low().size())]; if (!is448 && g.chance(1, 2)) z += Z(1) << 255; return le(z); }
  if (k == 9) { Z z = Z(is448 ? 5 : 9); return le(z); }
  if (k == 10) { // u just below/above p-aligned or with hostile top bits
    Bytes b = le(P - (Z(1) << (unsigned)g.below(8 * NB - 1)) + (long)g.below(3) - 1); if (g.chance(1, 2)) b[NB - 1] |= 0x80; return b; }
  Bytes s = g.bytes(NB); return ref_x(s, le(Z(is448 ? 5 : 9))); }

struct Impl { const char *nm; const X_ECDH *E; };
static void call_shared(const Impl &I, const Bytes &k, const Bytes &u, const Bytes &want, const char *why) { Rng &g = R.rng;
  Buf o(NB, g.below(33)), kb(NB, g.below(33)), ub(NB, g.below(33)); memcpy(kb.p(), k.data(), NB); memcpy(ub.p(), u.data(), NB); R.op(I.nm);
  int rc = I.E->shared(o.p(), ub.p(), kb.p()); std::string key = std::string(I.nm) + ".shared";
  auto det = [&]() { return std::string(why) + " k=" + hexs(k) + " u=" + hexs(u) + " got=" + hexs(o.p(), NB) + " want=" + hexs(want) + " rc=" + std::to_string(rc); };
  if (Bytes(o.p(), o.p() + NB) != want) R.fail(key, det()); if (rc != 0) R.fail(key + ".rc", det());
  if (memcmp(kb.p(), k.data(), NB) || memcmp(ub.p(), u.data(), NB)) R.fail(key + ".input", det());
  if (!o.intact() || !kb.intact() || !ub.intact()) R.fail(key + ".bounds", det()); }
static Bytes call_keygen(const Impl &I, const Bytes &k) { Rng &g = R.rng; Buf o(NB, g.below(33)), kb(NB, g.below(33)); memcpy(kb.p(), k.data(), NB); R.op("keygen");
  int rc = I.E->keygen(o.p(), kb.p()); std::string key = std::string(I.nm) + ".keygen"; std::string det = "k=" + hexs(k);
  if (rc != 0) R.fail(key + ".rc", det); if (memcmp(kb.p(), k.data(), NB)) R.fail(key + ".input", det); if (!o.intact() || !kb.intact()) R.fail(key + ".bounds", det);
  return Bytes(o.p(), o.p() + NB); }

int main(int argc, char **argv) {
  std::map<std::string, std::string> opt; parse_args(argc, argv, opt); install_handlers(); std::string cmd = opt["cmd"]; Rng &g = R.rng;
  is448 = cmd.find("448") != std::string::npos; NB = is448 ? 56 : 32; P = is448 ? ref::p448() : ref::p25519();
  std::vector<Impl> impls; if (is448) impls = {{"X448", &X448}}; else impls = {{"X25519", &X25519}, {"X25519_x64", &X25519_x64}};
  for (auto &I : impls) if (I.E->key_size != NB) R.fail(std::string(I.nm) + ".key_size", "key_size=" + std::to_string(I.E->key_size));
  Bytes base = le(Z(is448 ? 5 : 9));
  if (cmd.rfind("shared", 0) == 0) {
    uint64_t n = is448 ? R.n(24000, 600000) : R.n(48000, 1200000);
    // every low-order / non-canonical u against several scalars, every shard
    if (opt.count("k")) { Bytes k = unhex(opt["k"].c_str()), u = unhex(opt["u"].c_str()), w = ref_x(k, u); for (auto &I : impls) call_shared(I, k, u, w, "replay"); R.eval("replay", 1); R.finish(); return 0; }
    std::vector<Bytes> sweep; for (auto &z : low()) { sweep.push_back(le(z)); if (!is448) sweep.push_back(le(z + (Z(1) << 255))); }
    for (long d = -24; d <= 24; d++) { sweep.push_back(le(P + d)); if (!is448) { sweep.push_back(le(P + d + (Z(1) << 255))); } } sweep.push_back(Bytes(NB, 0xff));
    for (size_t i = R.shard; i < sweep.size(); i += R.nshards) for (int r = 0; r < 3; r++) { Bytes k = gen_scalar(), w = ref_x(k, sweep[i]); for (auto &I : impls) { call_shared(I, k, sweep[i], w, "sweep"); R.eval("edge_u", fnv(k.data(), NB, fnv(sweep[i].data(), NB, (uint64_t)strlen(I.nm)))); } }
    for (uint64_t i = 0; i < n; i++) { Bytes k = gen_scalar(), u = gen_u(), w = ref_x(k, u);
      for (auto &I : impls) { call_shared(I, k, u, w, "rand"); bool z = w == Bytes(NB, 0); R.eval(z ? "zero_output" : "nonzero_output", fnv(k.data(), NB, fnv(u.data(), NB, (uint64_t)strlen(I.nm)))); }
      // clamped bits of the scalar and (X25519) bit 255 of u are ignored
      if (i % 8 == 0) { Bytes k2 = k, u2 = u; k2[0] ^= (uint8_t)(g.u64() & (is448 ? 3 : 7)); k2[NB - 1] ^= (uint8_t)(is448 ? (g.u64() & 0x80) : (g.u64() & 0xC0)); if (!is448) u2[31] ^= (uint8_t)(g.u64() & 0x80);
        for (auto &I : impls) { call_shared(I, k2, u2, w, "ignored-bits"); R.eval("ignored_bits", fnv(k2.data(), NB, fnv(u2.data(), NB, (uint64_t)strlen(I.nm) + 1))); } }
      if (i < 2) R.sample("k=" + hexs(k) + " u=" + hexs(u) + " -> " + hexs(w)); }
  } else if (cmd.rfind("keygen", 0) == 0) {
    uint64_t n = is448 ? R.n(16000, 400000) : R.n(32000, 800000);
    if (opt.count("k")) { Bytes k = unhex(opt["k"].c_str()); for (auto &I : impls) { Bytes o = call_keygen(I, k), w = ref_x(k, base); if (o != w) R.fail(std::string(I.nm) + ".keygen", "replay k=" + hexs(k) + " got=" + hexs(o) + " want=" + hexs(w)); } R.eval("replay", 1); R.finish(); return 0; }
    auto one = [&](const Bytes &k, const char *cls) { Bytes w = ref_x(k, base); for (auto &I : impls) { Bytes o = call_keygen(I, k);
        if (o != w) R.fail(std::string(I.nm) + ".keygen", "k=" + hexs(k) + " got=" + hexs(o) + " want=" + hexs(w)); R.eval(cls, fnv(k.data(), NB, (uint64_t)strlen(I.nm))); } return w; };
    // scalars congruent to small multiples of the group order, exhaustively near each multiple
    std::vector<Bytes> sweep; for (long j = 1; j <= 8; j++) for (long d = -64; d <= 64; d++) { Z v = ord() * j + d; if (v < (Z(1) << (unsigned)(8 * NB))) sweep.push_back(le(v)); }
    for (unsigned i = 0; i < 8 * NB; i++) { sweep.push_back(le(Z(1) << i)); sweep.push_back(le((Z(1) << i) - 1)); sweep.push_back(le((Z(1) << (unsigned)(8 * NB)) - 1 - (Z(1) << i))); sweep.push_back(le((Z(1) << (unsigned)(8 * NB)) - (Z(1) << i))); }
    for (size_t i = R.shard; i < sweep.size(); i += R.nshards) one(sweep[i], "edge_scalar");
    for (uint64_t i = 0; i < n; i++) { Bytes ka = gen_scalar(), pa = one(ka, "keygen"); if (i < 2) R.sample("k=" + hexs(ka) + " -> " + hexs(pa));
      if (i % 4 == 0) { // agreement, with every pairing of implementations
        Bytes kb = gen_scalar(); const Impl &IA = impls[g.below(impls.size())], &IB = impls[g.below(impls.size())]; Bytes pub_a = call_keygen(IA, ka), pub_b = call_keygen(IB, kb); Buf s1(NB, g.below(33)), s2(NB, g.below(33)); R.op("agree");
        IA.E->shared(s1.p(), pub_b.data(), ka.data()); IB.E->shared(s2.p(), pub_a.data(), kb.data());
        if (memcmp(s1.p(), s2.p(), NB)) R.fail(std::string(IA.nm) + ".agreement", "ka=" + hexs(ka) + " kb=" + hexs(kb) + " s1=" + hexs(s1.p(), NB) + " s2=" + hexs(s2.p(), NB));
        R.eval("agreement", fnv(ka.data(), NB, fnv(kb.data(), NB, 5))); } }
  } else { fprintf(stderr, "usage\n"); return 2; }
  R.finish(); return 0; }
