// Timing monitor: run under Valgrind memcheck.  Secret bytes are marked undefined, so memcheck
// reports every conditional jump and every memory address that depends on them.  Errors are
// counted around each call, which attributes them to the operation.  A probe with a known
// secret-dependent branch and table lookup shows, in every run, that the monitor is armed.
//   ct <dh|eddsa|h2c>
#include "common.hpp"
#include "faz_ecdh_avx2.h"
#include "faz_eddsa_avx2.h"
#include "faz_hash_avx2.h"
#include <valgrind/memcheck.h>
using namespace faz::ecdh; using namespace faz::eddsa; using namespace faz::hash;
Report R;
static void secret(void *p, size_t n) { VALGRIND_MAKE_MEM_UNDEFINED(p, n); }
static void open_(void *p, size_t n) { VALGRIND_MAKE_MEM_DEFINED(p, n); }
static unsigned errs() { return VALGRIND_COUNT_ERRORS; }
static volatile int sink; static volatile int tab[256];
__attribute__((noinline)) static void probe(const uint8_t *k) { if (k[0] & 1) sink = 7; else sink = tab[5]; }
__attribute__((noinline)) static void probe2(const uint8_t *k) { sink = tab[k[1]]; }

static Bytes key(size_t n) { Rng &g = R.rng; Bytes b(n); switch (g.below(4)) { case 0: std::fill(b.begin(), b.end(), g.chance(1, 2) ? 0 : 0xff); b[g.below(n)] ^= (uint8_t)(1 << g.below(8)); break; default: b = g.bytes(n); } return b; }
template <class F> static void watch(const char *nm, const Bytes &k, F f) { unsigned a = errs(); R.op(nm); f(); unsigned b = errs(); if (b != a) R.fail(std::string("ct.") + nm, "secret=" + hexs(k) + " secret-dependent branches or addresses seen: " + std::to_string(b - a)); R.eval(nm, fnv(k.data(), k.size(), nm[0])); }

static void dh() { Rng &g = R.rng; struct { const char *nm; const X_ECDH *E; size_t n; } I[] = {{"X25519", &X25519, 32}, {"X25519_x64", &X25519_x64, 32}, {"X448", &X448, 56}};
  uint64_t n = R.n(130, 2000);
  for (uint64_t it = 0; it < n; it++) for (auto &i : I) { Bytes k = key(i.n), u = g.bytes(i.n); Buf kb(i.n, g.below(33)), ub(i.n, g.below(33)), o(i.n, g.below(33)); 
      // public peer values of every kind: random, small order, base point, at or above the modulus
      switch ((it + R.shard) % 5) { case 1: std::fill(u.begin(), u.end(), 0); u[0] = (uint8_t)g.below(2); break; case 2: std::fill(u.begin(), u.end(), 0); u[0] = i.n == 32 ? 9 : 5; break; case 3: std::fill(u.begin(), u.end(), 0xff); u[0] = (uint8_t)(0xe0 + g.below(32)); if (i.n == 32 && g.chance(1, 2)) u[31] = 0x7f; break; case 4: if (g.chance(1, 2)) u = k; else std::fill(u.begin() + i.n / 2, u.end(), 0); break; }
      memcpy(kb.p(), k.data(), i.n); memcpy(ub.p(), u.data(), i.n);
      secret(kb.p(), i.n); watch((std::string(i.nm) + ".shared").c_str(), k, [&] { i.E->shared(o.p(), ub.p(), kb.p()); }); open_(o.p(), i.n);
      watch((std::string(i.nm) + ".keygen").c_str(), k, [&] { i.E->keygen(o.p(), kb.p()); }); open_(o.p(), i.n); open_(kb.p(), i.n); if (it == 0) R.sample(std::string(i.nm) + " k=" + hexs(k)); } }
static void eddsa() { Rng &g = R.rng; uint64_t n = R.n(105, 1500);
  for (uint64_t it = 0; it < n; it++) { Bytes m, c;
    switch ((it + R.shard) % 4) { case 0: m = g.bytes(g.below(300)); c = g.bytes(g.below(20)); break; case 1: m = g.bytes(600 + g.below(1500)); c = g.bytes(255 - g.below(3)); break; case 2: m = g.bytes(g.below(3)); c = g.bytes(g.below(2)); break; default: m = g.bytes(64 * (1 + g.below(5)) - g.below(40)); c = g.bytes(g.below(256)); }
    Bytes sk = key(57); uint8_t pk[57], sig[114]; Buf kb(57, g.below(33)); memcpy(kb.p(), sk.data(), 57); uint8_t *s = kb.p();
    struct { const char *nm; SignKeyGen kg; SignCtx sg; size_t nk, ns; } T[] = {{"Ed25519ctx", Ed25519.Context.keygen, Ed25519.Context.sign, 32, 64}, {"Ed25519ph", Ed25519.PreHash.keygen, Ed25519.PreHash.sign, 32, 64}, {"Ed448", Ed448.PureContext.keygen, Ed448.PureContext.sign, 57, 114}, {"Ed448ph", Ed448.PreHash.keygen, Ed448.PreHash.sign, 57, 114}};
    secret(s, 57); watch("Ed25519.keygen", sk, [&] { Ed25519.Pure.keygen(pk, s); }); open_(pk, 57); watch("Ed25519.sign", sk, [&] { Ed25519.Pure.sign(sig, m.data(), m.size(), pk, s); }); open_(sig, 114);
    for (auto &t : T) { watch((std::string(t.nm) + ".keygen").c_str(), sk, [&] { t.kg(pk, s); }); open_(pk, 57); watch((std::string(t.nm) + ".sign").c_str(), sk, [&] { t.sg(sig, m.data(), m.size(), c.data(), c.size(), pk, s); }); open_(sig, 114); }
    open_(s, 57); if (it == 0) R.sample("sk=" + hexs(sk)); } }
static void h2c() { Rng &g = R.rng; uint64_t n = R.n(105, 1500);
  for (uint64_t it = 0; it < n; it++) { Bytes m; switch ((it + R.shard) % 4) { case 0: m = g.bytes(g.below(300)); break; case 1: m = g.bytes(600 + g.below(1500)); break; case 2: m = g.bytes(g.below(3)); break; default: m = g.bytes(32 * (1 + g.below(8))); } Buf b(m.size(), g.below(33)); if (!m.empty()) memcpy(b.p(), m.data(), m.size()); Point P; secret(b.p(), m.size());
    watch("h2c25519_x64", m, [&] { h2c25519_x64(&P, b.p(), m.size()); }); open_(&P, sizeof P); watch("h2c25519_avx2", m, [&] { h2c25519_avx2(&P, b.p(), m.size()); }); open_(&P, sizeof P); open_(b.p(), m.size()); } }
int main(int argc, char **argv) { std::map<std::string, std::string> opt; parse_args(argc, argv, opt);
  if (!RUNNING_ON_VALGRIND) { fprintf(stderr, "run me under valgrind\n"); return 2; }
  uint8_t p[2] = {1, 2}; secret(p, 2); unsigned a = errs(); probe(p); unsigned b = errs(); probe2(p); unsigned c = errs(); if (b == a || c == b) { fprintf(stderr, "monitor not armed\n"); return 2; } R.classes["armed_probe"] = 1;
  if (opt["cmd"] == "dh") dh(); else if (opt["cmd"] == "eddsa") eddsa(); else if (opt["cmd"] == "h2c") h2c(); else return 2; R.finish(); return 0; }
