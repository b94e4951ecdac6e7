// Concurrency monitor: several threads call every public operation at once, on shared read-only
// inputs and private outputs, and each result is compared with the reference computed beforehand
// (on GMP, so that the first use of the library happens inside the threads).  ThreadSanitizer
// builds report any unsynchronised sharing; native builds show wrong results.
//   thr run
#include "ref.hpp"
#include "faz_ecdh_avx2.h"
#include "faz_eddsa_avx2.h"
#include "faz_hash_avx2.h"
#include "fpops.hpp"
#include <atomic>
#include <memory>
#include <thread>
#include <mutex>
#include <set>
#include <pthread.h>
extern "C" {
#include "sha512.h"
#include "sha3.h"
#include "multi_hash.h"
#include "prng.h"
}
using namespace faz::ecdh; using namespace faz::eddsa; using namespace faz::hash;
Report R;
struct Case { std::string nm; std::function<std::string()> run; };   // returns "" or what is wrong
static std::vector<Case> cases; static std::vector<std::string> opnames;
static std::string hexl(const Bytes &b) { std::string s = "0x"; for (size_t i = b.size(); i-- > 0;) { char t[3]; snprintf(t, 3, "%02x", b[i]); s += t; } return s + "\n"; }
static std::string cmpb(const uint8_t *got, const Bytes &want) { return memcmp(got, want.data(), want.size()) ? "got=" + hexs(got, want.size()) + " want=" + hexs(want) : ""; }
#define ADD(nm, ...) cases.push_back({nm, [=]() -> std::string __VA_ARGS__})
struct Sg { const char *nm; ref::Mode m; SignCtx sign; VerifyCtx verify; SignKeyGen kg; uint8_t *(*ak)(void); uint8_t *(*as)(void); void (*fk)(void *); void (*fs)(void *); void (*rk)(uint8_t *); void (*pk)(FILE *, uint8_t *); void (*ps)(FILE *, uint8_t *); };
static int psign(uint8_t *s, const uint8_t *m, uint64_t l, const uint8_t *, uint64_t, const uint8_t *pk, const uint8_t *sk) { return Ed25519.Pure.sign(s, m, l, pk, sk); }
static int pverify(const uint8_t *m, uint64_t l, const uint8_t *, uint64_t, const uint8_t *pk, const uint8_t *s) { return Ed25519.Pure.verify(m, l, pk, s); }
static std::string printed(std::function<void(FILE *)> f) { char *b = 0; size_t n = 0; FILE *m = open_memstream(&b, &n); f(m); fclose(m); std::string s(b, n); free(b); return s; }

// operands of a kind chosen by the case number: most are random, the rest are the ones an implementation may treat apart
static Bytes dhkey(Rng &g, size_t n, int c) { if (c == 4) return Bytes(n, 0); if (c == 5) return Bytes(n, 0xFF); return g.bytes(n); }
static Bytes dhpeer(Rng &g, size_t n, int c) { Bytes u(n, 0); switch (c) { case 3: return u; case 4: u[0] = 1; return u; case 5: u = Bytes(n, 0xFF); return u; case 6: u[0] = n == 56 ? 5 : 9; return u; case 7: u = Bytes(n, 0xFF); u[n == 56 ? 28 : 31] = n == 56 ? 0xFE : 0x7F; u[0] = n == 56 ? 0xFE : 0xEC; return u; default: return g.bytes(n); } }
static size_t msglen(Rng &g, int c) { switch (c % 8) { case 1: return 1200 + g.below(3000); case 3: return 0; case 4: return 1 + g.below(16); case 5: return 128 * (1 + g.below(4)) - 17 + g.below(34); case 6: return 30000 + g.below(60000); default: return g.below(300); } }
static size_t ctxlen(Rng &g, int c) { switch (c % 8) { case 2: return 255; case 3: return 0; case 5: return 100 + g.below(156); default: return g.below(40); } }
static void build_cases(int per) { Rng &g = R.rng;
  const X_ECDH *X[3] = {&X25519, &X25519_x64, &X448}; const char *XN[3] = {"X25519", "X25519_x64", "X448"};
  for (int c = 0; c < per; c++) for (int i = 0; i < 3; i++) { const X_ECDH *E = X[i]; size_t n = i == 2 ? 56 : 32; Bytes *k = new Bytes(dhkey(g, n, c)), *u = new Bytes(dhpeer(g, n, c)); Bytes base(n, 0); base[0] = i == 2 ? 5 : 9; Bytes ws = i == 2 ? ref::x448(*k, *u) : ref::x25519(*k, *u), wk = i == 2 ? ref::x448(*k, base) : ref::x25519(*k, base); std::string nm = XN[i];
    ADD(nm + ".shared", { uint8_t o[56]; E->shared(o, u->data(), k->data()); return cmpb(o, ws); });
    ADD(nm + ".keygen", { uint8_t o[56]; E->keygen(o, k->data()); return cmpb(o, wk); });
    ADD(nm + ".alloc_print_rand", { uint8_t *o = E->allocKey(); E->keygen(o, k->data()); std::string s = printed([&](FILE *f) { E->printKey(f, o); }); uint8_t a[56] = {0}, b[56] = {0}; E->randKey(a); E->randKey(b); bool same = !memcmp(a, b, n); E->freeKey(o); return s != hexl(wk) ? "printed " + s : same ? "two random keys are equal" : ""; }); }
  Sg S[5] = {{"Ed25519", {false, false, 0}, psign, pverify, Ed25519.Pure.keygen, Ed25519.Pure.allocKey, Ed25519.Pure.allocSignature, Ed25519.Pure.freeKey, Ed25519.Pure.freeSignature, Ed25519.Pure.randKey, Ed25519.Pure.printKey, Ed25519.Pure.printSignature},
    {"Ed25519ctx", {false, true, 0}, Ed25519.Context.sign, Ed25519.Context.verify, Ed25519.Context.keygen, Ed25519.Context.allocKey, Ed25519.Context.allocSignature, Ed25519.Context.freeKey, Ed25519.Context.freeSignature, Ed25519.Context.randKey, Ed25519.Context.printKey, Ed25519.Context.printSignature},
    {"Ed25519ph", {false, true, 1}, Ed25519.PreHash.sign, Ed25519.PreHash.verify, Ed25519.PreHash.keygen, Ed25519.PreHash.allocKey, Ed25519.PreHash.allocSignature, Ed25519.PreHash.freeKey, Ed25519.PreHash.freeSignature, Ed25519.PreHash.randKey, Ed25519.PreHash.printKey, Ed25519.PreHash.printSignature},
    {"Ed448", {true, true, 0}, Ed448.PureContext.sign, Ed448.PureContext.verify, Ed448.PureContext.keygen, Ed448.PureContext.allocKey, Ed448.PureContext.allocSignature, Ed448.PureContext.freeKey, Ed448.PureContext.freeSignature, Ed448.PureContext.randKey, Ed448.PureContext.printKey, Ed448.PureContext.printSignature},
    {"Ed448ph", {true, true, 1}, Ed448.PreHash.sign, Ed448.PreHash.verify, Ed448.PreHash.keygen, Ed448.PreHash.allocKey, Ed448.PreHash.allocSignature, Ed448.PreHash.freeKey, Ed448.PreHash.freeSignature, Ed448.PreHash.randKey, Ed448.PreHash.printKey, Ed448.PreHash.printSignature}};
  for (int c = 0; c < per; c++) for (auto &q : S) { Sg s = q; size_t nk = s.m.c448 ? 57 : 32, ns = 2 * nk; Bytes *sk = new Bytes(g.bytes(nk)), *msg = new Bytes(g.bytes(msglen(g, c))), *ctx = new Bytes(s.m.dom ? g.bytes(ctxlen(g, c)) : Bytes()); Bytes *pk = new Bytes(ref::keygen(s.m, *sk)), *sig = new Bytes(ref::sign(s.m, *msg, *ctx, *pk, *sk)); Bytes *bad = new Bytes(*sig); (*bad)[g.below(nk)] ^= 1 << g.below(7); Bytes *badk = new Bytes(*pk); ref::Pt t; do { *badk = g.bytes(nk); if (nk == 57) (*badk)[56] = 0; } while (ref::curve(s.m).dec(badk->data(), t)); std::string nm = s.nm;
    ADD(nm + ".keygen", { uint8_t o[57]; s.kg(o, sk->data()); return cmpb(o, *pk); });
    ADD(nm + ".sign", { uint8_t o[114]; int r = s.sign(o, msg->data(), msg->size(), ctx->data(), ctx->size(), pk->data(), sk->data()); return r != EDDSA_SIGNATURE_OK ? "rc=" + std::to_string(r) : cmpb(o, *sig); });
    ADD(nm + ".verify", { int r = s.verify(msg->data(), msg->size(), ctx->data(), ctx->size(), pk->data(), sig->data()); return r != EDDSA_VERIFICATION_OK ? "valid signature: rc=" + std::to_string(r) : ""; });
    ADD(nm + ".verify_bad", { int r = s.verify(msg->data(), msg->size(), ctx->data(), ctx->size(), pk->data(), bad->data()); int r2 = s.verify(msg->data(), msg->size(), ctx->data(), ctx->size(), badk->data(), sig->data()); return r == EDDSA_VERIFICATION_OK || r2 == EDDSA_VERIFICATION_OK ? "invalid signature or key accepted" : ""; });
    // S not reduced, a scalar of all ones, a key of order four, a context that is too long
    Bytes *bigs = new Bytes(*sig); { bool cy = false; std::string l = s.m.c448 ? "f34458ab92c27823558fc58d72c26c219036d6ae49db4ec4e923ca7cffffffffffffffffffffffffffffffffffffffffffffffffffffff3f00" : "edd3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010"; int carry = 0; for (size_t i = 0; i < nk; i++) { int v = (*sig)[nk + i] + (int)strtol(l.substr(2 * i, 2).c_str(), 0, 16) + carry; (*bigs)[nk + i] = (uint8_t)v; carry = v >> 8; } cy = carry; if (cy) for (size_t i = 0; i < nk; i++) (*bigs)[nk + i] = 0xFF; }
    Bytes *zk = new Bytes(nk, 0), *long_ = new Bytes(g.bytes(256 + g.below(300)));
    ADD(nm + ".verify_odd", { int r = s.verify(msg->data(), msg->size(), ctx->data(), ctx->size(), pk->data(), bigs->data()); if (r == EDDSA_VERIFICATION_OK) return "signature with S + order accepted"; int a = s.verify(msg->data(), msg->size(), ctx->data(), ctx->size(), zk->data(), sig->data()), b = s.verify(msg->data(), msg->size(), ctx->data(), ctx->size(), zk->data(), sig->data()); return a != b ? "unstable" : a == EDDSA_VERIFICATION_OK ? "accepted under another key" : ""; });
    if (s.m.dom) ADD(nm + ".longcontext", { uint8_t o[114]; int r = s.sign(o, msg->data(), msg->size(), long_->data(), long_->size(), pk->data(), sk->data()), v = s.verify(msg->data(), msg->size(), long_->data(), long_->size(), pk->data(), sig->data()); return r == EDDSA_SIGNATURE_OK || v == EDDSA_VERIFICATION_OK ? "context longer than 255 accepted" : ""; });
    ADD(nm + ".alloc_print_rand", { uint8_t *k = s.ak(), *z = s.as(); memcpy(k, pk->data(), nk); memcpy(z, sig->data(), ns); std::string a = printed([&](FILE *f) { s.pk(f, k); }), b = printed([&](FILE *f) { s.ps(f, z); }); uint8_t r1[57] = {0}, r2[57] = {0}; s.rk(r1); s.rk(r2); bool same = !memcmp(r1, r2, nk); s.fk(k); s.fs(z); return a != hexl(*pk) ? "printed key " + a : b != hexl(*sig) ? "printed signature " + b : same ? "two random keys are equal" : ""; }); }
  for (int c = 0; c < per; c++) { Bytes *m = new Bytes(g.bytes(msglen(g, c) + (c == 0 ? g.below(1200) : 0))), *m2 = new Bytes(g.bytes(m->size())); Bytes d = ref::sha512(*m), d2 = ref::sha512(*m2), sh = ref::shake256(*m, 200);
    ADD("sha512", { sph_sha512_context x; uint8_t o[64]; sph_sha512_init(&x); size_t h = m->size() / 3; sph_sha512(&x, m->data(), h); sph_sha512(&x, m->data() + h, m->size() - h); sph_sha512_close(&x, o); return cmpb(o, d); });
    ADD("shake256", { hashState x; uint8_t o[200]; Init(&x, 256); Update(&x, m->data(), 8 * (m->size() / 2)); Update(&x, m->data() + m->size() / 2, 8 * (m->size() - m->size() / 2)); Final2(&x, o, 200); std::string e = cmpb(o, sh); SHAKE256(m->data(), 8 * m->size(), o, 200); return e + cmpb(o, sh); });
    ADD("sha512_2w", { uint8_t a[64], b[64]; uint8_t *mm[2] = {m->data(), m2->data()}, *oo[2] = {a, b}; sha512_2w_avx(mm, m->size(), oo); return cmpb(a, d) + cmpb(b, d2); });
    if (!m->empty() && m->size() < 20000) { int bits[4] = {224, 256, 384, 512}, hb = bits[c & 3]; Bytes d3 = ref::sponge_bytes(200 - hb / 4, m->data(), m->size(), 6, hb / 8), dk = ref::sponge_bytes(168, m->data(), m->size(), 0x1F, 400);
    ADD("sha3", { hashState x; uint8_t o[300]; Init(&x, hb); size_t h = m->size() / 5; Update(&x, m->data(), 8 * h); Update(&x, m->data() + h, 8 * (m->size() - h)); Final(&x, o); return cmpb(o, d3); });
    ADD("shake128", { uint8_t o[400]; SHAKE128(m->data(), 8 * m->size(), o, 400); return cmpb(o, dk); }); }
    // the two hash-to-curve implementations check each other; the point must be on the curve
    ADD("h2c", { Point p, q; h2c25519_x64(&p, m->data(), m->size()); h2c25519_avx2(&q, m->data(), m->size()); return areEqual(&p, &q) != 1 ? "implementations differ" : isOnCurve(&p) != 1 ? "not on the curve" : ""; });
    Bytes *e = new Bytes(g.bytes(32)), *e4 = new Bytes(g.bytes(56)); (*e)[0] |= 1; (*e4)[0] |= 1;
    ADD("Fp25519", { using namespace faz::fp; ALIGN uint64_t a[4], b[4], c[4]; memcpy(a, e->data(), 32); Fp25519._1w_full.arith.inv(b, a); Fp25519._1w_full.arith.mul(c, a, b); uint8_t o[32]; Fp25519._1w_full.arith.misc.ser(o, c); Bytes one(32, 0); one[0] = 1; return cmpb(o, one); });
    ADD("Fp448", { using namespace faz::fp; ALIGN uint64_t a[16], b[16], c[16]; Fp448._1w_red.arith.misc.unser(a, e4->data()); Fp448._1w_red.arith.inv(b, a); Fp448._1w_red.arith.mul(c, a, b); uint8_t o[56]; Fp448._1w_red.arith.misc.ser(o, c); Bytes one(56, 0); one[0] = 1; return cmpb(o, one); });
    ADD("random", { using namespace prng; uint8_t a[48], b[48]; prgn_random_bytes(a, 48); prgn_random_bytes(b, 48); return memcmp(a, b, 48) ? "" : "two draws equal"; }); } }

// every operation of the field tables on fixed operands; there is no reference here: all calls, in whatever
// thread, must give the same bytes, and so must a last call made after the threads have ended
static size_t nordinary; static std::vector<std::unique_ptr<std::atomic<uint64_t>>> firsts; static std::vector<Op> allops;
static void build_fields() { nordinary = cases.size(); for (int f = 0; f < 2; f++) { ops.clear(); is448 = f; ND = is448 ? 16 : 10; half_ = ND / 2; build(is448 ? Fp448 : Fp25519); for (auto &o : ops) { bool rnd = o.nm.size() > 5 && o.nm.substr(o.nm.size() - 5) == ".rand";
      for (int v = 0; v < 2; v++) { auto *in = new std::vector<Bytes>; for (auto &a : o.a) { Bytes b(a.n); if (a.role != OUT) { gen(a, b.data()); } in->push_back(b); } firsts.emplace_back(new std::atomic<uint64_t>(0)); std::atomic<uint64_t> *fst = firsts.back().get(); Op *op = new Op(o); bool w448 = is448;
        cases.push_back({op->nm, [=]() -> std::string { alignas(64) uint8_t buf[4][2048]; uint8_t *p[4]; for (size_t k = 0; k < in->size(); k++) { p[k] = buf[k]; memcpy(p[k], (*in)[k].data(), (*in)[k].size()); } op->f(p); if (rnd) return ""; uint64_t h = 1469598103934665603ull; for (size_t k = 0; k < in->size(); k++) { const Arg &a = op->a[k]; size_t n = a.n; if (a.role == IN) { if (memcmp(p[k], (*in)[k].data(), n)) return "input modified"; continue; } if (a.lanes == 1 && a.kind != BYTES && a.kind != WORDS && !w448) n = 80; if (a.role == IO && op->nm.find("reduce") != std::string::npos) continue; h = fnv(p[k], n, h); } h |= 1; uint64_t z = 0; if (fst->compare_exchange_strong(z, h)) return ""; return z == h ? "" : "two calls with the same operands differ"; }}); } } } }
int main(int argc, char **argv) { std::map<std::string, std::string> opt; parse_args(argc, argv, opt); install_handlers(); R.op("reference"); build_cases(8); build_fields();
  std::map<std::string, int> id; std::vector<int> cid; for (auto &c : cases) { if (!id.count(c.nm)) { int k = (int)id.size(); id[c.nm] = k; opnames.push_back(c.nm); } cid.push_back(id[c.nm]); }
  const int T = opt.count("threads") ? atoi(opt["threads"].c_str()) : 8; uint64_t per = R.n(4000, 100000); pthread_barrier_t bar; pthread_barrier_init(&bar, 0, T); R.op("threads");
  static std::atomic<int> cur[64]; for (auto &c : cur) c.store(-1); struct Res { std::vector<std::pair<std::string, std::string>> bad; std::set<std::pair<int, int>> pairs; std::map<int, uint64_t> cnt; uint64_t overlapped = 0; }; std::vector<Res> res(T); std::vector<uint64_t> seeds; for (int t = 0; t < T; t++) seeds.push_back(R.rng.u64());
  std::vector<std::thread> th; for (int t = 0; t < T; t++) th.emplace_back([&, t] { Rng g; g.seed(seeds[t], t); Res &r = res[t]; pthread_barrier_wait(&bar); auto pick = [&]() -> size_t { return g.chance(1, 3) ? nordinary + g.below(cases.size() - nordinary) : g.below(nordinary); }; size_t hot = pick();
      for (uint64_t i = 0; i < per; i++) { if (i % 16 == 0) hot = pick(); // stay near one operation for a while so that it meets itself
        size_t k = g.chance(1, 2) ? pick() : hot; int me = cid[k]; cur[t].store(me, std::memory_order_relaxed); std::string e = cases[k].run(); if (k >= nordinary) for (int z = 0; z < 24 && e.empty(); z++) e = cases[k].run(); bool o = false;
        for (int x = 0; x < T; x++) if (x != t) { int q = cur[x].load(std::memory_order_relaxed); if (q >= 0) { r.pairs.insert({std::min(me, q), std::max(me, q)}); o = true; } }
        cur[t].store(-1, std::memory_order_relaxed); r.cnt[me]++; r.overlapped += o; __atomic_fetch_add(&R.opcount, 1, __ATOMIC_RELAXED); if (!e.empty() && r.bad.size() < 20) r.bad.push_back({cases[k].nm, e}); } });
  for (auto &x : th) x.join(); R.op("alone again"); for (size_t k = nordinary; k < cases.size(); k++) { std::string e = cases[k].run(); if (!e.empty()) R.fail("thread." + cases[k].nm, "after the threads: " + e); } std::set<std::pair<int, int>> pairs; uint64_t ov = 0;
  for (auto &r : res) { for (auto &b : r.bad) R.fail("thread." + b.first, b.second); for (auto &p : r.pairs) pairs.insert(p); ov += r.overlapped; for (auto &c : r.cnt) { R.evals += c.second; R.classes[opnames[c.first]] += c.second; } }
  for (auto &p : pairs) R.distinct.insert((uint64_t)p.first * 1000 + p.second); R.classes["calls_overlapping_another_thread"] = ov; R.classes["distinct_pairs_of_operations_overlapping"] = pairs.size(); R.sample("threads=" + std::to_string(T) + " operations=" + std::to_string(opnames.size())); R.finish(); return 0; }
