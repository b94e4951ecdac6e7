// Object monitor: allocation, release and printing of keys, signatures, field elements and points,
// and heap accounting of every operation.  The allocator is interposed: each block the library
// obtains is recorded with its size, and allocations can be made to fail.
//   obj heap | print | balance
#include "ref.hpp"
#include "faz_ecdh_avx2.h"
#include "faz_eddsa_avx2.h"
#include "faz_hash_avx2.h"
#include "fpops.hpp"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
extern "C" {
#include "sha512.h"
#include "sha3.h"
#include "multi_hash.h"
}
#include <fcntl.h>
#include <errno.h>
#include <malloc.h>
#include <sys/stat.h>
using namespace faz::ecdh; using namespace faz::eddsa; using namespace faz::hash;
Report R;
// ---- interposed allocator --------------------------------------------------------------
struct Blk { void *p; size_t n; }; static const int MB = 4096; static Blk blk[MB]; static int nblk; static bool watch, failing; static uint64_t nalloc, nfree, nfailed, lost;
#ifndef __SANITIZE_ADDRESS__
extern "C" { void *__libc_malloc(size_t); void *__libc_memalign(size_t, size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); }
static void *note(void *p, size_t n) { if (watch && p) { nalloc++; if (nblk < MB) blk[nblk++] = {p, n}; else lost++; } return p; }
static bool deny() { if (watch && failing) { nfailed++; errno = ENOMEM; return true; } return false; }
static void drop(void *p) { if (!p) return; for (int i = nblk - 1; i >= 0; i--) if (blk[i].p == p) { blk[i] = blk[--nblk]; nfree++; return; } }
extern "C" { void *malloc(size_t n) { return deny() ? 0 : note(__libc_malloc(n), n); } void *calloc(size_t a, size_t b) { return deny() ? 0 : note(__libc_calloc(a, b), a * b); }
void *realloc(void *p, size_t n) { if (deny()) return 0; drop(p); return note(__libc_realloc(p, n), n); } void free(void *p) { drop(p); __libc_free(p); }
void *memalign(size_t a, size_t n) { return deny() ? 0 : note(__libc_memalign(a, n), n); } void *aligned_alloc(size_t a, size_t n) { return deny() ? 0 : note(__libc_memalign(a, n), n); }
int posix_memalign(void **o, size_t a, size_t n) { if (deny()) return ENOMEM; void *p = __libc_memalign(a, n); if (!p) return ENOMEM; *o = note(p, n); return 0; }
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { void *p = (void *)syscall(SYS_mmap, a, n, pr, fl, fd, o); return p == MAP_FAILED ? p : note(p, n); } int munmap(void *p, size_t n) { if (watch) drop(p); return (int)syscall(SYS_munmap, p, n); } }
#endif

struct Kind_ { std::string nm; size_t n; std::function<uint8_t *()> alloc; std::function<void(void *)> fre; std::function<void(FILE *, uint8_t *)> print; std::function<void(uint8_t *)> rnd; int lanes; int radix; }; // radix 0 bytes, 1 words, 2 reduced
static std::vector<Kind_> kinds;
template <class A_> static void elem(const std::string &nm, const A_ &M, size_t n, int lanes, int radix, bool) { typedef decltype(M.alloc()) E; kinds.push_back({nm, n, [&M] { return (uint8_t *)M.alloc(); }, [&M](void *p) { M.free(p); }, [&M](FILE *f, uint8_t *p) { M.print(f, (E)p); }, [&M](uint8_t *p) { M.rand((E)p); }, lanes, radix}); }
template <class S> static void scheme(const std::string &nm, const S &s, size_t nk) { if (s.key_size != nk || s.signature_size != 2 * nk) R.fail(nm + ".sizes", std::to_string(s.key_size) + " " + std::to_string(s.signature_size));
  kinds.push_back({nm + ".Key", nk, [&s] { return s.allocKey(); }, [&s](void *p) { s.freeKey(p); }, [&s](FILE *f, uint8_t *p) { s.printKey(f, p); }, [&s](uint8_t *p) { s.randKey(p); }, 1, 0}); kinds.push_back({nm + ".Signature", 2 * nk, [&s] { return s.allocSignature(); }, [&s](void *p) { s.freeSignature(p); }, [&s](FILE *f, uint8_t *p) { s.printSignature(f, p); }, nullptr, 1, 0}); }
static void make() { struct { const char *n; const X_ECDH *e; size_t s; } X[3] = {{"X25519", &X25519, 32}, {"X25519_x64", &X25519_x64, 32}, {"X448", &X448, 56}}; for (auto &x : X) { const X_ECDH *e = x.e; if (e->key_size != x.s) R.fail(std::string(x.n) + ".sizes", std::to_string(e->key_size)); kinds.push_back({std::string(x.n) + ".Key", x.s, [e] { return e->allocKey(); }, [e](void *p) { e->freeKey(p); }, [e](FILE *f, uint8_t *p) { e->printKey(f, p); }, [e](uint8_t *p) { e->randKey(p); }, 1, 0}); }
  scheme("Ed25519.Pure", Ed25519.Pure, 32); scheme("Ed25519.PreHash", Ed25519.PreHash, 32); scheme("Ed25519.Context", Ed25519.Context, 32); scheme("Ed448.PureContext", Ed448.PureContext, 57); scheme("Ed448.PreHash", Ed448.PreHash, 57);
  elem("Fp25519.full", Fp25519._1w_full.arith.misc, 32, 1, 1, 0); elem("Fp25519.1w", Fp25519._1w_red.arith.misc, sizeof(EltFp25519_1w_redradix), 1, 2, 0); elem("Fp25519.2w", Fp25519._2w_red.arith.misc, sizeof(EltFp25519_2w_redradix), 2, 2, 0); elem("Fp25519.4w", Fp25519._4w_red.arith.misc, sizeof(EltFp25519_4w_redradix), 4, 2, 0);
  elem("Fp448.full", Fp448._1w_full.arith.misc, 56, 1, 1, 1); elem("Fp448.1w", Fp448._1w_red.arith.misc, sizeof(EltFp448_1w_redradix), 1, 2, 1); elem("Fp448.2w", Fp448._2w_red.arith.misc, sizeof(EltFp448_2w_redradix), 2, 2, 1); elem("Fp448.4w", Fp448._4w_red.arith.misc, sizeof(EltFp448_4w_redradix), 4, 2, 1); }

// random histories of allocations and releases; every live block keeps its own pattern
static void run_heap() { Rng &g = R.rng; uint64_t n = R.n(60000, 1000000); struct L { int k; uint8_t *p; uint8_t v; }; std::vector<L> live; uint64_t maxlive = 0; live.reserve(4096);
  for (uint64_t it = 0; it < n; it++) { size_t target = 200 * ((it / 500) % 4); if (live.size() < target ? g.chance(3, 4) : g.chance(1, 4)) { int k = (int)g.below(kinds.size()); Kind_ &K = kinds[k]; bool deny_ = g.chance(1, 12); int before = nblk; failing = deny_; R.op((K.nm + ".alloc").c_str()); watch = true; uint8_t *p = K.alloc(); watch = false; failing = false;
#ifndef __SANITIZE_ADDRESS__
      if (deny_) { R.eval("alloc_denied", fnv(K.nm.data(), K.nm.size())); if (p) { bool fake = nblk == before; if (fake) R.fail(K.nm + ".alloc", "returned a block although none could be allocated"); } if (!p) continue; }
#endif
      if (!p) { R.fail(K.nm + ".alloc", "null"); continue; } if ((uintptr_t)p & 31) R.fail(K.nm + ".alloc", "misaligned"); if (malloc_usable_size(p) < K.n && nblk > before) { bool plain = false; for (int i = 0; i < nblk; i++) if (blk[i].p == p) plain = true; if (plain) R.fail(K.nm + ".alloc", "block of " + std::to_string(malloc_usable_size(p)) + " bytes for " + std::to_string(K.n)); }
      for (int i = 0; i < nblk; i++) if ((uint8_t *)blk[i].p <= p && p < (uint8_t *)blk[i].p + blk[i].n && (uint8_t *)blk[i].p + blk[i].n < p + K.n) R.fail(K.nm + ".alloc", "asked for " + std::to_string(blk[i].n) + " bytes, needs " + std::to_string(K.n));
      uint8_t v = (uint8_t)(1 + g.below(255)); memset(p, v, K.n); live.push_back({k, p, v}); R.eval(("alloc " + K.nm).c_str(), fnv(K.nm.data(), K.nm.size(), live.size())); maxlive = std::max<uint64_t>(maxlive, live.size()); }
    else { if (live.empty() || g.chance(1, 20)) { Kind_ &K = kinds[g.below(kinds.size())]; int b = nblk; K.fre(nullptr); if (nblk != b) R.fail(K.nm + ".free", "free(NULL) released something"); R.eval("free_null", fnv(K.nm.data(), K.nm.size())); continue; }
      size_t i = g.below(live.size()); L l = live[i]; live[i] = live.back(); live.pop_back(); for (size_t b = 0; b < kinds[l.k].n; b++) if (l.p[b] != l.v) { R.fail(kinds[l.k].nm + ".overlap", "a live block changed"); break; } int b = nblk; R.op((kinds[l.k].nm + ".free").c_str()); watch = true; kinds[l.k].fre(l.p); watch = false; (void)b;
#ifndef __SANITIZE_ADDRESS__
      if (nblk != b - 1 && lost == 0 && nalloc) R.fail(kinds[l.k].nm + ".free", "released " + std::to_string(b - nblk) + " blocks");
#endif
      R.eval(("free " + kinds[l.k].nm).c_str(), fnv(kinds[l.k].nm.data(), kinds[l.k].nm.size(), live.size())); } }
  while (!live.empty()) { kinds[live.back().k].fre(live.back().p); live.pop_back(); }
#ifndef __SANITIZE_ADDRESS__
  if (nblk) R.fail("heap.leak", std::to_string(nblk) + " blocks remain after everything was released");
#endif
  R.classes["blocks_obtained"] = nalloc; R.classes["blocks_released"] = nfree; R.classes["allocations_denied"] = nfailed; R.classes["most_blocks_alive"] = maxlive; }

static int b25519(int i) { return (51 * i + 1) / 2; }
static Z valdig(const uint64_t *w, bool f448, int L, int l) { ND = f448 ? 16 : 10; half_ = ND / 2; is448 = f448; Z r = 0; for (int i = 0; i < ND; i++) { Z d = (unsigned long)w[at(L, l, i)]; r += d << (unsigned)(f448 ? 28 * i : b25519(i)); } return r; }
static std::string captured(std::function<void(FILE *)> f, std::string &other) { char *b = 0; size_t n = 0; FILE *m = open_memstream(&b, &n); static int sink = -1; static int so, se; if (sink < 0) { so = dup(1); se = dup(2); char t[] = "/tmp/verif-obj-XXXXXX"; sink = mkstemp(t); unlink(t); } fflush(stdout); fflush(stderr); if (ftruncate(sink, 0)) {} lseek(sink, 0, SEEK_SET); dup2(sink, 1); dup2(sink, 2); f(m); fflush(stdout); fflush(stderr); dup2(so, 1); dup2(se, 2); struct stat st; fstat(sink, &st); other = st.st_size ? std::to_string(st.st_size) + " bytes elsewhere" : ""; fclose(m); std::string s(b, n); free(b); return s; }
static std::string hexle(const uint8_t *p, size_t n) { std::string s = "0x"; for (size_t i = n; i-- > 0;) { char t[3]; snprintf(t, 3, "%02x", p[i]); s += t; } return s + "\n"; }
static void run_print() { Rng &g = R.rng; uint64_t n = R.n(4000, 60000); Z p255 = (Z(1) << 255) - 19, p448 = (Z(1) << 448) - (Z(1) << 224) - 1;
  for (uint64_t it = 0; it < n; it++) { for (auto &K : kinds) { bool f448 = K.nm.find("448") != std::string::npos; static ALIGN uint8_t big[2048]; memset(big, 0xA5, sizeof big); uint8_t *o = big + 64 + (K.radix ? 0 : g.below(33)); Bytes v(K.n);
      if (K.radix < 2) { g.fill(v.data(), v.size()); if (g.chance(1, 4)) memset(v.data(), g.chance(1, 2) ? 0 : 0xff, v.size()); if (g.chance(1, 3)) { size_t z = g.below(v.size()); for (size_t i = z; i < v.size(); i++) v[i] = 0; } }
      else { ND = f448 ? 16 : 10; half_ = ND / 2; is448 = f448; Arg a{K.n, IN, D0, K.lanes}; gen(a, v.data()); if (g.chance(1, 4)) memset(v.data(), 0, v.size()); }
      memcpy(o, v.data(), K.n); R.op((K.nm + ".print").c_str()); std::string other, s = captured([&](FILE *f) { fputs("<", f); K.print(f, o); fputs(">", f); }, other), det = hexs(v) + " printed " + s;
      if (!other.empty()) R.fail(K.nm + ".print", "wrote " + other); if (memcmp(o, v.data(), K.n)) R.fail(K.nm + ".print", "modified the object: " + det); for (size_t i = 0; i < 16; i++) if (o[K.n + i] != 0xA5) { R.fail(K.nm + ".print", "wrote past the object"); break; }
      if (s.size() < 2 || s[0] != '<' || s.back() != '>') { R.fail(K.nm + ".print", det); continue; } s = s.substr(1, s.size() - 2);
      if (K.radix == 0) { if (s != hexle(v.data(), K.n)) R.fail(K.nm + ".print", det); }
      else { size_t nb = f448 ? 56 : 32, pos = 0; bool bad = false; for (int l = 0; l < K.lanes && !bad; l++) { size_t e = s.find('\n', pos); if (e == std::string::npos || e - pos != 2 + 2 * nb || s.compare(pos, 2, "0x")) { bad = true; break; } std::string h = s.substr(pos + 2, 2 * nb); for (char c : h) if (!strchr("0123456789abcdef", c)) bad = true; Z got; if (bad || got.set_str(h, 16)) { bad = true; break; } Z want = K.radix == 1 ? ref::from_le(v.data(), nb) : valdig((const uint64_t *)v.data(), f448, K.lanes, l); Z P = f448 ? p448 : p255, d = got - want; mpz_mod(d.get_mpz_t(), d.get_mpz_t(), P.get_mpz_t()); if (d != 0) bad = true; pos = e + 1; } if (bad || pos != s.size()) R.fail(K.nm + ".print", det); }
      R.eval((K.nm + ".print").c_str(), fnv(v.data(), v.size())); if (it == 0 && K.radix) R.sample(K.nm + " " + s.substr(0, 140)); }
    ALIGN Point P; g.fill(&P, sizeof P); Point Q = P; std::string other, s = captured([&](FILE *f) { print_point(f, &P); }, other); if (memcmp(&P, &Q, sizeof P) || !other.empty()) R.fail("print_point", "side effect " + other); if (s != "X: " + hexle((uint8_t *)P.X, 32) + "Y: " + hexle((uint8_t *)P.Y, 32)) R.fail("print_point", hexs(&P, 64) + " printed " + s); R.eval("print_point", fnv(&P, 64)); } }

// every operation returns the heap and the descriptors as it found them
static int fdcount() { int c = 0; for (int i = 0; i < 64; i++) if (fcntl(i, F_GETFD) != -1) c++; return c; }
static void run_balance() { Rng &g = R.rng; uint64_t n = R.n(3000, 60000); auto chk = [&](const char *nm, std::function<void()> f) { int b = nblk, fd = fdcount(); uint64_t a0 = nalloc; R.op(nm); watch = true; f(); watch = false; if (nblk != b) R.fail(std::string(nm) + ".leak", std::to_string(nblk - b) + " blocks of the heap"); if (fdcount() != fd) R.fail(std::string(nm) + ".leak", "descriptors"); if (nalloc > a0) R.classes[std::string("allocates ") + nm] = nalloc - a0; R.eval(nm, fnv(nm, strlen(nm), g.u64())); };
  std::vector<Op> fo[2]; auto field = [&](int w) { is448 = w; ND = w ? 16 : 10; half_ = ND / 2; }; static ALIGN uint8_t arg[4][1024]; uint8_t *ap[4] = {arg[0], arg[1], arg[2], arg[3]};
  auto fill = [&](const Op &o) { for (size_t i = 0; i < o.a.size(); i++) if (o.a[i].role != OUT) gen(o.a[i], ap[i]); };
  for (int w = 0; w < 2; w++) { field(w); ops.clear(); build(w ? Fp448 : Fp25519); fo[w] = ops; for (auto &o : fo[w]) { fill(o); o.f(ap); } } // the first call opens the stream the print operations of the table write to
  for (uint64_t it = 0; it < n; it++) { if (it % 4 == 0) for (int w = 0; w < 2; w++) { field(w); for (auto &o : fo[w]) { fill(o); chk(o.nm.c_str(), [&] { o.f(ap); }); } }
    Bytes k = g.bytes(57), u = g.bytes(57), m = g.bytes(it % 128 == 77 ? g.below(400000) : it % 512 == 5 ? (1 << 20) + g.below(1 << 20) : g.chance(1, 8) ? 0 : g.chance(1, 8) ? g.below(5000) : g.below(500)), m2 = g.bytes(m.size() + 1), c = g.bytes(g.chance(1, 8) ? 256 + g.below(400) : g.below(256)), o(114), pk(57), sig(114); bool bad = g.chance(1, 2);
    chk("X25519.shared", [&] { X25519.shared(o.data(), u.data(), k.data()); }); chk("X25519_x64.shared", [&] { X25519_x64.shared(o.data(), u.data(), k.data()); }); chk("X448.shared", [&] { X448.shared(o.data(), u.data(), k.data()); }); chk("X25519.keygen", [&] { X25519.keygen(o.data(), k.data()); }); chk("X448.keygen", [&] { X448.keygen(o.data(), k.data()); });
    auto one = [&](const char *a, const char *b, const char *d, auto &S) { chk(a, [&] { S.keygen(pk.data(), k.data()); }); chk(b, [&] { S.sign(sig.data(), m.data(), m.size(), c.data(), c.size(), pk.data(), k.data()); }); if (bad) { if (g.chance(1, 2)) sig[g.below(S.signature_size)] ^= 4; else if (g.chance(1, 2)) pk = g.bytes(57); else memset(sig.data() + S.key_size, 0xff, S.key_size); } chk(d, [&] { S.verify(m.data(), m.size(), c.data(), c.size(), pk.data(), sig.data()); }); };
    one("Ed25519ctx.keygen", "Ed25519ctx.sign", "Ed25519ctx.verify", Ed25519.Context); one("Ed25519ph.keygen", "Ed25519ph.sign", "Ed25519ph.verify", Ed25519.PreHash); one("Ed448.keygen", "Ed448.sign", "Ed448.verify", Ed448.PureContext); one("Ed448ph.keygen", "Ed448ph.sign", "Ed448ph.verify", Ed448.PreHash);
    chk("Ed25519.keygen", [&] { Ed25519.Pure.keygen(pk.data(), k.data()); }); chk("Ed25519.sign", [&] { Ed25519.Pure.sign(sig.data(), m.data(), m.size(), pk.data(), k.data()); }); if (bad) sig[g.below(64)] ^= 1; chk("Ed25519.verify", [&] { Ed25519.Pure.verify(m.data(), m.size(), pk.data(), sig.data()); });
    { sph_sha512_context x; uint8_t d0[64], d1[64]; uint8_t *mm[2] = {m.data(), m2.data()}, *dd[2] = {d0, d1}; size_t cut = g.below(m.size() + 1); chk("sha512", [&] { sph_sha512_init(&x); sph_sha512(&x, m.data(), cut); sph_sha512(&x, m.data() + cut, m.size() - cut); sph_sha512_close(&x, d0); }); chk("sha384", [&] { sph_sha384_init(&x); sph_sha384(&x, m.data(), m.size()); sph_sha384_close(&x, d0); });
      chk("sha512_2w", [&] { sha512_2w_avx(mm, m.size(), dd); }); Bytes out(g.below(2000)); chk("SHAKE256", [&] { SHAKE256(m.data(), (DataLength)m.size() * 8, out.data(), (unsigned)out.size()); }); hashState st; static const int SB[] = {224, 256, 384, 512}; int bits = SB[g.below(4)]; chk("SHA3", [&] { Init(&st, bits); Update(&st, m.data(), (DataLength)cut * 8); Update(&st, m.data() + cut, (DataLength)(m.size() - cut) * 8); Final(&st, d0); }); }
    ALIGN Point P, Q; chk("h2c25519_x64", [&] { h2c25519_x64(&P, m.data(), m.size()); }); chk("h2c25519_avx2", [&] { h2c25519_avx2(&Q, m.data(), m.size()); }); chk("isOnCurve", [&] { isOnCurve(&P); }); chk("areEqual", [&] { areEqual(&P, &Q); });
    static FILE *nul = [] { FILE *f = fopen("/dev/null", "w"); setvbuf(f, 0, _IONBF, 0); return f; }(); for (auto &K : kinds) { static ALIGN uint8_t b[1024]; chk((K.nm + ".print").c_str(), [&] { K.print(nul, b); }); if (K.rnd) chk((K.nm + ".rand").c_str(), [&] { K.rnd(b); }); chk((K.nm + ".alloc+free").c_str(), [&] { uint8_t *p = K.alloc(); K.fre(p); }); } } }
int main(int argc, char **argv) { std::map<std::string, std::string> opt; parse_args(argc, argv, opt); install_handlers(); make(); std::string c = opt["cmd"]; if (c == "heap") run_heap(); else if (c == "print") run_print(); else if (c == "balance") run_balance(); else return 2; R.finish(); return 0; }
