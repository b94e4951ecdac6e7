// Fault-injection monitor of the random source.  open/read/close/getrandom/getentropy are interposed: the
// system source is replaced by a recorded stream that delivers short reads, interruptions, empty
// reads and errors according to a plan.  After a normal return the buffer must be exactly the bytes
// that were delivered; a call that cannot fill the buffer must not return.
//   rng faults | keys | big | unique
// unique: the real source; no byte may be handed out twice, across calls, threads and forked processes.
#include "common.hpp"
#include "faz_ecdh_avx2.h"
#include "faz_eddsa_avx2.h"
#include "faz_fp_avx2.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <atomic>
#include <set>
#include <pthread.h>
#include <unordered_set>
#include "prng.h"
using namespace faz::ecdh; using namespace faz::eddsa; using namespace faz::fp;
Report R;
// ---- the interposed source -------------------------------------------------------------
struct Plan { int open_errno = 0; int open_errno_times = 0; unsigned mode = 0; int fail_at = -1; int fail_errno = EIO; uint64_t seed = 0; bool keep_log = true; };
static Plan P; static bool armed = false; static std::set<int> fds; static Bytes delivered; static uint64_t ndelivered; static int nread, nopen, nclose, nintr, nshort, nzero; static Rng srng, prng_;
static void arm(const Plan &p) { P = p; armed = true; fds.clear(); delivered.clear(); ndelivered = 0; nread = nopen = nclose = nintr = nshort = nzero = 0; srng.seed(p.seed, 1); prng_.seed(p.seed, 2); }
static bool source(const char *p) { return armed && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")); }
static int src_open() { nopen++; if (P.open_errno && (P.open_errno_times == 0 || nopen <= P.open_errno_times)) { errno = P.open_errno; return -1; } int fd = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDONLY, 0); fds.insert(fd); return fd; }
static ssize_t feed(void *b, size_t n) { int k = nread++; R.opcount++; if (P.fail_at >= 0 && k >= P.fail_at) { errno = P.fail_errno; return -1; } if (n == 0) return 0;
  size_t m = n; switch (P.mode) { case 0: break; case 1: m = 1; break; case 2: m = 1 + prng_.below(n); break; case 3: if (prng_.chance(1, 2)) { nintr++; errno = EINTR; return -1; } m = 1 + prng_.below(n); break;
    case 4: if (prng_.chance(1, 3)) { nzero++; return 0; } m = 1 + prng_.below(n); break; case 5: if (k < 6) { nintr++; errno = EINTR; return -1; } break; case 6: if (prng_.chance(3, 4)) { nintr++; errno = EINTR; return -1; } m = 1 + prng_.below(n < 4 ? n : 4); break; case 7: m = n - n / 2; break; }
  if (m > 33554431) m = 33554431; if (m < n) nshort++; if (P.keep_log) { Bytes d = srng.bytes(m); memcpy(b, d.data(), m); delivered.insert(delivered.end(), d.begin(), d.end()); } else memset(b, (int)(0xD0 + (k & 7)), m); ndelivered += m; return (ssize_t)m; }
extern "C" {
int open(const char *p, int fl, ...) { mode_t md = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); md = va_arg(a, mode_t); va_end(a); } if (source(p)) return src_open(); return (int)syscall(SYS_openat, AT_FDCWD, p, fl, md); }
int open64(const char *p, int fl, ...) { mode_t md = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); md = va_arg(a, mode_t); va_end(a); } if (source(p)) return src_open(); return (int)syscall(SYS_openat, AT_FDCWD, p, fl, md); }
int openat(int d, const char *p, int fl, ...) { mode_t md = 0; if (fl & O_CREAT) { va_list a; va_start(a, fl); md = va_arg(a, mode_t); va_end(a); } if (source(p)) return src_open(); return (int)syscall(SYS_openat, d, p, fl, md); }
ssize_t read(int fd, void *b, size_t n) { if (armed && fds.count(fd)) return feed(b, n); return syscall(SYS_read, fd, b, n); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return read(fd, b, n); }
int close(int fd) { if (fds.count(fd)) { nclose++; fds.erase(fd); } return (int)syscall(SYS_close, fd); }
ssize_t getrandom(void *b, size_t n, unsigned) { if (armed) return feed(b, n > 33554431 ? 33554431 : n); return syscall(SYS_getrandom, b, n, 0); }
int getentropy(void *b, size_t n) { if (!armed) return syscall(SYS_getrandom, b, n, 0) == (long)n ? 0 : -1; size_t l = 0; while (l < n) { ssize_t r = feed((uint8_t *)b + l, n - l); if (r < 0 && errno != EINTR) return -1; if (r > 0) l += r; } return 0; }
}
static int fdcount() { int c = 0; for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) != -1) c++; return c; }
static std::string plan(const Plan &p, size_t n) { char t[200]; snprintf(t, sizeof t, "n=%zu mode=%u open_errno=%d fail_at=%d errno=%d seed=%llu", n, p.mode, p.open_errno, p.fail_at, p.fail_errno, (unsigned long long)p.seed); return t; }

// a call that must succeed
static void good(const Plan &p, size_t n, const char *cls, bool fd0) { Buf b(n, R.rng.below(33)); int before = fdcount(), save = -1; if (fd0) { save = dup(0); syscall(SYS_close, 0); before = fdcount(); } R.op("prgn_random_bytes"); arm(p); prng::prgn_random_bytes(b.p(), n); armed = false; int after = fdcount(); if (fd0 && save >= 0) { dup2(save, 0); syscall(SYS_close, save); }
  std::string d = plan(p, n) + " reads=" + std::to_string(nread) + " delivered=" + std::to_string(ndelivered); if (!b.intact()) R.fail("random.bounds", d); if (after != before || !fds.empty()) R.fail("random.fdleak", d + " fds before=" + std::to_string(before) + " after=" + std::to_string(after));
  if (n && ndelivered == 0) { R.classes["source_not_interposed"]++; bool stuck = true; for (size_t i = 0; i < n; i++) if (b.p()[i] != 0x5C) stuck = false; if (stuck && n >= 8) R.fail("random.unfilled", d); }
  else if (n && (delivered.size() < n || memcmp(delivered.data(), b.p(), n))) R.fail("random.content", d + " buffer=" + hexs(b.p(), std::min<size_t>(n, 200)) + " delivered=" + hexs(delivered.data(), std::min<size_t>(delivered.size(), 200)));
  R.eval(cls, fnv(&p.seed, 8, n * 8 + p.mode)); if (nintr) R.classes["interrupted_reads"] += nintr; if (nshort) R.classes["short_reads"] += nshort; if (nzero) R.classes["empty_reads"] += nzero; R.classes["reads"] += nread; }
// a call that cannot succeed: it must not come back with a buffer that was not filled
static void bad(const Plan &p, size_t n, const char *cls, std::function<void(uint8_t *)> f) { fflush(stdout); R.op("faulted call"); pid_t c = fork();
  if (c == 0) { int dn = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY, 0); dup2(dn, 1); dup2(dn, 2); for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE}) signal(s, SIG_DFL); struct itimerval z = {{0, 0}, {0, 0}}; setitimer(ITIMER_VIRTUAL, &z, 0); alarm(20); Bytes b(n + 64, 0x5C); arm(p); f(b.data()); armed = false; _exit(ndelivered >= n ? 41 : 40); }
  int st = 0; while (waitpid(c, &st, 0) < 0 && errno == EINTR) ; if (WIFEXITED(st) && WEXITSTATUS(st) == 40) R.fail(std::string("random.") + cls, "returned normally although the source failed: " + plan(p, n));
  R.eval(cls, fnv(&p.seed, 8, n * 8 + p.mode)); R.classes[WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "faulted_call_never_returned" : "faulted_call_terminated") : WEXITSTATUS(st) == 41 ? "faulted_call_filled_from_elsewhere" : "faulted_call_exited"]++; }

struct RK { std::string nm; size_t n; std::function<void(uint8_t *)> f; bool element; };
static std::vector<RK> rks() { std::vector<RK> v; v.push_back({"X25519.randKey", 32, [](uint8_t *k) { X25519.randKey(k); }, false}); v.push_back({"X25519_x64.randKey", 32, [](uint8_t *k) { X25519_x64.randKey(k); }, false}); v.push_back({"X448.randKey", 56, [](uint8_t *k) { X448.randKey(k); }, false});
  v.push_back({"Ed25519.Pure.randKey", 32, [](uint8_t *k) { Ed25519.Pure.randKey(k); }, false}); v.push_back({"Ed25519.PreHash.randKey", 32, [](uint8_t *k) { Ed25519.PreHash.randKey(k); }, false}); v.push_back({"Ed25519.Context.randKey", 32, [](uint8_t *k) { Ed25519.Context.randKey(k); }, false});
  v.push_back({"Ed448.PureContext.randKey", 57, [](uint8_t *k) { Ed448.PureContext.randKey(k); }, false}); v.push_back({"Ed448.PreHash.randKey", 57, [](uint8_t *k) { Ed448.PreHash.randKey(k); }, false});
  v.push_back({"Fp25519.full.rand", 32, [](uint8_t *k) { Fp25519._1w_full.arith.misc.rand((uint64_t *)k); }, true}); v.push_back({"Fp448.full.rand", 56, [](uint8_t *k) { Fp448._1w_full.arith.misc.rand((uint64_t *)k); }, true});
  auto red = [](const PrimeField *F, uint8_t *k, size_t nb) { ALIGN uint64_t e[16] = {0}; F->_1w_red.arith.misc.rand(e); F->_1w_red.arith.misc.ser(k, e); (void)nb; };
  v.push_back({"Fp25519.1w.rand", 32, [=](uint8_t *k) { red(&Fp25519, k, 32); }, true}); v.push_back({"Fp448.1w.rand", 56, [=](uint8_t *k) { red(&Fp448, k, 56); }, true});
  v.push_back({"Fp25519.2w.rand", 64, [=](uint8_t *k) { __m256i e[8]; memset(e, 0, sizeof e); Fp25519._2w_red.arith.misc.rand(e); Fp25519._2w_red.arith.misc.ser(k, e); }, true}); v.push_back({"Fp448.2w.rand", 112, [=](uint8_t *k) { __m256i e[8]; memset(e, 0, sizeof e); Fp448._2w_red.arith.misc.rand(e); Fp448._2w_red.arith.misc.ser(k, e); }, true});
  v.push_back({"Fp25519.4w.rand", 128, [=](uint8_t *k) { __m256i e[16]; memset(e, 0, sizeof e); Fp25519._4w_red.arith.misc.rand(e); Fp25519._4w_red.arith.misc.ser(k, e); }, true}); v.push_back({"Fp448.4w.rand", 224, [=](uint8_t *k) { __m256i e[16]; memset(e, 0, sizeof e); Fp448._4w_red.arith.misc.rand(e); Fp448._4w_red.arith.misc.ser(k, e); }, true}); return v; }

static void run_faults() { Rng &g = R.rng; uint64_t n = R.n(40000, 1000000); for (uint64_t i = 0; i < n; i++) { Plan p; p.mode = (unsigned)g.below(8); p.seed = g.u64(); size_t len = g.chance(1, 3) ? g.below(5) : g.chance(1, 2) ? g.below(130) : g.below(3000); if (p.mode == 1 && len > 600) len = 600; good(p, len, "filled", g.chance(1, 20)); if (i < 2) R.sample(plan(p, len)); }
  uint64_t m = R.n(800, 8000); static const int E[] = {ENOENT, EACCES, EMFILE, ENFILE, EIO, EPERM, ENOMEM}; static const int F[] = {EIO, EBADF, EINVAL, EFAULT, EISDIR}; auto ks = rks();
  for (uint64_t i = 0; i < m; i++) { Plan p; p.seed = g.u64(); size_t len = 1 + g.below(200); auto f = [len](uint8_t *b) { prng::prgn_random_bytes(b, len); };
    if (g.chance(1, 2)) { p.open_errno = E[g.below(7)]; p.fail_at = 0; p.fail_errno = EIO; if (g.chance(1, 3)) { auto &k = ks[g.below(ks.size())]; bad(p, k.n, "open_fails", [&](uint8_t *) { Buf q(k.n + 64, 0, 0xA5, 32); k.f(q.p()); }); } else bad(p, len, "open_fails", f); }
    else { p.mode = 1 + (unsigned)g.below(2); p.fail_at = (int)g.below(p.mode == 1 ? len : 2); p.fail_errno = F[g.below(5)]; if (p.fail_at > 0 && p.mode == 2) p.mode = 1; if ((size_t)p.fail_at >= len) p.fail_at = 0; bad(p, len, "read_fails", f); } } }
static void run_keys() { Rng &g = R.rng; uint64_t n = R.n(400, 8000); for (auto &k : rks()) for (uint64_t it = 0; it < n; it++) { const int D = 24; std::vector<Bytes> o; Plan p; p.mode = (unsigned)(it % 8); uint64_t got = 0; int before = fdcount(); R.op(k.nm.c_str());
      for (int d = 0; d < D; d++) { Buf b(k.n, k.element ? 0 : g.below(33), 0xA5, k.element ? 32 : 1); p.seed = g.u64(); arm(p); k.f(b.p()); armed = false; got += ndelivered; if (!b.intact()) R.fail(k.nm + ".bounds", plan(p, k.n)); o.push_back(Bytes(b.p(), b.p() + k.n)); R.eval(k.nm.c_str(), fnv(b.p(), k.n)); }
      if (fdcount() != before) R.fail(k.nm + ".fdleak", plan(p, k.n)); if (got && got < (uint64_t)D * k.n) R.fail(k.nm + ".short", "drew " + std::to_string(got) + " bytes for " + std::to_string(D) + " keys of " + std::to_string(k.n)); if (!got) R.classes["source_not_interposed"]++;
      // 24 draws from independent streams: a byte that never changes was not drawn (chance 2^-184); every bit of a key must take both values (2^-23 each, judged over all rounds below)
      for (size_t i = 0; i < k.n; i++) { bool same = true; for (int d = 1; d < D; d++) if (o[d][i] != o[0][i]) same = false; if (same) R.fail(k.nm + ".constant", "byte " + std::to_string(i) + " is always " + std::to_string(o[0][i])); } if (it == 0) R.sample(k.nm + " " + hexs(o[0])); } }
static void run_big() { size_t sizes[] = {33554431, 33554432, 33554433, 40000000, (size_t)3 << 25}; for (size_t n : sizes) { Plan p; p.seed = n; good(p, n, "over_one_read", false); }
  if (R.shard < 2) { size_t n = ((size_t)1 << (31 + R.shard)) + 5; const char *what = R.shard ? "2^32+5 bytes" : "2^31+5 bytes"; uint8_t *m = (uint8_t *)mmap(0, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) { R.classes["over_2^31_no_memory"]++; return; } Plan p; p.keep_log = false; arm(p); R.op(what); prng::prgn_random_bytes(m, n); armed = false; size_t z = 0; for (size_t i = 0; i < n; i++) z += m[i] < 0xD0; if (!ndelivered) R.classes["source_not_interposed"]++; else if (z) R.fail("random.content", std::string(what) + ": " + std::to_string(z) + " not filled"); for (size_t i = n; i < n + 64; i++) if (m[i]) R.fail("random.bounds", what); R.eval(what, n); munmap(m, n + 4096); } }
// No byte of the source is used twice: every 8-byte window (at any offset) of everything handed out by one scenario must be new.
// 2^19 windows per scenario collide by chance with probability below 2^-26.
struct Seen { std::unordered_set<uint64_t> w; bool add(const uint8_t *b, size_t n, uint64_t *which) { std::vector<uint64_t> v; for (size_t i = 0; i + 8 <= n; i++) { uint64_t x; memcpy(&x, b + i, 8); v.push_back(x); } bool ok = true; for (uint64_t x : v) if (!w.insert(x).second) { *which = x; ok = false; } return ok; } };
struct TArg { const std::vector<RK> *ks; uint64_t seed; int draws; std::vector<Bytes> out; std::atomic<int> *gate; };
static Bytes draw(Rng &g, const std::vector<RK> &ks) { if (g.chance(1, 2)) { auto &k = ks[g.below(ks.size())]; Buf b(k.n, 0, 0xA5, 32); k.f(b.p()); return k.element ? Bytes() : Bytes(b.p(), b.p() + k.n); } size_t n = g.chance(1, 4) ? g.below(700) : 8 + g.below(64); Bytes b(n); if (n) prng::prgn_random_bytes(b.data(), n); return b; }
static void *tmain(void *q) { TArg *a = (TArg *)q; Rng g; g.seed(a->seed, 9); a->gate->fetch_sub(1); while (a->gate->load() > 0) ; for (int i = 0; i < a->draws; i++) a->out.push_back(draw(g, *a->ks)); return 0; }
static void run_unique() { Rng &g = R.rng; auto ks = rks(); uint64_t rounds = R.n(30, 400), which = 0;
  for (uint64_t r = 0; r < rounds; r++) {
    { Seen s; R.op("unique.sequence"); for (int i = 0; i < 3000; i++) { Bytes b = draw(g, ks); if (!s.add(b.data(), b.size(), &which)) { R.fail("random.reused.sequence", "bytes " + hexs((uint8_t *)&which, 8) + " of draw " + std::to_string(i) + " were handed out before"); break; } R.opcount++; } R.eval("sequences", g.u64()); R.classes["windows_seen"] += s.w.size(); }
    { Seen s; R.op("unique.threads"); std::atomic<int> gate(8); TArg a[8]; pthread_t t[8]; for (int i = 0; i < 8; i++) { a[i].ks = &ks; a[i].seed = g.u64(); a[i].draws = 250; a[i].gate = &gate; if (pthread_create(&t[i], 0, tmain, &a[i])) { R.classes["no_thread"]++; gate--; t[i] = 0; } } for (int i = 0; i < 8; i++) if (t[i]) pthread_join(t[i], 0);
      bool dup = false; for (int i = 0; i < 8 && !dup; i++) for (auto &b : a[i].out) if (!s.add(b.data(), b.size(), &which)) { dup = true; R.fail("random.reused.threads", "bytes " + hexs((uint8_t *)&which, 8) + " were handed out twice among 8 threads"); break; } R.opcount++; R.eval("thread_groups", g.u64()); R.classes["windows_seen"] += s.w.size(); }
    for (int f = 0; f < 6; f++) { Seen s; R.op("unique.fork"); int warm = (int)g.below(40); Bytes first; for (int i = 0; i < warm; i++) { Bytes b = draw(g, ks); first.insert(first.end(), b.begin(), b.end()); first.push_back((uint8_t)i); } int pp[2]; if (pipe(pp)) continue; uint64_t cs = g.u64(); fflush(stdout); Bytes got[3]; pid_t c = fork();
      auto few = [&](uint64_t seed) { Rng h; h.seed(seed, 3); Bytes o; for (int i = 0; i < 12; i++) { Bytes b = draw(h, ks); o.insert(o.end(), b.begin(), b.end()); } return o; };
      if (c == 0) { struct itimerval z = {{0, 0}, {0, 0}}; setitimer(ITIMER_VIRTUAL, &z, 0); alarm(60); Bytes o = few(cs); size_t l = 0; while (l < o.size()) { ssize_t w = write(pp[1], o.data() + l, o.size() - l); if (w <= 0) break; l += w; } _exit(0); }
      close(pp[1]); if (c < 0) { close(pp[0]); R.classes["no_fork"]++; continue; } got[0] = few(g.chance(1, 2) ? cs : g.u64()); uint8_t t[4096]; for (;;) { ssize_t q = (ssize_t)syscall(SYS_read, pp[0], t, sizeof t); if (q < 0 && errno == EINTR) continue; if (q <= 0) break; got[1].insert(got[1].end(), t, t + q); } close(pp[0]); int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) ; R.opcount++;
      if (got[1].empty()) { R.classes["child_silent"]++; continue; }
      // the pieces of one process are judged apart from each other: a window that spans two pieces is as random as any other
      s.add(first.data(), first.size(), &which); bool a1 = s.add(got[0].data(), got[0].size(), &which), a2 = s.add(got[1].data(), got[1].size(), &which); if (!a1 || !a2) R.fail("random.reused.fork", "bytes " + hexs((uint8_t *)&which, 8) + " were handed out twice: before a fork, in the parent and in the child"); R.eval("forks", cs); R.classes["windows_seen"] += s.w.size(); } } }
int main(int argc, char **argv) { std::map<std::string, std::string> opt; parse_args(argc, argv, opt); install_handlers(); std::string c = opt["cmd"]; if (c == "faults") run_faults(); else if (c == "keys") run_keys(); else if (c == "big") run_big(); else if (c == "unique") run_unique(); else return 2; R.finish(); return 0; }
