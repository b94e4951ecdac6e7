// History and environment monitor.  Every public operation is called through an assembly
// trampoline that first fills the registers, flags, vector registers, floating-point control word
// and the unused stack with garbage, puts the stack pointer at any 16-byte boundary and then
// jumps to the operation.  Afterwards the result must be the reference one, and everything the
// calling convention protects must be as it was.  Calls follow one another in random histories in
// which the same buffers are reused with related contents (same key and other message, one bit
// changed, an invalid input in between); optionally a periodic signal whose handler scribbles over
// the registers and the stack interrupts them.
//   hist <api|fp25519|fp448> [--signals | --step]
// --step: the processor's trap flag is set, so that a handler that scribbles over registers and stack
// interrupts the operation after every single instruction.
#include "ref.hpp"
#include "faz_ecdh_avx2.h"
#include "faz_eddsa_avx2.h"
#include "faz_hash_avx2.h"
#include "fpops.hpp"
#include <set>
#include <alloca.h>
#include <time.h>
#include <sys/syscall.h>
#include <malloc.h>
extern "C" {
#include "sha512.h"
#include "sha3.h"
#include "multi_hash.h"
}
using namespace faz::ecdh; using namespace faz::eddsa; using namespace faz::hash;
Report R;

struct alignas(64) Frame {       // offsets used by the assembly below
  uint64_t fn;                   // 0
  uint64_t arg[8];               // 8 .. 71   six register arguments, two stack arguments
  uint64_t gpr[9];               // 72 .. 143 rbx rbp r12 r13 r14 r15 rax r10 r11 before
  uint64_t flags;                // 144
  uint64_t slide;                // 152  bytes to lower the stack by (multiple of 16)
  uint32_t mxcsr, mxcsr_after;   // 160 164
  uint64_t after[6];             // 168 .. 215 rbx rbp r12..r15 after
  uint64_t rsp_before, rsp_after;// 216 224
  uint64_t flags_after;          // 232
  uint64_t ret;                  // 240
  uint16_t fcw, fcw_after;       // 248 250
  uint32_t pad;
  uint8_t ymm[16][32];           // 256 .. 767
  uint8_t fenv[32];              // 768
};
#include <ucontext.h>
extern "C" { extern char hist_ret[], hist_end[]; uint64_t hist_saved_rsp; Frame *hist_frame; void hist_call(Frame *); }
__asm__(R"(
.text
.globl hist_call
.type hist_call,@function
hist_call:
  pushq %rbx
  pushq %rbp
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, hist_saved_rsp(%rip)
  movq %rdi, hist_frame(%rip)
  andq $-64, %rsp
  subq 152(%rdi), %rsp
  subq $16, %rsp
  movq 56(%rdi), %rax
  movq %rax, (%rsp)
  movq 64(%rdi), %rax
  movq %rax, 8(%rsp)
  movq %rsp, 216(%rdi)
  ldmxcsr 160(%rdi)
  fldcw 248(%rdi)
  vmovdqu 256(%rdi), %ymm0
  vmovdqu 288(%rdi), %ymm1
  vmovdqu 320(%rdi), %ymm2
  vmovdqu 352(%rdi), %ymm3
  vmovdqu 384(%rdi), %ymm4
  vmovdqu 416(%rdi), %ymm5
  vmovdqu 448(%rdi), %ymm6
  vmovdqu 480(%rdi), %ymm7
  vmovdqu 512(%rdi), %ymm8
  vmovdqu 544(%rdi), %ymm9
  vmovdqu 576(%rdi), %ymm10
  vmovdqu 608(%rdi), %ymm11
  vmovdqu 640(%rdi), %ymm12
  vmovdqu 672(%rdi), %ymm13
  vmovdqu 704(%rdi), %ymm14
  vmovdqu 736(%rdi), %ymm15
  movq 72(%rdi), %rbx
  movq 80(%rdi), %rbp
  movq 88(%rdi), %r12
  movq 96(%rdi), %r13
  movq 104(%rdi), %r14
  movq 112(%rdi), %r15
  movq 136(%rdi), %r11
  movq 16(%rdi), %rsi
  movq 24(%rdi), %rdx
  movq 32(%rdi), %rcx
  movq 40(%rdi), %r8
  movq 48(%rdi), %r9
  pushq 144(%rdi)
  popfq
  movq 120(%rdi), %rax
  movq 0(%rdi), %r10
  movq 8(%rdi), %rdi
  call *%r10
.globl hist_ret
hist_ret:
  movq hist_frame(%rip), %r10
  movq %rsp, 224(%r10)
  pushfq
  popq 232(%r10)
  cld
  movq hist_saved_rsp(%rip), %rsp
  movq %rax, 240(%r10)
  movq %rbx, 168(%r10)
  movq %rbp, 176(%r10)
  movq %r12, 184(%r10)
  movq %r13, 192(%r10)
  movq %r14, 200(%r10)
  movq %r15, 208(%r10)
  stmxcsr 164(%r10)
  fnstcw 250(%r10)
  fnstenv 768(%r10)
  fninit
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  vzeroupper
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbp
  popq %rbx
  ret
.globl hist_end
hist_end:
.size hist_call,.-hist_call
)");

static Frame F; static bool stepping;
static void __attribute__((noinline)) poison_stack(int how, uint64_t v) { const size_t n = 96 << 10; volatile uint8_t *p = (volatile uint8_t *)alloca(n); uint64_t s = v;
  switch (how) { case 0: memset((void *)p, 0, n); break; case 1: memset((void *)p, 0xff, n); break; case 2: memset((void *)p, (int)v, n); break; default: for (size_t i = 0; i + 8 <= n; i += 8) { s = s * 6364136223846793005ull + 1442695040888963407ull; memcpy((void *)(p + i), &s, 8); } } __asm__ volatile("" ::"r"(p) : "memory"); }
static void environment(Rng &g) { int how = (int)g.below(4);
  auto w = [&]() -> uint64_t { return how == 0 ? 0 : how == 1 ? ~0ull : g.u64(); };
  for (auto &x : F.gpr) x = w(); for (auto &y : F.ymm) for (int i = 0; i < 4; i++) { uint64_t v = w(); memcpy(y + 8 * i, &v, 8); }
  // carry, parity, adjust, zero, sign and overflow are arbitrary at a call; direction must be clear
  F.flags = 0x202 | (g.u64() & 0x8D5) | (stepping ? 0x100 : 0); F.slide = 16 * g.below(4); F.mxcsr = 0x1F80 | (g.u64() & 0xE07F); F.fcw = (uint16_t)(0x37F | (g.u64() & 0xC00));
  memset(F.fenv, 0, sizeof F.fenv); poison_stack((int)g.below(4), g.u64()); }
static std::string abi(const Frame &f) { std::string e; static const char *n[6] = {"rbx", "rbp", "r12", "r13", "r14", "r15"}; for (int i = 0; i < 6; i++) if (f.after[i] != f.gpr[i]) e += std::string(" ") + n[i]; if (f.rsp_after != f.rsp_before) e += " rsp"; if (f.flags_after & 0x400) e += " direction-flag"; if ((f.mxcsr ^ f.mxcsr_after) & 0xFFC0) e += " mxcsr"; if ((f.fcw ^ f.fcw_after) & 0xF3F) e += " x87-control"; uint16_t tag; memcpy(&tag, f.fenv + 8, 2); if (tag != 0xffff) e += " x87-stack(mmx)"; return e; }

// ---- signals ---------------------------------------------------------------------------
static volatile uint64_t nsig; static timer_t tm_; static bool signals_;
static inline void __attribute__((always_inline)) clobber_registers() { __asm__ volatile("vpcmpeqd %%ymm0,%%ymm0,%%ymm0; vmovdqa %%ymm0,%%ymm1; vmovdqa %%ymm0,%%ymm2; vmovdqa %%ymm0,%%ymm3; vmovdqa %%ymm0,%%ymm4; vmovdqa %%ymm0,%%ymm5; vmovdqa %%ymm0,%%ymm6; vmovdqa %%ymm0,%%ymm7; vmovdqa %%ymm0,%%ymm8; vmovdqa %%ymm0,%%ymm9; vmovdqa %%ymm0,%%ymm10; vmovdqa %%ymm0,%%ymm11; vmovdqa %%ymm0,%%ymm12; vmovdqa %%ymm0,%%ymm13; vmovdqa %%ymm0,%%ymm14; vmovdqa %%ymm0,%%ymm15; stc" ::: "memory", "cc"); }
static void scribble(int) { nsig++; volatile uint8_t a[6000]; for (size_t i = 0; i < sizeof a; i++) a[i] = (uint8_t)(i * 7 + nsig); clobber_registers(); }
static void start_signals() { signals_ = true; struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = scribble; sa.sa_flags = SA_RESTART; sigaction(SIGUSR1, &sa, 0); struct sigevent se; memset(&se, 0, sizeof se); se.sigev_notify = SIGEV_SIGNAL; se.sigev_signo = SIGUSR1; if (timer_create(CLOCK_MONOTONIC, &se, &tm_)) abort(); struct itimerspec it = {{0, 60000}, {0, 60000}}; timer_settime(tm_, 0, &it, 0); }

static uint64_t seen_rip[1 << 18], nrip; static volatile uint64_t nstep;
static void trapped(int, siginfo_t *, void *u) { greg_t *r = ((ucontext_t *)u)->uc_mcontext.gregs; uint64_t ip = (uint64_t)r[REG_RIP]; if (ip >= (uint64_t)hist_ret && ip < (uint64_t)hist_end) r[REG_EFL] &= ~0x100ll; nstep++; if ((nstep & 0xFFFF) == 0) R.opcount++;
  uint64_t h = ip * 0x9E3779B97F4A7C15ull >> 46; for (int i = 0; i < 64; i++, h = (h + 1) & 0x3FFFF) { if (seen_rip[h] == ip) break; if (!seen_rip[h]) { seen_rip[h] = ip; nrip++; break; } } uint8_t a[1024]; memset(a, (int)nstep, sizeof a); __asm__ volatile("" ::"r"(a) : "memory"); clobber_registers(); }
static void start_steps() { stepping = true; struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = trapped; sa.sa_flags = SA_SIGINFO | SA_RESTART; sigaction(SIGTRAP, &sa, 0); }
static void step_report() { if (!stepping) return; R.classes["interrupted_after_instructions"] = nstep; R.classes["distinct_instructions_interrupted"] = nrip; }

// ---- public API ------------------------------------------------------------------------
struct A { int kind; Bytes v; size_t n; uint64_t imm; };      // kind 0 immediate, 1 input, 2 output (expected contents in v; empty: just compared between calls)
struct Call { std::string nm; void *fn; std::vector<A> a; bool hasret; uint64_t ret; std::vector<Bytes> seen; std::function<void(uint8_t **)> prep; std::vector<uint32_t> firstret; };
static std::vector<Call> calls;
static A I(uint64_t v) { return {0, {}, 0, v}; }
static A in(const Bytes &b) { return {1, b, b.size(), 0}; }
static A out(const Bytes &b) { return {2, b, b.size(), 0}; }
static A outn(size_t n) { return {2, {}, n, 0}; }
static void add(const std::string &nm, void *fn, std::vector<A> a, bool hasret = false, uint64_t ret = 0) { if (fn) calls.push_back({nm, fn, a, hasret, ret, {}, nullptr}); }
static Bytes flip(Rng &g, Bytes b, size_t lim = 0) { if (b.empty()) return b; size_t i = g.below(lim ? lim : b.size()); b[i] ^= 1 << g.below(8); return b; }
static void build_api(int per) { Rng &g = R.rng;
  const X_ECDH *X[3] = {&X25519, &X25519_x64, &X448}; const char *XN[3] = {"X25519", "X25519_x64", "X448"}; int rcs[3] = {-1, -1, -1};
  for (int c = 0; c < per; c++) for (int i = 0; i < 3; i++) { const X_ECDH *E = X[i]; size_t n = i == 2 ? 56 : 32; Bytes k0 = g.bytes(n), u0 = g.bytes(n); k0[0] &= 0xF8; Bytes base(n, 0); base[0] = i == 2 ? 5 : 9;
    for (int v = 0; v < 9; v++) { Bytes k = k0, u = u0; if (v == 6) u = base; if (v == 7) { u = Bytes(n, 0xff); if (n == 32) { u[0] = (uint8_t)(0xe8 + g.below(24)); u[31] = 0x7f; } else u[0] = (uint8_t)(0xf0 + g.below(16)); } if (v == 8) { u[n / 2] ^= 1; k[n - 2] ^= 4; } if (v == 1) k = flip(g, k); if (v == 2) u = flip(g, u); if (v == 3) u = Bytes(n, 0); if (v == 4) { k = Bytes(n, 0xff); } if (v == 5) { k[n - 1] ^= 0x3f; } Bytes w = i == 2 ? ref::x448(k, u) : ref::x25519(k, u), wk = i == 2 ? ref::x448(k, base) : ref::x25519(k, base);
      (void)rcs; add(std::string(XN[i]) + ".shared", (void *)E->shared, {out(w), in(u), in(k)}); add(std::string(XN[i]) + ".keygen", (void *)E->keygen, {out(wk), in(k)}); } }
  struct Sg { const char *nm; ref::Mode m; void *kg, *sign, *verify; bool pure; };
  Sg S[5] = {{"Ed25519", {false, false, 0}, (void *)Ed25519.Pure.keygen, (void *)Ed25519.Pure.sign, (void *)Ed25519.Pure.verify, true}, {"Ed25519ctx", {false, true, 0}, (void *)Ed25519.Context.keygen, (void *)Ed25519.Context.sign, (void *)Ed25519.Context.verify, false}, {"Ed25519ph", {false, true, 1}, (void *)Ed25519.PreHash.keygen, (void *)Ed25519.PreHash.sign, (void *)Ed25519.PreHash.verify, false},
    {"Ed448", {true, true, 0}, (void *)Ed448.PureContext.keygen, (void *)Ed448.PureContext.sign, (void *)Ed448.PureContext.verify, false}, {"Ed448ph", {true, true, 1}, (void *)Ed448.PreHash.keygen, (void *)Ed448.PreHash.sign, (void *)Ed448.PreHash.verify, false}};
  for (int c = 0; c < per; c++) { Bytes msg0 = g.bytes(c % 3 == 2 ? 1000 + g.below(5000) : g.chance(1, 4) ? g.below(3) : g.below(400)), ctx0 = g.bytes(c % 3 == 1 ? 255 - g.below(2) : 1 + g.below(40)), s57 = g.bytes(57);
    for (auto &s : S) { size_t nk = s.m.c448 ? 57 : 32; for (int v = 0; v < 4; v++) { Bytes sk(s57.begin(), s57.begin() + nk), msg = msg0, ctx = s.m.dom ? ctx0 : Bytes(); if (v == 1) sk = flip(g, sk); if (v == 2) msg = msg.empty() ? g.bytes(1) : flip(g, msg); if (v == 3) { if (s.m.dom) ctx = flip(g, ctx); else msg.push_back(0); }
        Bytes pk = ref::keygen(s.m, sk), sig = ref::sign(s.m, msg, ctx, pk, sk); add(std::string(s.nm) + ".keygen", s.kg, {out(pk), in(sk)}, true, EDDSA_KEYGEN_OK);
        auto VV = [&](const Bytes &m, const Bytes &x, const Bytes &p, const Bytes &z, const char *what) { bool want = ref::verify(s.m, m, x, p, z) == ref::ACCEPT; std::vector<A> a = {in(m), I(m.size())}; if (!s.pure) { a.push_back(in(x)); a.push_back(I(x.size())); } a.push_back(in(p)); a.push_back(in(z)); add(std::string(s.nm) + ".verify_" + what, s.verify, a, true, want ? (uint64_t)EDDSA_VERIFICATION_OK : ~0ull); };
        std::vector<A> a = {out(sig), in(msg), I(msg.size())}; if (!s.pure) { a.push_back(in(ctx)); a.push_back(I(ctx.size())); } a.push_back(in(pk)); a.push_back(in(sk)); add(std::string(s.nm) + ".sign", s.sign, a, true, EDDSA_SIGNATURE_OK);
        VV(msg, ctx, pk, sig, "ok"); if (v == 0) { Bytes b1 = flip(g, sig, nk - 1), b2 = sig, pk2 = flip(g, pk, nk - 1), m2 = msg.empty() ? g.bytes(1) : flip(g, msg); b2[nk + g.below(nk / 2)] ^= 4; VV(msg, ctx, pk, b1, "badR"); VV(msg, ctx, pk, b2, "badS"); VV(msg, ctx, pk2, sig, "badkey"); VV(m2, ctx, pk, sig, "badmsg"); if (s.m.dom) { Bytes c2 = flip(g, ctx); VV(msg, c2, pk, sig, "badctx"); } } } } }
  for (int c = 0; c < per; c++) { Bytes m0 = g.bytes(c % 3 == 2 ? 1000 + g.below(4000) : g.below(700)); for (int v = 0; v < 3; v++) { Bytes m = v == 1 ? flip(g, m0) : m0; if (v == 2) m.push_back(0); Bytes m2 = g.bytes(m.size());
      add("SHAKE256", (void *)SHAKE256, {in(m), I(8 * m.size()), out(ref::shake256(m, 117)), I(117)}); add("SHAKE128", (void *)SHAKE128, {in(m), I(8 * m.size()), out(ref::sponge_bytes(168, m.data(), m.size(), 0x1F, 50)), I(50)}); 
      Point p; h2c25519_x64(&p, m.data(), m.size()); add("h2c25519_x64", (void *)h2c25519_x64, {outn(64), in(m), I(m.size())}); add("h2c25519_avx2", (void *)h2c25519_avx2, {outn(64), in(m), I(m.size())}); Bytes pb((uint8_t *)&p, (uint8_t *)&p + 64), p2 = flip(g, pb);
      add("isOnCurve", (void *)isOnCurve, {in(pb)}, true, 1); add("areEqual", (void *)areEqual, {in(pb), in(pb)}, true, 1); { Point q; memcpy(&q, p2.data(), 64); int eq = areEqual(&p, &q), oc = isOnCurve(&q); add("areEqual", (void *)areEqual, {in(pb), in(p2)}, true, (uint64_t)(uint32_t)eq); add("isOnCurve", (void *)isOnCurve, {in(p2)}, true, (uint64_t)(uint32_t)oc); }
      // a hash context is an output that may lie in memory holding anything
      { Call cl{"sha512_chain", nullptr, {in(m), outn(sizeof(sph_sha512_context)), out(ref::sha512(m))}, false, 0, {}, nullptr}; calls.push_back(cl); } } } }

// operations whose results are not compared here; they only disturb what comes after
static void noise(Rng &g) { R.op("noise"); static FILE *nul = fopen("/dev/null", "w"); uint8_t b[256], o[64]; g.fill(b, sizeof b);
  switch (g.below(8)) { case 0: { uint8_t *k = X25519.allocKey(); X25519.randKey(k); X25519.printKey(nul, k); X25519.freeKey(k); break; } case 1: { uint8_t *k = X448.allocKey(); X448.randKey(k); X448.printKey(nul, k); X448.freeKey(k); break; }
    case 2: { uint8_t *k = Ed25519.Pure.allocKey(), *z = Ed25519.Pure.allocSignature(); Ed25519.Pure.randKey(k); memcpy(z, b, 64); Ed25519.Pure.printSignature(nul, z); Ed25519.Pure.freeSignature(z); Ed25519.Pure.freeKey(k); break; } case 3: { uint8_t *k = Ed448.PureContext.allocKey(), *z = Ed448.PreHash.allocSignature(); Ed448.PureContext.randKey(k); memcpy(z, b, 114); Ed448.PreHash.printSignature(nul, z); Ed448.PreHash.freeSignature(z); Ed448.PureContext.freeKey(k); break; }
    case 4: { uint8_t *mm[2] = {b, b + 7}, *oo[2] = {o, o}; uint8_t o2[64]; oo[1] = o2; sha512_2w_avx(mm, g.below(240), oo); break; } case 5: { hashState x; Init(&x, 256); Update(&x, b, 8 * g.below(250)); Final2(&x, o, 64); break; }
    case 6: { ALIGN uint64_t a[4], c[4]; memcpy(a, b, 32); Fp25519._1w_full.arith.inv(c, a); Fp25519._1w_full.arith.misc.rand(c); Fp25519._1w_full.arith.srt(c, a); break; } default: { ALIGN __m256i a[16], c[16]; Fp448._4w_red.arith.misc.unser(a, b); Fp448._4w_red.arith.mul(c, a, a); } }
  R.classes["disturbances"]++; }
static void run_api() { Rng &g = R.rng; build_api(stepping ? 3 : R.thorough ? 6 : 3); uint64_t n = stepping ? R.n(48, 480) : R.n(120000, 1500000); const int NS = 10; static uint8_t *slot[NS]; for (auto &s : slot) s = (uint8_t *)aligned_alloc(64, 16384); std::set<std::pair<std::string, std::string>> pairs; std::string prev; size_t hot = 0;
  std::map<std::string, std::vector<size_t>> byname; for (size_t i = 0; i < calls.size(); i++) byname[calls[i].nm].push_back(i);
  auto step = [&](Call &c, void *fn, std::vector<A> &a, uint64_t *retp) -> std::string { uint8_t *p[8] = {0}; int perm[NS]; for (int i = 0; i < NS; i++) perm[i] = i; if (g.chance(1, 3)) for (int i = NS - 1; i > 0; i--) std::swap(perm[i], perm[g.below(i + 1)]);
    bool al = c.nm[0] == 'h' || c.nm[0] == 'i' || c.nm[0] == 'a'; size_t mis = al ? 0 : g.chance(1, 2) ? 0 : g.below(64); uint8_t fill = (uint8_t)g.u64(); 
    for (size_t i = 0; i < a.size(); i++) { if (a[i].kind == 0) { F.arg[i] = a[i].imm; continue; } p[i] = slot[perm[i]] + 64 + mis; if (a[i].kind == 1) { memcpy(p[i], a[i].v.data(), a[i].n); } else { memset(p[i], fill, a[i].n); memset(p[i] - 32, 0xC3, 32); memset(p[i] + a[i].n, 0xC3, 32); } F.arg[i] = (uint64_t)p[i]; }
    F.fn = (uint64_t)fn; environment(g); R.op(c.nm.c_str()); hist_call(&F); if (retp) *retp = F.ret; std::string e = abi(F), d;
    if (!e.empty()) d = "calling convention:" + e;
    for (size_t i = 0; i < a.size(); i++) { if (a[i].kind == 1 && c.nm != "areEqual" && memcmp(p[i], a[i].v.data(), a[i].n)) d += " input " + std::to_string(i) + " modified"; if (a[i].kind == 2) { for (int z = 1; z <= 32; z++) if (p[i][-z] != 0xC3 || p[i][a[i].n + z - 1] != 0xC3) { d += " output " + std::to_string(i) + " exceeded"; break; } Bytes got(p[i], p[i] + a[i].n); if (a[i].v.empty()) a[i].v = got; else if (got != a[i].v) d += " output " + std::to_string(i) + " got=" + hexs(got) + " want=" + hexs(a[i].v); } }
    return d; };
  std::vector<std::string> names; for (auto &b : byname) names.push_back(b.first);
  for (uint64_t it = 0; it < n; it++) { if (it % 12 == 0) hot = g.below(calls.size()); size_t k = hot; switch (g.below(4)) { case 0: k = g.below(calls.size()); break; case 1: { auto &v = byname[calls[hot].nm]; k = v[g.below(v.size())]; break; } case 2: k = std::min(calls.size() - 1, hot + g.below(9)); break; } if (stepping) { auto &v = byname[names[(it * R.nshards + R.shard) % names.size()]]; k = v[g.below(v.size())]; } Call &c = calls[k]; std::string d; if (it % 16 == 7) noise(g);
    if (c.fn) { uint64_t ret = 0; d = step(c, c.fn, c.a, &ret); if (c.hasret) { if (c.firstret.empty()) c.firstret.push_back((uint32_t)ret); else if (c.firstret[0] != (uint32_t)ret) d += " returned " + std::to_string((int)ret) + " where it had returned " + std::to_string((int)c.firstret[0]); bool ok = c.ret == ~0ull ? (uint32_t)ret != EDDSA_VERIFICATION_OK : (uint32_t)ret == (uint32_t)c.ret; if (!ok) d += " returned " + std::to_string((int)ret) + " want " + (c.ret == ~0ull ? "a rejection" : std::to_string((int)c.ret)); } }
    else { // incremental hashing in a context that starts as garbage; other calls may come in between
      alignas(64) static uint8_t ctx[sizeof(sph_sha512_context) + 64]; memset(ctx, (int)g.u64(), sizeof ctx); Bytes m = c.a[0].v, o(64); size_t cut = g.below(m.size() + 1); auto raw = [&](void *fn, uint64_t a0, uint64_t a1, uint64_t a2) { F.fn = (uint64_t)fn; F.arg[0] = a0; F.arg[1] = a1; F.arg[2] = a2; environment(g); R.op("sha512"); hist_call(&F); d += abi(F); };
      raw((void *)sph_sha512_init, (uint64_t)ctx, 0, 0); raw((void *)sph_sha384, (uint64_t)ctx, (uint64_t)m.data(), cut); if (g.chance(1, 2)) { uint64_t r; Call &x = calls[g.below(calls.size())]; if (x.fn) step(x, x.fn, x.a, &r); } raw((void *)sph_sha384, (uint64_t)ctx, (uint64_t)(m.data() + cut), m.size() - cut); raw((void *)sph_sha512_close, (uint64_t)ctx, (uint64_t)o.data(), 0); if (o != c.a[2].v) d += " digest " + hexs(o); }
    if (!d.empty()) { std::string ins; for (auto &a : c.a) if (a.kind == 1) ins += hexs(a.v) + " "; R.fail("history." + c.nm, d + " | inputs " + ins + "| previous: " + prev); }
    pairs.insert({prev, c.nm}); prev = c.nm; R.eval(c.nm.c_str(), fnv(c.nm.data(), c.nm.size(), k * 64 + F.slide + (F.flags & 1) * 7 + (F.gpr[0] == 0) + 2 * (F.gpr[0] == ~0ull)));
  }
  R.classes["distinct_successive_operation_pairs"] = pairs.size(); R.classes["operations_with_inputs"] = calls.size(); if (signals_) R.classes["signals_delivered"] = nsig; step_report(); R.sample("history of " + std::to_string(n) + " calls over " + std::to_string(calls.size()) + " operations with inputs"); }

// ---- field tables ----------------------------------------------------------------------
static Op *cur_op; static uint8_t **cur_p;
extern "C" void hist_thunk(std::function<void(uint8_t **)> *f, uint8_t **p) { (*f)(p); }
// the operation itself as the callee, so that the registers and flags set by the trampoline reach it unchanged;
// operations with results in registers go through the thunk instead
static bool direct(const Op &o, uint8_t **p) { size_t dot = o.nm.find('.', o.nm.find('.') + 1); std::string t = o.nm.substr(dot + 1); if (t == "cmp" || t == "sgn" || t == "print") return false; if (t.substr(0, 3) == "cmv" && t.size() == 3) return false; F.fn = (uint64_t)o.fp; auto A = [&](int i, int k) { F.arg[i] = (uint64_t)p[k]; };
  if (t == "sub.alias") { A(0, 0); A(1, 1); A(2, 0); } else if (t == "add.alias" || t == "mul.alias") { A(0, 0); A(1, 0); A(2, 1); } else if (t == "cmv0" || t == "cmv1") { F.arg[0] = t == "cmv1"; A(1, 0); A(2, 1); A(3, 2); } else for (size_t k = 0; k < o.a.size(); k++) A((int)k, (int)k); return true; }
static void run_fp() { uint64_t ndirect = 0; Rng &g = R.rng; ND = is448 ? 16 : 10; half_ = ND / 2; build(is448 ? Fp448 : Fp25519); const bool st = stepping; uint64_t rounds = st ? R.n(30, 400) : R.n(3000, 40000); static ALIGN uint8_t bufs[2][4][2048]; (void)cur_op; (void)cur_p;
  for (uint64_t it = 0; it < rounds; it++) for (size_t q = 0; q < ops.size(); q++) { Op &o = ops[g.below(ops.size())]; bool rnd = o.nm.size() > 5 && o.nm.substr(o.nm.size() - 5) == ".rand", pr = o.nm.size() > 6 && o.nm.substr(o.nm.size() - 6) == ".print"; if ((rnd || pr) && g.chance(9, 10)) continue; if ((o.nm.find(".inv") != std::string::npos || o.nm.find(".srt") != std::string::npos) && g.chance(st ? 9 : 5, st ? 10 : 6)) continue; size_t na = o.a.size(); std::vector<Bytes> inb(na); uint8_t *p[2][4]; uint64_t h = fnv(o.nm.data(), o.nm.size());
      for (size_t k = 0; k < na; k++) { const Arg &a = o.a[k]; inb[k].resize(a.n); if (a.role != OUT) { gen(a, inb[k].data()); h = fnv(inb[k].data(), a.n, h); } size_t slide = a.kind == BYTES ? g.below(32) : 32 * g.below(4); for (int v = 0; v < 2; v++) { p[v][k] = bufs[v][k] + 64 + slide; if (a.role != OUT) memcpy(p[v][k], inb[k].data(), a.n); else memset(p[v][k], v ? 0xff : 0, a.n); } }
      R.op(o.nm.c_str()); std::string d; for (int v = 0; v < 2; v++) { F.fn = (uint64_t)hist_thunk; F.arg[0] = (uint64_t)&o.f; F.arg[1] = (uint64_t)p[v]; if (g.chance(3, 4) && direct(o, p[v])) ndirect++; stepping = st && v; environment(g); stepping = st; if (pr) F.mxcsr = 0x1F80; hist_call(&F); d += abi(F); }
      std::string det; for (auto &x : inb) det += hexs(x) + " ";
      if (!d.empty()) R.fail("environment." + o.nm, "calling convention:" + d + " | " + det);
      for (size_t k = 0; k < na && !rnd; k++) { const Arg &a = o.a[k]; size_t n = a.n; if (a.role == IN) { if (memcmp(p[0][k], inb[k].data(), n)) R.fail("environment." + o.nm, "input modified | " + det); continue; } if (a.lanes == 1 && a.kind != BYTES && a.kind != WORDS && !is448) n = 80; if (a.role == IO && o.nm.find("reduce") != std::string::npos) continue;
        if (memcmp(p[0][k], p[1][k], n)) R.fail("environment." + o.nm, "argument " + std::to_string(k) + " differs between two environments: " + hexs(p[0][k], n) + " " + hexs(p[1][k], n) + " | " + det); }
      R.eval(o.nm.c_str(), h); }
  R.classes["operations"] = ops.size(); R.classes["called_directly"] = ndirect; if (signals_) R.classes["signals_delivered"] = nsig; step_report(); }
int main(int argc, char **argv) { std::map<std::string, std::string> opt; parse_args(argc, argv, opt); install_handlers(); std::string c = opt["cmd"]; is448 = c == "fp448"; if (opt.count("signals")) start_signals(); if (opt.count("step")) start_steps(); if (c == "api") run_api(); else if (c == "fp25519" || is448) run_fp(); else return 2; R.finish(); return 0; }
