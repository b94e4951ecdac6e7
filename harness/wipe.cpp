// Residue monitor.  Each Diffie-Hellman operation runs on a stack of its own; when it has returned,
// that stack and all static and heap memory of the process are searched for any sixteen consecutive
// bytes of the private key (as given or as clamped).  The driver keeps its own copies in two mapped
// pages that are left out of the search, so what is found was left behind by the operation.
//   wipe dh
#include "ref.hpp"
#include "faz_ecdh_avx2.h"
#include <ucontext.h>
#include <set>
using namespace faz::ecdh;
Report R;
static const size_t SZ = 256 << 10; static uint8_t *stk, *mine, *sigs; static ucontext_t mainc, runc; static const X_ECDH *E; static bool shared_; static uint8_t *a0, *a1, *a2;
static void body() { if (shared_) E->shared(a0, a1, a2); else E->keygen(a0, a1); }
static size_t depth() { size_t i = 0; while (i + 8 <= SZ) { uint64_t w; memcpy(&w, stk + i, 8); if (w != 0xEEEEEEEEEEEEEEEEull) break; i += 8; } return SZ - i; }
struct Area { uint8_t *a, *b; };
// writable memory other than thread stacks and the driver's pages
static std::vector<Area> areas() { std::vector<Area> v; FILE *f = fopen("/proc/self/maps", "r"); char l[512]; while (f && fgets(l, sizeof l, f)) { unsigned long a, b; char pr[8], name[300] = ""; if (sscanf(l, "%lx-%lx %7s %*s %*s %*s %299[^\n]", &a, &b, pr, name) < 3) continue; if (pr[0] != 'r' || pr[1] != 'w' || strstr(name, "[stack") || strstr(name, "[v")) continue; bool own = false; for (uint8_t *m : {stk, mine, sigs}) own |= (uint8_t *)a <= m && m < (uint8_t *)b; if (own) continue; v.push_back({(uint8_t *)a, (uint8_t *)b}); } if (f) fclose(f); return v; }
// needles: all 16-byte windows of the two forms of the key that are not nearly constant
static const uint8_t *nd[2]; static size_t nlen; static std::vector<int8_t> head(65536, 0); static std::vector<uint16_t> used;
static bool rich(const uint8_t *p) { int d = 0; for (int i = 0; i < 16; i++) { bool s = false; for (int k = 0; k < i; k++) s |= p[k] == p[i]; d += !s; } return d >= 9; }
static void arm(const uint8_t *a, const uint8_t *b, size_t len) { for (uint16_t u : used) head[u] = 0; used.clear(); nd[0] = a; nd[1] = b; nlen = len; for (int v = 0; v < 2; v++) for (size_t o = 0; o + 16 <= len; o++) if (rich(nd[v] + o)) { uint16_t h; memcpy(&h, nd[v] + o, 2); head[h] = 1; used.push_back(h); } }
static size_t longest;   // longest run of key bytes found by the last search
static size_t search(const uint8_t *a, const uint8_t *b, std::set<size_t> &offs, const uint8_t *&where) { size_t found = 0; longest = 0; for (const uint8_t *p = a; p + 16 <= b; p++) { uint16_t h; memcpy(&h, p, 2); if (!head[h]) continue; for (int v = 0; v < 2; v++) for (size_t o = 0; o + 16 <= nlen; o++) if (!memcmp(nd[v] + o, p, 16) && rich(p)) { size_t l = 16; while (p + l < b && o + l < nlen && p[l] == nd[v][o + l]) l++; longest = std::max(longest, l); found++; offs.insert(o); where = p; } } return found; }
int main(int argc, char **argv) { std::map<std::string, std::string> opt; parse_args(argc, argv, opt); install_handlers(); if (opt["cmd"] != "dh") return 2; Rng &g = R.rng;
  // inaccessible pages keep each of the driver's own regions a mapping of its own: the stack, the page of the keys,
  // and the signal stack, where an interrupted operation's registers may be saved by the kernel
  auto region = [](size_t n) { uint8_t *p = (uint8_t *)mmap(0, n + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED || mprotect(p + 4096, n, PROT_READ | PROT_WRITE)) abort(); return p + 4096; };
  stk = region(SZ); mine = region(4096); sigs = region(65536); stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = sigs; ss.ss_size = 65536; sigaltstack(&ss, 0);
  const X_ECDH *X[3] = {&X25519, &X25519_x64, &X448}; const char *N[3] = {"X25519", "X25519_x64", "X448"}; uint64_t n = R.n(4000, 60000), searched = 0, wide = 0; std::map<std::string, size_t> deepest;
  for (uint64_t it = 0; it < n; it++) for (int i = 0; i < 3; i++) for (int sh = 0; sh < 2; sh++) { size_t len = i == 2 ? 56 : 32; uint8_t *c = mine + 512, *k = mine + 64 + g.below(33);
        g.fill(k, len); if (g.chance(1, 4)) { size_t z = g.below(len - 18), at = g.below(len - z); memset(k + at, g.chance(1, 2) ? 0 : 0xff, z); } memcpy(c, k, len); if (i == 2) { c[0] &= 0xfc; c[55] |= 0x80; } else { c[0] &= 0xf8; c[31] = (c[31] & 0x7f) | 0x40; }
        // peers: random, small order, base point, at and above the modulus
        Bytes u = g.bytes(len); if (g.chance(1, 2)) { mpz_class p = i == 2 ? mpz_class((mpz_class(1) << 448) - (mpz_class(1) << 224) - 1) : mpz_class((mpz_class(1) << 255) - 19), x; switch (g.below(6)) { case 0: x = 0; break; case 1: x = 1; break; case 2: x = p - 1; break; case 3: x = i == 2 ? 5 : 9; break; case 4: x = p + (int)g.below(19); break; default: x = (mpz_class(1) << (8 * (unsigned)len)) - 1 - (int)g.below(3); } std::fill(u.begin(), u.end(), 0); for (size_t b = 0; b < len; b++) { mpz_class t = (x >> (8 * (unsigned)b)) & 255; u[b] = (uint8_t)t.get_ui(); } }
        Buf bo(len, g.below(33)), bu(len, g.below(33)); memcpy(bu.p(), u.data(), len); E = X[i]; shared_ = sh; a0 = bo.p(); a1 = sh ? bu.p() : k; a2 = k; std::string nm = std::string(N[i]) + (sh ? ".shared" : ".keygen"); R.op(nm.c_str());
        memset(stk, 0xEE, SZ); getcontext(&runc); runc.uc_stack.ss_sp = stk; runc.uc_stack.ss_size = SZ; runc.uc_link = &mainc; makecontext(&runc, body, 0); swapcontext(&mainc, &runc);
        size_t dp = depth(); deepest[nm] = std::max(deepest[nm], dp); arm(k, c, len);
        std::set<size_t> offs; const uint8_t *w = 0; size_t found = search(stk + SZ - dp, stk + SZ, offs, w); std::string os;
        if (found) { for (size_t o : offs) os += std::to_string(o) + " "; // two words of the scalar next to each other may be what a compiler kept in a vector register and spilled:
          // up to 23 bytes count only when most of the builds show them (the quorum in jobs.py)
          R.fail(nm + (longest < 24 ? ".residue_short" : ".residue"), "key=" + hexs(k, len) + " key bytes from offsets " + os + "left on the stack, e.g. " + std::to_string(SZ - (w - stk)) + " bytes below its top"); continue; }
        searched += dp; if (it % 4 == 0) { for (auto &r : areas()) { found += search(r.a, r.b, offs, w); wide += r.b - r.a; if (found) break; } if (found) { for (size_t o : offs) os += std::to_string(o) + " "; R.fail(nm + ".residue_static_or_heap", "key=" + hexs(k, len) + " key bytes from offsets " + os + "left in static or heap memory"); continue; } R.classes["static_and_heap_searches"]++; }
        if (it < 4) { Bytes kk(k, k + len), base(len, 0); base[0] = i == 2 ? 5 : 9; const Bytes &uu = sh ? u : base; Bytes want = i == 2 ? ref::x448(kk, uu) : ref::x25519(kk, uu); if (memcmp(want.data(), bo.p(), len)) R.fail(nm + ".value", hexs(kk)); }
        R.eval(nm.c_str(), fnv(k, len, i * 2 + sh)); }
  for (auto &d : deepest) R.classes["deepest_stack_bytes_searched_" + d.first] = d.second; R.classes["mean_static_and_heap_bytes_searched"] = R.classes["static_and_heap_searches"] ? wide / R.classes["static_and_heap_searches"] : 0; R.finish(); return 0; }
