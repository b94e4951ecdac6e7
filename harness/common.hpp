// Shared plumbing of every driver: deterministic RNG, case accounting, verdict
// lines, crash/hang reporting.  A driver prints
//   FAIL <key> <detail...>      one line per violating case (bounded per key)
//   REPORT {json}               once, at the end
// and exits 0 (the Python side turns FAIL lines into verdicts).
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <valgrind/memcheck.h>
#include <string>
#include <vector>
#include <map>
#include <unordered_set>
#include <algorithm>
#include <functional>

typedef std::vector<uint8_t> Bytes;

struct Rng {
  uint64_t s[4];
  static uint64_t splitmix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  void seed(uint64_t a, uint64_t b = 0, uint64_t c = 0) {
    uint64_t x = a * 0x2545F4914F6CDD1Dull + b * 0x9E3779B97F4A7C15ull + c * 0xD1342543DE82EF95ull + 12345;
    for (int i = 0; i < 4; i++) s[i] = splitmix(x);
  }
  uint64_t u64() {
    auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
  }
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  void fill(void *p, size_t n) { uint8_t *b = (uint8_t *)p; for (size_t i = 0; i < n; i++) b[i] = (uint8_t)u64(); }
  Bytes bytes(size_t n) { Bytes v(n); fill(v.data(), n); return v; }
};

inline std::string hexs(const void *p, size_t n) {
  static const char *d = "0123456789abcdef"; std::string s; const uint8_t *b = (const uint8_t *)p;
  for (size_t i = 0; i < n; i++) { s += d[b[i] >> 4]; s += d[b[i] & 15]; }
  return s;
}
inline std::string hexs(const Bytes &b) { return hexs(b.data(), b.size()); }
inline Bytes unhex(const char *h) {
  Bytes r; for (; h[0] && h[1]; h += 2) { unsigned v; sscanf(h, "%2x", &v); r.push_back((uint8_t)v); } return r;
}
inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const uint8_t *b = (const uint8_t *)p; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
  return h ^ (h >> 29);
}

struct Report {
  uint64_t evals = 0, fails = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> classes;     // what the monitors saw, by class
  std::map<std::string, uint64_t> failkeys;
  std::vector<std::string> samples;
  uint64_t seed = 1; int shard = 0, nshards = 1; bool thorough = false; double scale = 1;
  volatile uint64_t opcount = 0; const char *volatile curop = "start";
  Rng rng;
  void eval(const char *cls, uint64_t h, bool nontrivial = true) {
    evals++; opcount++; classes[cls]++;
    if (nontrivial && distinct.size() < 4000000) distinct.insert(h);
  }
  bool vg = false; unsigned vgerr = 0; std::string vgop;
  // under Valgrind memcheck: errors that appeared since the last call are charged to it
  void vgpoll(const char *next) { unsigned e = VALGRIND_COUNT_ERRORS; if (e != vgerr) { vgerr = e; fail("memcheck." + vgop, "memcheck errors so far: " + std::to_string(e)); } vgop = next; }
  void op(const char *o) { curop = o; opcount++; if (vg) vgpoll(o); }
  void sample(const std::string &s, size_t max = 6) { if (samples.size() < max) samples.push_back(s); }
  void fail(const std::string &key, const std::string &detail) {
    fails++;
    if (failkeys[key]++ < 3) { printf("FAIL %s %s\n", key.c_str(), detail.substr(0, 6000).c_str()); fflush(stdout); }
  }
  // number of cases this shard should run, out of a total given for quick
  uint64_t n(uint64_t quick, uint64_t thoroughN) {
    double t = (thorough ? thoroughN : quick) * scale; uint64_t q = (uint64_t)(t / nshards);
    return q < 1 ? 1 : q;
  }
  static std::string esc(const std::string &s) {
    std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if ((unsigned char)c < 32) r += ' '; else r += c; } return r;
  }
  void finish() {
    if (vg) vgpoll("end");
    printf("REPORT {\"evaluations\":%llu,\"distinct\":%llu,\"fails\":%llu,\"classes\":{",
           (unsigned long long)evals, (unsigned long long)distinct.size(), (unsigned long long)fails);
    bool f = true; for (auto &c : classes) { printf("%s\"%s\":%llu", f ? "" : ",", esc(c.first).c_str(), (unsigned long long)c.second); f = false; }
    printf("},\"failkeys\":{"); f = true;
    for (auto &c : failkeys) { printf("%s\"%s\":%llu", f ? "" : ",", esc(c.first).c_str(), (unsigned long long)c.second); f = false; }
    printf("},\"samples\":["); f = true;
    for (auto &s : samples) { printf("%s\"%s\"", f ? "" : ",", esc(s).c_str()); f = false; }
    printf("]}\n"); fflush(stdout);
  }
};
extern Report R;

// --- crash and hang reporting -------------------------------------------------
inline void crash_handler(int sig) {
  char b[256]; int n = snprintf(b, sizeof b, "\nCRASH signal=%d op=%s opcount=%llu\n", sig, R.curop, (unsigned long long)R.opcount);
  if (n > 0) { ssize_t w = write(1, b, n); (void)w; }
  _exit(99);
}
inline void hang_handler(int) {
  static uint64_t last = ~0ull; static int same = 0;
  if (R.opcount == last) { if (++same >= 12) {   // 12*10 s of CPU time inside one call
      char b[256]; int n = snprintf(b, sizeof b, "\nHANG op=%s opcount=%llu\n", R.curop, (unsigned long long)R.opcount);
      if (n > 0) { ssize_t w = write(1, b, n); (void)w; } _exit(98); } }
  else { same = 0; last = R.opcount; }
}
inline void install_handlers() {
  static uint8_t alt[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = crash_handler; sa.sa_flags = SA_ONSTACK;
  int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT};
  for (int s : sigs) sigaction(s, &sa, 0);
  sa.sa_handler = hang_handler; sa.sa_flags = SA_ONSTACK | SA_RESTART; sigaction(SIGVTALRM, &sa, 0);
  struct itimerval it = {{10, 0}, {10, 0}}; setitimer(ITIMER_VIRTUAL, &it, 0);
}
inline void set_guard(const std::map<std::string, std::string> &opt);
inline void parse_args(int argc, char **argv, std::map<std::string, std::string> &opt) {
  for (int i = 1; i < argc; i++) { std::string a = argv[i];
    if (a.rfind("--", 0) == 0) { auto e = a.find('='); if (e == std::string::npos) opt[a.substr(2)] = "1"; else opt[a.substr(2, e - 2)] = a.substr(e + 1); }
    else opt["cmd"] = a; }
  if (opt.count("seed")) R.seed = strtoull(opt["seed"].c_str(), 0, 10);
  if (opt.count("tier")) R.thorough = opt["tier"] == "thorough";
  if (opt.count("shard")) sscanf(opt["shard"].c_str(), "%d/%d", &R.shard, &R.nshards);
  if (opt.count("scale")) R.scale = atof(opt["scale"].c_str());
  set_guard(opt); R.vg = RUNNING_ON_VALGRIND && opt.count("memcheck");
  uint64_t h = fnv(opt["cmd"].data(), opt["cmd"].size());
  R.rng.seed(R.seed, R.shard + 1, h);
}

// Scratch for one argument: `len` payload bytes with canaries around them.  Where it lies depends on --guard:
//   (none)  heap, payload at 64k+misalign, 96+ canary bytes on both sides
//   end     payload flush with the end of a page, the next page inaccessible: an over-read or over-write traps
//   start   payload at the start of a page, the previous page inaccessible
//   heap    an allocation of exactly misalign+len bytes, for Valgrind and AddressSanitizer
enum GuardMode { G_NONE, G_END, G_START, G_HEAP };
inline GuardMode &guard_mode() { static GuardMode m = G_NONE; return m; }
struct Buf {
  uint8_t *base, *pay; size_t cap, len; uint8_t fillv; GuardMode m;
  static std::map<size_t, std::vector<uint8_t *>> &pool() { static thread_local std::map<size_t, std::vector<uint8_t *>> p; return p; }
  explicit Buf(size_t n, size_t misalign = 0, uint8_t fv = 0xA5, size_t align = 1) : len(n), fillv(fv), m(guard_mode()) {
    if (m == G_NONE) { cap = n + 64 + 64 + 192; base = (uint8_t *)malloc(cap); pay = (uint8_t *)(((uintptr_t)base + 96 + 63) & ~(uintptr_t)63) + misalign; }
    else if (m == G_HEAP) { cap = n + misalign; size_t a = align < 16 ? 16 : align; void *v = 0; if (posix_memalign(&v, a, cap ? cap : 1)) abort(); base = (uint8_t *)v; pay = base + misalign; }
    else { size_t pages = (n + 4095) / 4096; if (!pages) pages = 1; cap = pages * 4096; auto &fl = pool()[pages];
      if (!fl.empty()) { base = fl.back(); fl.pop_back(); }
      else { uint8_t *r = (uint8_t *)mmap(0, cap + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (r == MAP_FAILED || mprotect(r + 4096, cap, PROT_READ | PROT_WRITE)) abort(); base = r + 4096; }
      pay = m == G_START ? base : (uint8_t *)((uintptr_t)(base + cap - n) & ~(uintptr_t)(align - 1)); }
    if (cap) memset(base, fillv, cap); if (n) memset(pay, 0x5C, n);
  }
  ~Buf() { if (m == G_NONE || m == G_HEAP) free(base); else pool()[cap / 4096].push_back(base); }
  Buf(const Buf &) = delete; Buf &operator=(const Buf &) = delete;
  uint8_t *p() { return pay; }
  bool intact() const {
    for (const uint8_t *q = base; q < pay; q++) if (*q != fillv) return false;
    for (const uint8_t *q = pay + len; q < base + cap; q++) if (*q != fillv) return false;
    return true;
  }
};
inline void set_guard(const std::map<std::string, std::string> &opt) { auto i = opt.find("guard"); if (i == opt.end()) return; guard_mode() = i->second == "end" ? G_END : i->second == "start" ? G_START : i->second == "heap" ? G_HEAP : G_NONE; }
