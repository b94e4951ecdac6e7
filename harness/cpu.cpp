// Processor report monitor.  The capability code is compiled to assembly and its `cpuid` instructions are
// replaced by calls to verif_cpuid, so it runs on processors that this driver invents.
//   cpu report
#include "common.hpp"
#include <sys/syscall.h>
#include <regex>
Report R;
extern "C" { void machine_info(void); void example_machine_info(void); int verif_has(int) __attribute__((weak)); void verif_cpuid(void);
struct Regs { uint32_t a, b, c, d; };
void verif_cpuid_c(Regs *r); }
// eax, ebx, ecx and edx change as they do for the instruction; everything else is preserved
__asm__(".text\n.globl verif_cpuid\n.type verif_cpuid,@function\nverif_cpuid:\n"
        "pushq %rbp\nmovq %rsp,%rbp\npushfq\npushq %rsi\npushq %rdi\npushq %r8\npushq %r9\npushq %r10\npushq %r11\n"
        "subq $1056,%rsp\nandq $-64,%rsp\n"
        "movl %eax,512(%rsp)\nmovl %ebx,516(%rsp)\nmovl %ecx,520(%rsp)\nmovl %edx,524(%rsp)\n"
        "fxsave64 (%rsp)\nleaq 512(%rsp),%rdi\ncall verif_cpuid_c\nfxrstor64 (%rsp)\n"
        "movl 512(%rsp),%eax\nmovl 516(%rsp),%ebx\nmovl 520(%rsp),%ecx\nmovl 524(%rsp),%edx\n"
        "leaq -56(%rbp),%rsp\npopq %r11\npopq %r10\npopq %r9\npopq %r8\npopq %rdi\npopq %rsi\npopfq\npopq %rbp\nret\n.size verif_cpuid,.-verif_cpuid\n");
// name, leaf 1 edx / leaf 1 ecx / leaf 7 ebx, bit (Intel SDM volume 2A, CPUID)
static const struct { const char *name; int reg, bit; } F[12] = {{"CMOV", 0, 15}, {"SSE", 0, 25}, {"SSE2", 0, 26}, {"SSE3", 1, 0}, {"SSSE3", 1, 9}, {"SSE4_1", 1, 19}, {"SSE4_2", 1, 20}, {"AVX", 1, 28}, {"AVX2", 2, 5}, {"BMI", 2, 3}, {"BMI2", 2, 8}, {"ADX", 2, 19}};
struct Cpu { uint32_t maxleaf; bool intel; Regs leaf[0x21]; Regs sub7, ext0, ext1; };
static Cpu cpu; static uint64_t queries, leaf7beyond;
extern "C" void verif_cpuid_c(Regs *r) { queries++; uint32_t l = r->a;
  if (l >= 0x80000000u) { *r = l == 0x80000000u ? cpu.ext0 : cpu.ext1; return; }
  if (l > cpu.maxleaf) { leaf7beyond += l == 7; if (!cpu.intel) { *r = Regs{0, 0, 0, 0}; return; } l = cpu.maxleaf; }   // Intel: the highest basic leaf's data
  if (l == 7 && r->c != 0) { *r = cpu.sub7; return; }
  *r = cpu.leaf[l]; }
static bool has(int i) { if (F[i].reg == 2 && cpu.maxleaf < 7) return false; const Regs &l = cpu.leaf[F[i].reg == 2 ? 7 : 1]; uint32_t v = F[i].reg == 0 ? l.d : F[i].reg == 1 ? l.c : l.b; return v >> F[i].bit & 1; }
static void put(int i, bool on) { Regs &l = cpu.leaf[F[i].reg == 2 ? 7 : 1]; uint32_t &v = F[i].reg == 0 ? l.d : F[i].reg == 1 ? l.c : l.b; v = on ? v | 1u << F[i].bit : v & ~(1u << F[i].bit); }
static int memfd, saved1;
static std::string capture(void (*f)(void)) { fflush(stdout); if (ftruncate(memfd, 0)) abort(); lseek(memfd, 0, SEEK_SET); dup2(memfd, 1); f(); fflush(stdout); dup2(saved1, 1); off_t n = lseek(memfd, 0, SEEK_END); std::string s(n, 0); if (n && pread(memfd, &s[0], n, 0) != n) abort(); return s; }
// what the report says about a feature: 1 yes, 0 no, -1 nothing readable
static int said(const std::string &txt, const std::string &name) { size_t p = 0; while (p < txt.size()) { size_t e = txt.find('\n', p); if (e == std::string::npos) e = txt.size(); std::string l = txt.substr(p, e - p); p = e + 1; size_t q = l.find_first_not_of(" \t"); if (q == std::string::npos) continue; l = l.substr(q); if (l.rfind("bit_", 0) == 0) l = l.substr(4); if (l.rfind(name, 0)) continue; char c = l.size() > name.size() ? l[name.size()] : 0; if (c != ' ' && c != ':' && c != '\t') continue; bool y = l.find("Yes") != std::string::npos, n = l.find("No", name.size()) != std::string::npos; return y == n ? -1 : y; } return -1; }
static int verdict(const std::string &txt) { size_t p = txt.find("supports"); if (p == std::string::npos) return -1; size_t e = txt.find('\n', p); std::string l = txt.substr(p, e == std::string::npos ? e : e - p); bool y = l.find("Yes") != std::string::npos, n = l.find("No") != std::string::npos; return y == n ? -1 : y; }
static std::string desc() { char b[200]; snprintf(b, sizeof b, "maxleaf=%x %s leaf1.ecx=%08x leaf1.edx=%08x leaf7.ebx=%08x missing:", cpu.maxleaf, cpu.intel ? "intel" : "amd", cpu.leaf[1].c, cpu.leaf[1].d, cpu.leaf[7].b); std::string s = b; for (int i = 0; i < 12; i++) if (!has(i)) s += std::string(" ") + F[i].name; return s; }
// violations are named by the kind of processor and by the answer given, so that one kind cannot hide another
static std::string cls_key(int answer) { int m = 0; for (int i = 0; i < 11; i++) m += !has(i); bool all = m == 1 && has(11);
  return std::string(cpu.maxleaf < 7 ? cpu.intel ? ".no_leaf7_highest_leaf_returned" : ".no_leaf7_zeros_returned" : all ? ".one_required_feature_missing" : "") + (answer < 0 ? ".unreadable" : answer ? ".Yes" : ".No"); }
static void judge(const char *cls) { bool needed = true; int missing = 0; for (int i = 0; i < 12; i++) if (!has(i)) { missing++; if (i != 11) needed = false; }
  uint64_t h = fnv(&cpu, sizeof cpu);
  for (int v = 0; v < 2; v++) { const char *nm = v ? "example" : "library"; R.op(v ? "example.machine_info" : "machine_info"); uint64_t q0 = queries; std::string t = capture(v ? example_machine_info : machine_info); if (queries == q0) R.classes[std::string(nm) + "_report_made_no_cpuid_query"]++;
    for (int i = 0; i < 12; i++) { int s = said(t, F[i].name); if (s != (int)has(i)) R.fail(std::string(nm) + ".report." + F[i].name + cls_key(s), desc() + (s < 0 ? " report has no such line: " : " report says the opposite: ") + R.esc(t)); }
    int s = verdict(t); if (s != (int)needed) R.fail(std::string(nm) + ".report.verdict" + cls_key(s), desc() + " verdict " + (s < 0 ? "missing" : s ? "Yes" : "No"));
    R.eval(cls, h + v); }
  if (verif_has) { R.op("cpu_has"); for (int i = 0; i < 12; i++) { int s = verif_has(i); if ((s != 0) != has(i)) R.fail(std::string("cpu_has.") + F[i].name, desc() + " returned " + std::to_string(s)); R.eval("query", h * 13 + i); } }
  R.classes["processors_missing_" + std::to_string(missing)]++; if (needed) R.classes["processors_supported"]++; }
static void rnd(Rng &g) { g.fill(&cpu, sizeof cpu); cpu.intel = g.chance(1, 2); cpu.maxleaf = g.chance(1, 6) ? 1 + g.below(6) : 7 + g.below(0x1a);
  for (auto &l : cpu.leaf) if (g.chance(1, 4)) { uint32_t v = g.chance(1, 2) ? 0 : ~0u; l = Regs{v, v, v, v}; }
  cpu.leaf[0].a = cpu.maxleaf; memcpy(&cpu.leaf[0].b, cpu.intel ? "Genu" : "Auth", 4); memcpy(&cpu.leaf[0].d, cpu.intel ? "ineI" : "enti", 4); memcpy(&cpu.leaf[0].c, cpu.intel ? "ntel" : "cAMD", 4);
  cpu.leaf[1].c |= 1u << 27 | 1u << 26; cpu.leaf[7].a &= 3; cpu.ext0.a = 0x80000008; }   // the operating system has enabled the vector state
int main(int argc, char **argv) { std::map<std::string, std::string> opt; parse_args(argc, argv, opt); install_handlers(); if (opt["cmd"] != "report") return 2; Rng &g = R.rng;
  memfd = syscall(SYS_memfd_create, "report", 0); saved1 = dup(1); if (memfd < 0 || saved1 < 0) return 2;
  rnd(g); { uint64_t q0 = queries; capture(machine_info); if (queries == q0) { puts("the capability code no longer executes cpuid where this monitor can answer it"); return 3; } }
  for (int keep = 0; keep < 4; keep++) for (int m = 0; m < 4096; m++) { if (m % R.nshards != R.shard) continue;   // every combination of the twelve features
      rnd(g); if (keep == 1) for (auto &l : cpu.leaf) l = Regs{l.a, ~0u, ~0u, ~0u}; if (keep == 2) for (auto &l : cpu.leaf) l = Regs{l.a, 0, 0, 0}; cpu.maxleaf = 7 + g.below(0x1a); cpu.leaf[0].a = cpu.maxleaf; cpu.leaf[1].c |= 1u << 27 | 1u << 26; for (int i = 0; i < 12; i++) put(i, m >> i & 1); judge("every_combination"); }
  uint64_t n = R.n(20000, 400000); for (uint64_t i = 0; i < n; i++) { rnd(g); if (g.chance(1, 2)) { for (int k = 0; k < 12; k++) put(k, true); for (int k = g.below(3); k > 0; k--) put(g.below(12), false); } judge(cpu.maxleaf < 7 ? "no_extended_leaf" : "random_processor"); }
  R.classes["cpuid_executions_answered"] = queries; R.classes["leaf7_asked_beyond_maximum"] = leaf7beyond; R.sample(desc()); R.finish(); return 0; }
