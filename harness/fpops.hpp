// Table of every operation of the field structures with the size, role and kind of its operands,
// and a generator of operands inside the documented digit bounds.
#pragma once
#include "common.hpp"
#include "faz_fp_avx2.h"
using namespace faz::fp;
enum Role { IN, OUT, IO };
enum Kind { WORDS, D0, D1, WIDE, BYTES };
struct Arg { size_t n; Role role; Kind kind; int lanes; };
typedef std::function<void(uint8_t **)> Fn;
struct Op { std::string nm; std::vector<Arg> a; Fn f; const void *fp; };
static std::vector<Op> ops; static bool is448; static std::string pre;
static int ND, half_; static int bits(int i) { return is448 ? 28 : (i % 2 ? 25 : 26); }
static int pos(int i) { return i < half_ ? 2 * i : 2 * (i - half_) + 1; }
static int at(int L, int l, int i) { if (L == 1) return pos(i); if (L == 2) return (i < half_ ? 4 * i : 4 * (i - half_) + 1) + 2 * l; return 4 * pos(i) + l; }
static void gen(const Arg &a, uint8_t *p) { Rng &g = R.rng; if (a.kind == WORDS || a.kind == BYTES) { g.fill(p, a.n); if (g.chance(1, 4)) memset(p, g.chance(1, 2) ? 0 : 0xff, a.n); return; }
  memset(p, 0, a.n); uint64_t *w = (uint64_t *)p; for (int l = 0; l < a.lanes; l++) for (int i = 0; i < ND; i++) { uint64_t m = a.kind == WIDE ? (1ull << 58) - 1 : (1ull << bits(i)) - 1; w[at(a.lanes, l, i)] = g.chance(1, 5) ? m : g.u64() & m; } }
static void reg(const std::string &nm, const void *fp, std::vector<Arg> a, Fn f) { if (fp) ops.push_back({pre + "." + nm, a, f, fp}); }
#define U(i) ((uint64_t *)p[i])
#define V(i) ((__m256i *)p[i])

template <class A_> static void arith1(const A_ &A, size_t S, Kind K, size_t NB, bool vec) { Arg i{S, IN, K, 1}, o{S, OUT, K, 1}, io{S, IO, K, 1}; (void)vec;
  reg("add", (void *)A.add, {o, i, i}, [&](uint8_t **p) { A.add(U(0), U(1), U(2)); }); reg("sub", (void *)A.sub, {o, i, i}, [&](uint8_t **p) { A.sub(U(0), U(1), U(2)); }); reg("mul", (void *)A.mul, {o, i, i}, [&](uint8_t **p) { A.mul(U(0), U(1), U(2)); });
  reg("add.alias", (void *)A.add, {io, i}, [&](uint8_t **p) { A.add(U(0), U(0), U(1)); }); reg("sub.alias", (void *)A.sub, {io, i}, [&](uint8_t **p) { A.sub(U(0), U(1), U(0)); }); reg("mul.alias", (void *)A.mul, {io, i}, [&](uint8_t **p) { A.mul(U(0), U(0), U(1)); });
  reg("sqr", (void *)A.sqr, {io}, [&](uint8_t **p) { A.sqr(U(0)); }); reg("neg", (void *)A.neg, {io}, [&](uint8_t **p) { A.neg(U(0)); }); reg("inv", (void *)A.inv, {o, i}, [&](uint8_t **p) { A.inv(U(0), U(1)); }); reg("srt", (void *)A.srt, {io, i}, [&](uint8_t **p) { A.srt(U(0), U(1)); });
  reg("cmp", (void *)A.cmp, {io, io, Arg{4, OUT, BYTES, 1}}, [&](uint8_t **p) { int r = A.cmp(U(0), U(1)) != 0; memcpy(p[2], &r, 4); }); reg("sgn", (void *)A.sgn, {io, Arg{4, OUT, BYTES, 1}}, [&](uint8_t **p) { int r = A.sgn(U(0)); memcpy(p[1], &r, 4); });
  reg("cmv0", (void *)A.cmv, {o, i, i}, [&](uint8_t **p) { A.cmv(0, U(0), U(1), U(2)); }); reg("cmv1", (void *)A.cmv, {o, i, i}, [&](uint8_t **p) { A.cmv(1, U(0), U(1), U(2)); }); reg("prime", (void *)A.prime, {o}, [&](uint8_t **p) { A.prime(U(0)); });
  reg("copy", (void *)A.misc.copy, {o, i}, [&](uint8_t **p) { A.misc.copy(U(0), U(1)); }); reg("zero", (void *)A.misc.zero, {o}, [&](uint8_t **p) { A.misc.zero(U(0)); });
  reg("ser", (void *)A.misc.ser, {Arg{NB, OUT, BYTES, 1}, i}, [&](uint8_t **p) { A.misc.ser(p[0], U(1)); }); reg("unser", (void *)A.misc.unser, {o, Arg{NB, IN, BYTES, 1}}, [&](uint8_t **p) { A.misc.unser(U(0), p[1]); });
  reg("print", (void *)A.misc.print, {i}, [&](uint8_t **p) { static FILE *f = fopen("/dev/null", "w"); A.misc.print(f, U(0)); }); reg("rand", (void *)A.misc.rand, {o}, [&](uint8_t **p) { A.misc.rand(U(0)); }); }
template <class A_> static void arithN(const A_ &A, size_t S, int L, size_t NB) { Arg i{S, IN, D0, L}, o{S, OUT, D0, L}, io{S, IO, D0, L};
  reg("add", (void *)A.add, {o, i, i}, [&](uint8_t **p) { A.add(V(0), V(1), V(2)); }); reg("sub", (void *)A.sub, {o, i, i}, [&](uint8_t **p) { A.sub(V(0), V(1), V(2)); }); reg("mul", (void *)A.mul, {o, i, i}, [&](uint8_t **p) { A.mul(V(0), V(1), V(2)); }); reg("mul.alias", (void *)A.mul, {io, i}, [&](uint8_t **p) { A.mul(V(0), V(0), V(1)); });
  reg("sqr", (void *)A.sqr, {io}, [&](uint8_t **p) { A.sqr(V(0)); }); reg("neg", (void *)A.neg, {io}, [&](uint8_t **p) { A.neg(V(0)); }); reg("ngz", (void *)A.ngz, {io, i}, [&](uint8_t **p) { A.ngz(V(0), V(1)); });
  reg("cmp", (void *)A.cmp, {i, i, Arg{32, OUT, BYTES, 1}}, [&](uint8_t **p) { __m256i r = A.cmp(V(0), V(1)); memcpy(p[2], &r, 32); });
  reg("copy", (void *)A.misc.copy, {o, i}, [&](uint8_t **p) { A.misc.copy(V(0), V(1)); }); reg("zero", (void *)A.misc.zero, {o}, [&](uint8_t **p) { A.misc.zero(V(0)); });
  reg("ser", (void *)A.misc.ser, {Arg{NB * L, OUT, BYTES, 1}, i}, [&](uint8_t **p) { A.misc.ser(p[0], V(1)); }); reg("unser", (void *)A.misc.unser, {o, Arg{NB * L, IN, BYTES, 1}}, [&](uint8_t **p) { A.misc.unser(V(0), p[1]); });
  reg("print", (void *)A.misc.print, {i}, [&](uint8_t **p) { static FILE *f = fopen("/dev/null", "w"); A.misc.print(f, V(0)); }); reg("rand", (void *)A.misc.rand, {o}, [&](uint8_t **p) { A.misc.rand(V(0)); }); }
static void build(const PrimeField &F) { const size_t NF = is448 ? 7 : 4, NB = is448 ? 56 : 32; size_t SF = 8 * NF, S1 = is448 ? sizeof(EltFp448_1w_redradix) : sizeof(EltFp25519_1w_redradix), S2 = is448 ? sizeof(EltFp448_2w_redradix) : sizeof(EltFp25519_2w_redradix), S4 = is448 ? sizeof(EltFp448_4w_redradix) : sizeof(EltFp25519_4w_redradix);
  std::string f = is448 ? "Fp448" : "Fp25519";
  { pre = f + ".full"; arith1(F._1w_full.arith, SF, WORDS, NB, false); const Arith_1w_fullradix &X = F._1w_full.arithex; Arg i{SF, IN, WORDS, 1}, o{SF, OUT, WORDS, 1}, i2{2 * SF, IN, WORDS, 1}, o2{2 * SF, OUT, WORDS, 1}, o4{4 * SF, OUT, WORDS, 1}, io2{2 * SF, IO, WORDS, 1}, io4{4 * SF, IO, WORDS, 1};
    reg("intmul", (void *)X.intmul, {o2, i, i}, [&](uint8_t **p) { X.intmul(U(0), U(1), U(2)); }); reg("intsqr", (void *)X.intsqr, {o2, i}, [&](uint8_t **p) { X.intsqr(U(0), U(1)); }); reg("mula24", (void *)X.mula24, {o, i}, [&](uint8_t **p) { X.mula24(U(0), U(1)); });
    reg("reduce", (void *)X.reduce, {o, io2}, [&](uint8_t **p) { X.reduce(U(0), U(1)); memset(p[1], 0, 16); memset(p[1], 0, 8); });
    reg("intmul2", (void *)X.intmul2, {o4, i2, i2}, [&](uint8_t **p) { X.intmul2(U(0), U(1), U(2)); }); reg("intsqr2", (void *)X.intsqr2, {o4, i2}, [&](uint8_t **p) { X.intsqr2(U(0), U(1)); }); reg("reduce2", (void *)X.reduce2, {o2, io4}, [&](uint8_t **p) { X.reduce2(U(0), U(1)); }); }
  { pre = f + ".1w"; arith1(F._1w_red.arith, S1, D0, NB, true); const Arith_1w_redradix &X = F._1w_red.arithex; Arg i{S1, IN, D0, 1}, o{S1, OUT, D0, 1}, io{S1, IO, D0, 1}, w{S1, IO, WIDE, 1};
    reg("addsub", (void *)X.addsub, {io, io}, [&](uint8_t **p) { X.addsub(U(0), U(1)); }); reg("intmul", (void *)X.intmul, {o, i, i}, [&](uint8_t **p) { X.intmul(U(0), U(1), U(2)); }); reg("compress", (void *)X.compress, {w}, [&](uint8_t **p) { X.compress(U(0)); }); reg("compressfast", (void *)X.compressfast, {w}, [&](uint8_t **p) { X.compressfast(U(0)); }); }
  { pre = f + ".2w"; arithN(F._2w_red.arith, S2, 2, NB); const Arith_2w_redradix &X = F._2w_red.arithex; Arg i{S2, IN, D0, 2}, o{S2, OUT, D0, 2}, io{S2, IO, D0, 2}, w{S2, IO, WIDE, 2}, i1{S1, IN, D0, 1}, o1{S1, OUT, D0, 1};
    reg("addsub", (void *)X.addsub, {io, io}, [&](uint8_t **p) { X.addsub(V(0), V(1)); }); reg("intmul", (void *)X.intmul, {o, i, i}, [&](uint8_t **p) { X.intmul(V(0), V(1), V(2)); }); reg("intsqr", (void *)X.intsqr, {io}, [&](uint8_t **p) { X.intsqr(V(0)); });
    reg("compress", (void *)X.compress, {w}, [&](uint8_t **p) { X.compress(V(0)); }); reg("compressfast", (void *)X.compressfast, {w}, [&](uint8_t **p) { X.compressfast(V(0)); }); reg("compress2", (void *)X.compress2, {w, w}, [&](uint8_t **p) { X.compress2(V(0), V(1)); });
    reg("inter", (void *)X.inter, {o, i1, i1}, [&](uint8_t **p) { X.inter(V(0), U(1), U(2)); }); reg("deinter", (void *)X.deinter, {o1, o1, i}, [&](uint8_t **p) { X.deinter(U(0), U(1), V(2)); });
    const Arith_2w &A = F._2w_red.arith; reg("cmv", (void *)A.cmv, {o, i, i}, [&](uint8_t **p) { A.cmv(_mm256_set_epi64x(0, 1, 0, 0), V(0), V(1), V(2)); }); reg("sgn", (void *)A.sgn, {i, Arg{32, OUT, BYTES, 1}}, [&](uint8_t **p) { __m256i r = A.sgn(V(0)); memcpy(p[1], &r, 32); }); }
  { pre = f + ".4w"; arithN(F._4w_red.arith, S4, 4, NB); const Arith_4w_redradix &X = F._4w_red.arithex; Arg i{S4, IN, D0, 4}, o{S4, OUT, D0, 4}, io{S4, IO, D0, 4}, w{S4, IO, WIDE, 4};
    reg("addsub", (void *)X.addsub, {o, o, i, i}, [&](uint8_t **p) { X.addsub(V(0), V(1), V(2), V(3)); }); reg("addsublar", (void *)X.addsublar, {io, io}, [&](uint8_t **p) { X.addsublar(V(0), V(1)); }); reg("intmul", (void *)X.intmul, {o, i, i}, [&](uint8_t **p) { X.intmul(V(0), V(1), V(2)); }); reg("intsqr", (void *)X.intsqr, {io}, [&](uint8_t **p) { X.intsqr(V(0)); });
    reg("compress", (void *)X.compress, {w}, [&](uint8_t **p) { X.compress(V(0)); }); reg("compressfast", (void *)X.compressfast, {w}, [&](uint8_t **p) { X.compressfast(V(0)); }); reg("compress2", (void *)X.compress2, {w, w}, [&](uint8_t **p) { X.compress2(V(0), V(1)); }); reg("new_compressfast2", (void *)X.new_compressfast2, {w, w}, [&](uint8_t **p) { X.new_compressfast2(V(0), V(1)); });
    const Arith_4w &A = F._4w_red.arith; reg("srt", (void *)A.srt, {io, i}, [&](uint8_t **p) { A.srt(V(0), V(1)); }); } }

