// Online monitor of the hash API.
//   hash <sha2|sha3|sha2x2>       streaming histories against FIPS 180-4 / FIPS 202 references
//   hash <sha2long|sha3long|sha2x2long>  messages whose bit length passes 2^32
#include "ref.hpp"
#include <sys/mman.h>
extern "C" {
#include "sha512.h"
#include "sha3.h"
#include "multi_hash.h"
void sha512_2w_avx_256b(uint8_t *message_2x[2], uint8_t *digest_2x[2]) __attribute__((weak));
HashReturn Hash2(int hashbitlen, const BitSequence *data, DataLength databitlen, BitSequence *hashval, int d);
}
Report R;
static Bytes gen_data(size_t n) { Rng &g = R.rng; switch (g.below(5)) { case 0: return Bytes(n, 0); case 1: return Bytes(n, 0xff); default: return g.bytes(n); } }
static size_t gen_len(size_t block) { Rng &g = R.rng; switch (g.below(6)) { case 0: return g.below(3); case 1: case 2: { size_t k = 1 + g.below(6); int64_t v = (int64_t)(k * block) + (int64_t)g.below(41) - 20; return v < 0 ? 0 : (size_t)v; } case 3: return g.below(block * 3); case 4: return g.below(2000); default: if (g.chance(1, 150)) { unsigned k = 14 + g.below(8); return (1ull << k) + g.below(601) - 300; } /* around 2^14 to 2^21 */ return g.chance(1, 20) ? 4096 + g.below(20000) : g.below(600); } }
// piece sizes that hit block boundaries often
static size_t gen_piece(size_t left, size_t block) { Rng &g = R.rng; size_t p; switch (g.below(7)) { case 0: p = 0; break; case 1: p = 1; break; case 2: p = block; break; case 3: p = block - 1 + g.below(3); break; case 4: p = g.below(block); break; case 5: p = left; break; default: p = g.below(block * 4); } return std::min(p, left); }
struct In { Buf b; Bytes v; In(const Bytes &x) : b(x.size(), R.rng.below(33)), v(x) { if (!x.empty()) memcpy(b.p(), x.data(), x.size()); } uint8_t *p() { return b.p(); } bool ok() { return (v.empty() || !memcmp(b.p(), v.data(), v.size())) && b.intact(); } };

// ---- SHA-384 / SHA-512: several contexts advanced in an interleaved history -----------
struct S2 { sph_sha512_context c; bool s384; ref::Sha512 r; Bytes log; size_t want; bool used; S2() : s384(false), r(false), want(0), used(false) {} };
static void run_sha2() { Rng &g = R.rng; uint64_t n = R.n(60000, 2000000); std::vector<S2> cs(6); std::string shape;
  auto restart = [&](S2 &s, bool fresh) { if (fresh) { s.s384 = g.chance(1, 2); if (!g.chance(1, 4)) g.fill(&s.c, sizeof s.c); R.op("init"); if (s.s384) sph_sha384_init(&s.c); else sph_sha512_init(&s.c); } s.r = ref::Sha512(s.s384); s.log.clear(); s.want = gen_len(128); s.used = true; };
  uint64_t done = 0; while (done < n) { S2 &s = cs[g.below(cs.size())]; if (!s.used) restart(s, true);
    if (g.chance(1, 40)) { S2 &o = cs[g.below(cs.size())]; if (&o != &s) { o = s; R.classes["context_copied"]++; } continue; } // a context is a value: a copy continues on its own
    if (s.log.size() < s.want || g.chance(1, 6)) { size_t p = s.log.size() < s.want ? gen_piece(s.want - s.log.size(), 128) : 0; Bytes d = gen_data(p); In in(d); R.op("update"); if (s.s384) sph_sha384(&s.c, in.p(), p); else sph_sha512(&s.c, in.p(), p); if (!in.ok()) R.fail("sha2.update.input", "len=" + std::to_string(p)); s.r.update(d.data(), p); s.log.insert(s.log.end(), d.begin(), d.end()); R.classes["updates"]++; continue; }
    size_t ol = s.s384 ? 48 : 64; Buf o(ol, g.below(33)); uint8_t ub = 0; unsigned nb = 0; R.op("close");
    if (g.chance(1, 3)) { nb = (unsigned)g.below(8); ub = (uint8_t)g.u64(); if (s.s384) sph_sha384_addbits_and_close(&s.c, ub, nb, o.p()); else sph_sha512_addbits_and_close(&s.c, ub, nb, o.p()); } else { if (s.s384) sph_sha384_close(&s.c, o.p()); else sph_sha512_close(&s.c, o.p()); }
    Bytes w(ol); s.r.final(w.data(), ol, ub, nb); std::string nm = s.s384 ? "sha384" : "sha512"; if (!o.intact()) R.fail(nm + ".output_bounds", std::to_string(s.log.size())); if (memcmp(w.data(), o.p(), ol)) R.fail(nm + ".digest", "len=" + std::to_string(s.log.size()) + " extra_bits=" + std::to_string(nb) + " msg=" + hexs(s.log) + " got=" + hexs(o.p(), ol) + " want=" + hexs(w));
    R.eval((nm + (nb ? ".bits" : ".bytes")).c_str(), fnv(o.p(), ol)); if (done < 2) R.sample(nm + " len=" + std::to_string(s.log.size()) + " extra_bits=" + std::to_string(nb) + " digest=" + hexs(w)); done++;
    restart(s, g.chance(1, 2)); /* half of the time rely on close having re-initialised the context */ if (!s.r.len && 0) break; }
  // every length up to 700 in one call and byte at a time
  for (size_t l = R.shard; l < 700; l += R.nshards) for (int mode = 0; mode < 2; mode++) { Bytes d = g.bytes(l); sph_sha512_context c; sph_sha512_init(&c); if (mode == 0) sph_sha512(&c, d.data(), l); else for (size_t i = 0; i < l; i++) sph_sha512(&c, &d[i], 1); uint8_t o[64]; sph_sha512_close(&c, o); Bytes w = ref::raw_sha512(d); if (memcmp(o, w.data(), 64)) R.fail("sha512.digest", "sweep len=" + std::to_string(l) + " bytewise=" + std::to_string(mode)); R.eval("length_sweep", fnv(o, 64)); }
  // the compression function on its own
  for (int i = 0; i < 200; i++) { sph_u64 m[16], v[8], v0[8]; Bytes mb(128); for (int j = 0; j < 16; j++) { m[j] = g.chance(1, 5) ? 0 : g.chance(1, 5) ? ~0ull : g.u64(); for (int b = 0; b < 8; b++) mb[8 * j + b] = (uint8_t)(m[j] >> (56 - 8 * b)); } for (int j = 0; j < 8; j++) v0[j] = v[j] = g.u64(); ref::Sha512 r; memcpy(r.h, v0, 64); r.block(mb.data()); R.op("comp"); sph_sha384_comp(m, v); if (memcmp(v, r.h, 64)) R.fail("sha512.compression", hexs(mb)); R.eval("compression", fnv(v, 64)); } }

// ---- SHA-3 / SHAKE -----------------------------------------------------------------------
struct S3 { hashState st; int bits; bool shake; size_t out; Bytes log; size_t want; bool used; };
static void run_sha3() { Rng &g = R.rng; uint64_t n = R.n(60000, 2000000); std::vector<S3> cs(5); for (auto &s : cs) s.used = false; uint64_t done = 0; const int B[] = {224, 256, 384, 512}, SB[] = {128, 256};
  auto restart = [&](S3 &s) { s.shake = g.chance(1, 2); s.bits = s.shake ? SB[g.below(2)] : B[g.below(4)]; size_t rate = (1600 - 2 * s.bits) / 8; s.out = s.shake ? (g.chance(1, 3) ? gen_len(rate) : g.below(300)) : (size_t)s.bits / 8; s.want = gen_len(rate); s.log.clear(); s.used = true; g.fill(&s.st, sizeof s.st); R.op("Init"); if (Init(&s.st, s.bits) != SUCCESS) R.fail("sha3.init.code", std::to_string(s.bits)); };
  while (done < n) { S3 &s = cs[g.below(cs.size())]; if (!s.used) restart(s); size_t rate = (1600 - 2 * s.bits) / 8;
    if (g.chance(1, 40)) { S3 &o = cs[g.below(cs.size())]; if (&o != &s) { o = s; R.classes["state_copied"]++; } continue; }
    if (s.log.size() < s.want || g.chance(1, 6)) { size_t p = s.log.size() < s.want ? gen_piece(s.want - s.log.size(), rate) : 0; Bytes d = gen_data(p); In in(d); R.op("Update"); if (Update(&s.st, in.p(), (DataLength)p * 8) != SUCCESS) R.fail("sha3.update.code", ""); if (!in.ok()) R.fail("sha3.update.input", ""); s.log.insert(s.log.end(), d.begin(), d.end()); R.classes["updates"]++; continue; }
    Buf o(s.out, g.below(33)); R.op("Final"); HashReturn rc = s.shake ? Final2(&s.st, o.p(), (unsigned)s.out) : Final(&s.st, o.p()); Bytes w = ref::sponge_bytes(rate, s.log.data(), s.log.size(), s.shake ? 0x1F : 0x06, s.out); std::string nm = (s.shake ? "SHAKE" : "SHA3-") + std::to_string(s.bits);
    if (rc != SUCCESS) R.fail(nm + ".code", ""); if (!o.intact()) R.fail(nm + ".output_bounds", "outlen=" + std::to_string(s.out)); if (s.out && memcmp(w.data(), o.p(), s.out)) R.fail(nm + ".stream", "len=" + std::to_string(s.log.size()) + " out=" + std::to_string(s.out) + " msg=" + hexs(s.log) + " got=" + hexs(o.p(), s.out));
    R.eval((nm + ".stream").c_str(), fnv(o.p(), s.out, s.log.size())); if (done < 2) R.sample(nm + " len=" + std::to_string(s.log.size()) + " outlen=" + std::to_string(s.out)); done++;
    // one-shot forms of the same message
    { In in(s.log); Buf q(s.out, g.below(33)); R.op("oneshot"); HashReturn rc2; if (!s.shake) rc2 = Hash(s.bits, in.p(), (DataLength)s.log.size() * 8, q.p()); else if (g.chance(1, 4)) rc2 = Hash2(s.bits, in.p(), (DataLength)s.log.size() * 8, q.p(), (int)s.out); else rc2 = s.bits == 128 ? SHAKE128(in.p(), (DataLength)s.log.size() * 8, q.p(), (unsigned)s.out) : SHAKE256(in.p(), (DataLength)s.log.size() * 8, q.p(), (unsigned)s.out);
      if (rc2 != SUCCESS) R.fail(nm + ".oneshot.code", ""); if (!in.ok()) R.fail(nm + ".oneshot.input", ""); if (!q.intact()) R.fail(nm + ".oneshot.output_bounds", "outlen=" + std::to_string(s.out)); if (s.out && memcmp(w.data(), q.p(), s.out)) R.fail(nm + ".oneshot", "len=" + std::to_string(s.log.size()) + " out=" + std::to_string(s.out) + " msg=" + hexs(s.log) + " got=" + hexs(q.p(), s.out)); R.eval((nm + ".oneshot").c_str(), fnv(q.p(), s.out, s.log.size() + 1)); }
    s.used = false; }
  for (size_t l = R.shard; l < 450; l += R.nshards) for (int b = 0; b < 6; b++) { bool shake = b >= 4; int bits = shake ? SB[b - 4] : B[b]; size_t rate = (1600 - 2 * bits) / 8; Bytes d = g.bytes(l); size_t ol = shake ? l : bits / 8; Bytes o(ol + 1), w = ref::sponge_bytes(rate, d.data(), l, shake ? 0x1F : 6, ol); hashState st; Init(&st, bits); for (size_t i = 0; i < l; i++) Update(&st, &d[i], 8); if (shake) Final2(&st, o.data(), (unsigned)ol); else { Bytes big(300); Final(&st, big.data()); std::copy(big.begin(), big.begin() + ol, o.begin()); } if (ol && memcmp(o.data(), w.data(), ol)) R.fail("sha3.sweep", "bits=" + std::to_string(bits) + " len=" + std::to_string(l)); R.eval("length_sweep", fnv(o.data(), ol, l * 8 + b)); } }

// ---- two-way SHA-512 -----------------------------------------------------------------------
static void run_2w() { Rng &g = R.rng; uint64_t n = R.n(160000, 4000000);
  auto one = [&](size_t l, const char *cls, bool same) { Bytes a = gen_data(l), b = same ? a : gen_data(l); In A(a), B(b); Buf x(64, g.below(33)), y(64, g.below(33)); uint8_t *m[2] = {A.p(), B.p()}, *d[2] = {x.p(), y.p()}; uint8_t *m0[2] = {m[0], m[1]}, *d0[2] = {d[0], d[1]}; R.op("sha512_2w"); sha512_2w_avx(m, l, d); if (!A.ok() || !B.ok() || memcmp(m, m0, sizeof m) || memcmp(d, d0, sizeof d)) R.fail("sha512x2.input", "len=" + std::to_string(l)); if (!x.intact() || !y.intact()) R.fail("sha512x2.output_bounds", "len=" + std::to_string(l)); Bytes wa = ref::raw_sha512(a), wb = ref::raw_sha512(b); if (memcmp(x.p(), wa.data(), 64) || memcmp(y.p(), wb.data(), 64)) R.fail("sha512x2.digest", "len=" + std::to_string(l) + " m0=" + hexs(a) + " m1=" + hexs(b) + " got=" + hexs(x.p(), 64) + "," + hexs(y.p(), 64)); R.eval(cls, fnv(x.p(), 64, fnv(y.p(), 64))); };
  for (size_t l = R.shard; l < 1300; l += R.nshards) { one(l, "length_sweep", false); one(l, "length_sweep", true); }
  for (uint64_t i = 0; i < n; i++) one(gen_len(128), "random", g.chance(1, 10));
  if (sha512_2w_avx_256b) for (uint64_t i = 0; i < n / 8; i++) { Bytes a = gen_data(32), b = gen_data(32); In A(a), B(b); alignas(16) uint8_t o[2][64]; uint8_t *m[2] = {A.p(), B.p()}, *d[2] = {o[0], o[1]}; R.op("sha512_2w_256b"); sha512_2w_avx_256b(m, d); Bytes wa = ref::raw_sha512(a), wb = ref::raw_sha512(b); if (memcmp(o[0], wa.data(), 64) || memcmp(o[1], wb.data(), 64)) R.fail("sha512x2.256b", hexs(a) + " " + hexs(b)); if (!A.ok() || !B.ok()) R.fail("sha512x2.256b.input", ""); R.eval("fixed_32_bytes", fnv(o, 128)); }
  R.sample("lengths 0..1299 swept, then random lengths with two independent messages"); }

// ---- bit lengths beyond 32 bits: a repeating 1 MiB pattern, mapped or streamed ---------------
static void run_long(int what) { Rng &g = R.rng; Bytes chunk = g.bytes(1 << 20); size_t total = ((size_t)1 << 29) + ((size_t)R.shard << 20) + 77 + g.below(900);   // 2^32 bits and a bit
  if (R.shard % 2) total = ((size_t)1 << 32) + 123 + g.below(1000);   // 2^32 bytes and a few
  R.sample("streamed bytes=" + std::to_string(total));
  bool h384 = g.chance(1, 2); size_t ol = h384 ? 48 : 64; auto fin2 = [&](ref::Sha512 &r, sph_sha512_context &c, const char *cls) { uint8_t o[64], w[64]; h384 ? sph_sha384_close(&c, o) : sph_sha512_close(&c, o); r.final(w, ol); if (memcmp(o, w, ol)) R.fail(h384 ? "sha384.long" : "sha512.long", "bytes=" + std::to_string(total)); R.eval(cls, fnv(o, ol)); };
  sph_sha512_context c; h384 ? sph_sha384_init(&c) : sph_sha512_init(&c);
  if (what == 0 && R.shard % 2 == 0) { ref::Sha512 r(h384); size_t left = total; while (left) { size_t p = std::min(left, chunk.size() - g.below(3)); h384 ? sph_sha384(&c, chunk.data(), p) : sph_sha512(&c, chunk.data(), p); r.update(chunk.data(), p); left -= p; R.opcount++; } fin2(r, c, "over_2^32_bits"); }
  else { size_t len = (total + 4095) & ~(size_t)4095; // one buffer for the whole message, pages shared so that the memory cost is 1 MiB
    uint8_t *base = (uint8_t *)mmap(0, len + (1 << 20), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == MAP_FAILED) { R.sample("no address space"); return; }
    FILE *tf = tmpfile(); if (!tf || fwrite(chunk.data(), 1, chunk.size(), tf) != chunk.size() || fflush(tf)) { R.sample("no temporary file"); return; }
    for (size_t o = 0; o < len; o += chunk.size()) if (mmap(base + o, chunk.size(), PROT_READ, MAP_SHARED | MAP_FIXED, fileno(tf), 0) == MAP_FAILED) { R.sample("map failed"); return; }
    if (what == 1) { Bytes w; { uint64_t A[25] = {0}; uint8_t *S = (uint8_t *)A; size_t i = 0, rate = 136; for (; total - i >= rate; i += rate) { for (size_t j = 0; j < rate; j += 8) { uint64_t t; memcpy(&t, base + i + j, 8); A[j / 8] ^= t; } ref::keccakf(A); R.opcount++; } for (size_t j = 0; i + j < total; j++) S[j] ^= base[i + j]; Bytes keep(S, S + 200); auto fin = [&](uint8_t dom) { memcpy(S, keep.data(), 200); S[total - i] ^= dom; S[rate - 1] ^= 0x80; ref::keccakf(A); return Bytes(S, S + 32); };
        Bytes o(32); R.op("oneshot"); SHAKE256(base, (DataLength)total * 8, o.data(), 32); if (o != fin(0x1F)) R.fail("SHAKE256.long", "bytes=" + std::to_string(total)); R.eval("SHAKE256.over_2^32_bits", fnv(o.data(), 32)); R.op("update"); hashState st; Init(&st, 256); size_t cut = g.below(total); Update(&st, base, (DataLength)cut * 8); Update(&st, base + cut, (DataLength)(total - cut) * 8); R.opcount++; Bytes big(200); Final(&st, big.data()); if (Bytes(big.begin(), big.begin() + 32) != fin(6)) R.fail("SHA3-256.long", "bytes=" + std::to_string(total)); R.eval("SHA3-256.over_2^32_bits", fnv(big.data(), 32)); } }
    else if (what == 0) { ref::Sha512 r(h384); for (size_t o = 0; o < total; o += chunk.size(), R.opcount++) r.update(base + o, std::min(chunk.size(), total - o)); R.op("update"); h384 ? sph_sha384(&c, base, total) : sph_sha512(&c, base, total); fin2(r, c, "over_2^32_bytes_in_one_update"); }
    else { ref::Sha512 r; for (size_t o = 0; o < total; o += chunk.size(), R.opcount++) r.update(base + o, std::min(chunk.size(), total - o)); uint8_t w[64], o[2][64]; r.final(w, 64); uint8_t *m[2] = {base, base}, *d[2] = {o[0], o[1]}; R.op("sha512_2w"); sha512_2w_avx(m, total, d); if (memcmp(o[0], w, 64) || memcmp(o[1], w, 64)) R.fail("sha512x2.long", "bytes=" + std::to_string(total)); R.eval("over_2^32_bits", fnv(o, 128)); }
    munmap(base, len + (1 << 20)); fclose(tf); } }

int main(int argc, char **argv) { std::map<std::string, std::string> opt; parse_args(argc, argv, opt); install_handlers(); std::string c = opt["cmd"];
  if (c == "sha2") run_sha2(); else if (c == "sha3") run_sha3(); else if (c == "sha2x2") run_2w(); else if (c == "sha2long") run_long(0); else if (c == "sha3long") run_long(1); else if (c == "sha2x2long") run_long(2); else return 2;
  R.finish(); return 0; }
