// Memory monitor of the field tables: every operation is called with operands in buffers of exactly
// the size and alignment the public types promise, laid out by --guard (page-end, page-start, exact
// heap block).  The result must equal the same call on roomy buffers, inputs and canaries must be
// untouched; the guard page, AddressSanitizer or memcheck sees any access outside.
//   mem <fp25519|fp448>
#include "fpops.hpp"
Report R;

int main(int argc, char **argv) { std::map<std::string, std::string> opt; parse_args(argc, argv, opt); install_handlers(); is448 = opt["cmd"] == "fp448"; if (!is448 && opt["cmd"] != "fp25519") return 2; ND = is448 ? 16 : 10; half_ = ND / 2; build(is448 ? Fp448 : Fp25519);
  uint64_t rounds = R.n(400, 8000); Rng &g = R.rng;
  for (uint64_t it = 0; it < rounds; it++) for (auto &o : ops) { size_t na = o.a.size(); uint8_t *ps[4], *pg[4]; static ALIGN uint8_t roomy[4][1024]; std::vector<Buf *> b; std::vector<Bytes> in(na); uint64_t h = fnv(o.nm.data(), o.nm.size());
      for (size_t k = 0; k < na; k++) { const Arg &a = o.a[k]; memset(roomy[k], 0x33, sizeof roomy[k]); bool by = a.kind == BYTES; b.push_back(new Buf(a.n, by ? g.below(33) : 0, 0xA5, by ? 1 : 32)); pg[k] = b[k]->p(); ps[k] = roomy[k]; in[k].resize(a.n);
        if (a.role != OUT) { gen(a, in[k].data()); memcpy(ps[k], in[k].data(), a.n); memcpy(pg[k], in[k].data(), a.n); h = fnv(in[k].data(), a.n, h); }
        else { memset(ps[k], 0x5C, a.n); if (R.vg) VALGRIND_MAKE_MEM_UNDEFINED(pg[k], a.n); } }
      R.op(o.nm.c_str()); o.f(ps); o.f(pg); bool rnd = o.nm.size() > 5 && o.nm.substr(o.nm.size() - 5) == ".rand"; std::string det; for (auto &x : in) det += hexs(x) + " ";
      for (size_t k = 0; k < na; k++) { const Arg &a = o.a[k]; size_t cmpn = a.n; if (a.role == IN) { if (memcmp(pg[k], in[k].data(), a.n)) R.fail(o.nm + ".input", det); } 
        // digits of a one-lane 2^255-19 element fill ten of its twelve words; the last two are padding
        if (a.lanes == 1 && a.kind != BYTES && a.kind != WORDS && !is448) cmpn = 80; if (a.role == IO && o.nm.find("reduce") != std::string::npos) cmpn = 0;
        if (!rnd && a.role != IN && cmpn && memcmp(pg[k], ps[k], cmpn)) R.fail(o.nm + ".value", "arg " + std::to_string(k) + " depends on memory around the operands: " + det); if (!b[k]->intact()) R.fail(o.nm + ".bounds", det); }
      for (auto *x : b) delete x; R.eval(o.nm.c_str(), h); }
  if (R.vg) R.vgpoll("end"); R.classes["operations"] = ops.size(); R.finish(); return 0; }
