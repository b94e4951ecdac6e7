// Self-test of the reference: prints digests compared by setup against Python hashlib and RFC vectors.
#include "ref.hpp"
Report R;
using namespace ref;
int main() {
  Rng r; r.seed(7);
  for (int n : {0, 1, 3, 111, 112, 113, 127, 128, 129, 135, 136, 137, 200, 239, 240, 300, 1000}) { Bytes m = r.bytes(n); Sha512 s3(true); s3.update(m.data(), n); Bytes o(48); s3.final(o.data(), 48);
    printf("H %s %s %s %s %s %s %s\n", hexs(m).c_str(), hexs(sha512(m)).c_str(), hexs(o).c_str(), hexs(shake256(m, 200)).c_str(), hexs(sponge_bytes(168, m.data(), n, 0x1f, 200)).c_str(), hexs(sponge_bytes(136, m.data(), n, 6, 32)).c_str(), hexs(sponge(72, m.data(), 8ull * n, 2, 2, 64)).c_str()); }
  auto chk = [](bool b, const char *w) { printf("%s %s\n", b ? "ok" : "BAD", w); };
  // RFC 7748 5.2
  chk(hexs(x25519(unhex("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4"), unhex("e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c"))) == "c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552", "x25519-1");
  chk(hexs(x25519(unhex("4b66e9d4d1b4673c5ad22691957d6af5c11b6421e0ea01d42ca4169e7918ba0d"), unhex("e5210f12786811d3f4b7959d0538ae2c31dbe7106fc03c3efc4cd549c715a493"))) == "95cbde9476e8907d7aade45cb4b873f88b595a68799fa152e6f8f7647aac7957", "x25519-2");
  chk(hexs(x448(unhex("3d262fddf9ec8e88495266fea19a34d28882acef045104d0d1aae121700a779c984c24f8cdd78fbff44943eba368f54b29259a4f1c600ad3"), unhex("06fce640fa3487bfda5f6cf2d5263f8aad88334cbd07437f020f08f9814dc031ddbdc38c19c6da2583fa5429db94ada18aa7a7fb4ef8a086"))) == "ce3e4ff95a60dc6697da1db1d85e6afbdf79b50a2412d7546d5f239fe14fbaadeb445fc66a01b0779d98223961111e21766282f73dd96b6f", "x448-1");
  Mode e{false, false, 0};
  Bytes sk = unhex("c5aa8df43f9f837bedb7442f31dcb7b166d38535076f094b85ce3a2e0b4458f7"), pk = keygen(e, sk);
  chk(hexs(pk) == "fc51cd8e6218a1a38da47ed00230f0580816ed13ba3303ac5deb911548908025", "ed25519-pk");
  chk(hexs(sign(e, unhex("af82"), {}, pk, sk)) == "6291d657deec24024827e69c3abe01a30ce548a284743a445e3680d7db5ac3ac18ff9b538d16f290ae67f760984dc6594a7c15e9716ed28dc027beceea1ec40a", "ed25519-sig");
  Mode f{true, true, 0};
  sk = unhex("c4eab05d357007c632f3dbb48489924d552b08fe0c353a0d4a1f00acda2c463afbea67c5e8d2877c5e3bc397a659949ef8021e954e0a12274e"); pk = keygen(f, sk);
  chk(hexs(pk) == "43ba28f430cdff456ae531545f7ecd0ac834a55d9358c0372bfa0c6c6798c0866aea01eb00742802b8438ea4cb82169c235160627b4c3a9480", "ed448-pk");
  Bytes s = sign(f, unhex("03"), {}, pk, sk);
  chk(hexs(s) == "26b8f91727bd62897af15e41eb43c377efb9c610d48f2335cb0bd0087810f4352541b143c4b981b7e18f62de8ccdf633fc1bf037ab7cd779805e0dbcc0aae1cbcee1afb2e027df36bc04dcecbf154336c19f0af7e0a6472905e799f1953d2a0ff3348ab21aa4adafd1d234441cf807c03a00", "ed448-sig");
  chk(verify(f, unhex("03"), {}, pk, s) == ACCEPT, "ed448-verify");
  for (const Curve *c : {&E25519(), &E448()}) { chk(c->onCurve(c->Bx, c->By), "B on curve"); chk(c->eq(c->mul(c->L, c->aff(c->Bx, c->By)), c->id()), "L*B=0"); }
  return 0;
}
