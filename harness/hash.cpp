// C12: width-bounded hashes are bijections with the stated inverse.
#include "mon.hpp"
#include "gen.hpp"
#include "sim_ds/BijectiveHash.hpp"
using namespace mon;
using namespace sim_ds;

static const char* kNames[] = {"xorshift0", "xorshift1", "xorshift2", "multiply0", "multiply1", "multiply2", "splitmix"};
struct Hashes {
  Xorshift x; MultiplyHash m; SplitMixHash s;
  explicit Hashes(unsigned w) : x(w), m(w), s(w) {}
  u64 h(int f, u64 k) const {
    switch (f) {
      case 0: return x.hash<0>(k); case 1: return x.hash<1>(k); case 2: return x.hash<2>(k);
      case 3: return m.hash<0>(k); case 4: return m.hash<1>(k); case 5: return m.hash<2>(k);
      default: return s.hash(k);
    }
  }
  u64 i(int f, u64 k) const {
    switch (f) {
      case 0: return x.ihash<0>(k); case 1: return x.ihash<1>(k); case 2: return x.ihash<2>(k);
      case 3: return m.ihash<0>(k); case 4: return m.ihash<1>(k); case 5: return m.ihash<2>(k);
      default: return s.ihash(k);
    }
  }
};

static void pair(Ctx& ctx, const Hashes& H, int f, unsigned w, u64 k) {
  u64 m = low_mask(w);
  auto at = [&] { return std::string(kNames[f]) + " width " + show(w) + " key " + show(k); };
  u64 v = H.h(f, k);
  if (v & ~m) fail("hash.range", at() + " hashes to " + show(v));
  u64 b = H.i(f, v);
  if (b != k) fail("hash.inverse", at() + " hashes to " + show(v) + " whose inverse is " + show(b));
  u64 u = H.i(f, k);
  if (u & ~m) fail("hash.inverse_range", at() + " has inverse " + show(u));
  u64 z = H.h(f, u);
  if (z != k) fail("hash.onto", at() + " has inverse " + show(u) + " which hashes to " + show(z));
  ctx.event("hash.pairs");
}

// every width in every run
SCENARIO(hash_all_widths, 60) {
  Rng& r = ctx.rng;
  for (unsigned w = 0; w <= 64; w++) {
    Hashes H(w);
    for (int f = 0; f < 7; f++) {
      for (unsigned b = 0; b < w; b++) { pair(ctx, H, f, w, 1ull << b); pair(ctx, H, f, w, low_mask(w) >> b); pair(ctx, H, f, w, low_mask(w) ^ (1ull << b)); }
      pair(ctx, H, f, w, 0);
      for (int q = 0; q < 60; q++) { u64 k = r.value(w); ctx.in(k); pair(ctx, H, f, w, k); }
    }
  }
  ctx.nontrivial();
  ctx.describe("all widths 0..64, 7 functions, edge and random keys");
}
// narrow widths completely: bijection by marking
SCENARIO(hash_exhaustive, 18) {
  unsigned w = ctx.index % 18;
  ctx.in(w);
  if (w > 14 && ctx.sanitized) w -= 4;
  Hashes H(w);
  for (int f = 0; f < 7; f++) {
    std::vector<bool> seen(1ull << w);
    for (u64 k = 0; k < (1ull << w); k++) {
      pair(ctx, H, f, w, k);
      u64 v = H.h(f, k);
      if (seen[v]) fail("hash.collision", std::string(kNames[f]) + " width " + show(w) + " maps two keys to " + show(v));
      seen[v] = true;
    }
    ctx.event("hash.exhausted_functions");
  }
  ctx.nontrivial();
  ctx.describe("all keys of width " + show(w));
}
SCENARIO(hash_random, 200) {
  unsigned w = ctx.rng.below(65);
  ctx.in(w);
  Hashes H(w), H2(H);
  Hashes D(7); D = H;
  for (int q = 0; q < 4000; q++) {
    u64 k = ctx.rng.value(w);
    int f = ctx.rng.below(7);
    pair(ctx, H, f, w, k);
    EQ("hash.stable", H2.h(f, k), H.h(f, k));
    EQ("hash.stable", D.i(f, k), H.i(f, k));
  }
  if (w == 64) { Xorshift x; MultiplyHash m; SplitMixHash s; u64 k = ctx.rng.next(); EQ("hash.default", x.hash<0>(k), H.h(0, k)); EQ("hash.default", m.hash<0>(k), H.h(3, k)); EQ("hash.default", s.hash(k), H.h(6, k)); }
  ctx.nontrivial();
  ctx.describe("4000 keys of width " + show(w));
}
#include "main.inc"
