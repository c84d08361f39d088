// C24: results recorded per case; every build must record the same ones.
#if PART == 1
#define ZOO_GROUPS 1
#elif PART == 2
#define ZOO_GROUPS 2
#elif PART == 3
#define ZOO_GROUPS 12
#else
#define ZOO_GROUPS 16
#endif
#include "zoo.hpp"
#include "sim_ds/bit_util256.hpp"
#include "sim_ds/sort.hpp"
using namespace zoo;

static u64 digest(const V& v) { u64 h = v.size(); for (u64 x : v) h = gen::digest(h, x); return h; }
static void record(Ctx& ctx, const Animal& a, const char* when) {
  V v = a.answers();
  ctx.record(std::string(a.name()) + "/answers" + when, digest(v));
  if (a.io()) { std::string b = a.bytes(); ctx.record(std::string(a.name()) + "/bytes" + when, hs(b)); ctx.event("x.bytes", b.size()); }
  ctx.event("x.answers", v.size());
}
static void zoo_case(Ctx& ctx, size_t max) {
  Rng& r = ctx.rng;
  auto& s = species()[ctx.index % species().size()];
  auto a = s.make(r.next(), max);
  record(ctx, *a, "");
  if (a->changes()) { a->change(r.next()); record(ctx, *a, " after changes"); }
  ctx.in(s.name); ctx.in(r.next());
  ctx.event("x.objects");
  ctx.nontrivial();
  ctx.describe(s.name);
}
SCENARIO(x_objects, 1000) { zoo_case(ctx, ctx.rng.pick<size_t>({200, 600, 2000, 2000, 8000})); }
SCENARIO(x_large_objects, 20) { zoo_case(ctx, 100000); }

#if PART == 1
SCENARIO(x_words, 60) {
  Rng& r = ctx.rng;
  namespace bu = sim_ds::bit_util;
  for (int q = 0; q < 100; q++) {
    u64 x = r.value(64), y = r.next();
    u64 a = bu::popcnt64(x), b = bu::popcnt32(x), c = bu::popcnt16(x), d = bu::popcnt8(x);
    ctx.record("popcnt", a << 24 | b << 16 | c << 8 | d);
    size_t len = y % 65, st = y >> 8 & 63;
    ctx.record("cnt", bu::cnt<uint64_t>(x, len));
    ctx.record("popcnt11", bu::popcnt11(x)); ctx.record("popcnt10", bu::popcnt10(x));
    ctx.record("popcnt111", bu::popcnt111(x)); ctx.record("popcnt110", bu::popcnt110(x)); ctx.record("popcnt101", bu::popcnt101(x)); ctx.record("popcnt100", bu::popcnt100(x));
    ctx.record("ctz", bu::ctz(uint64_t(x))); ctx.record("ctz", bu::ctz(uint32_t(x))); ctx.record("clz", bu::clz(uint64_t(x))); ctx.record("clz", bu::clz(uint32_t(x)));
    ctx.record("bextr", bu::bextr(x, st, len));
    for (u64 k = 1; k <= a; k++) ctx.record("sel", bu::sel(x, k));
    ctx.record("swap_pi1", bu::swap_pi1(x)); ctx.record("swap_pi2", bu::swap_pi2(x)); ctx.record("swap_pi4", bu::swap_pi4(x)); ctx.record("swap_pi8", bu::swap_pi8(x)); ctx.record("swap_pi16", bu::swap_pi16(x)); ctx.record("swap_pi32", bu::swap_pi32(x));
    ctx.in(x);
    alignas(32) u64 w[4], o[4];
    for (auto& z : w) z = r.coin() ? r.value(64) : r.coin() ? 0 : r.next();
    ctx.record("256", bu::popcnt256(w)); ctx.record("256", bu::ctz256(w)); ctx.record("256", bu::clz256(w)); ctx.record("256", bu::is_zero256(w));
    bu::xor_map(w, y >> 20, o); for (u64 z : o) ctx.record("xor_map", z);
    bu::copy256_epi64(w, o); for (u64 z : o) ctx.record("copy256", z);
    bu::set256_epi1(y & 1, o); for (u64 z : o) ctx.record("set256", z);
    ctx.event("x.words");
  }
  for (unsigned i = 0; i <= 64; i++) ctx.record("masks", bu::WidthMask(i));
  ctx.nontrivial();
}
SCENARIO(x_sorts, 60) {
  Rng& r = ctx.rng;
  V v(r.below(2000)); for (auto& x : v) x = r.value(r.range(1, 64));
  sim_ds::HeapSort(v.begin(), v.end()); ctx.record("HeapSort", digest(v));
  ctx.in(digest(v));
  ctx.nontrivial();
}
#endif
#if PART == 3
SCENARIO(x_hashes, 130) {
  Rng& r = ctx.rng;
  unsigned w = ctx.index % 65;
  SplitMixHash s(w);
  for (int q = 0; q < 200; q++) { u64 x = r.value(w); ctx.record("hash", s.hash(x)); ctx.record("ihash", s.ihash(x)); ctx.in(x); }
  ctx.event("x.hashes", 200);
  ctx.nontrivial();
}
#endif
#include "main.inc"
