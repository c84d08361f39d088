// C23: 256-bit operations against bit-by-bit definitions.
#include "mon.hpp"
#include "gen.hpp"
#include "sim_ds/bit_util256.hpp"
using namespace mon;
namespace bu = sim_ds::bit_util;
using W = std::array<u64, 4>;

static W val(Rng& r) {
  W w{};
  switch (r.below(8)) {
    case 0: break;
    case 1: w.fill(~0ull); break;
    case 2: w[r.below(4)] = 1ull << r.below(64); break;
    case 3: w.fill(~0ull); w[r.below(4)] ^= 1ull << r.below(64); break;
    case 4: w[r.below(4)] = r.next(); break;
    case 5: for (auto& x : w) x = r.coin() ? 0 : r.value(64); break;
    case 6: { int n = r.below(257); for (int i = 0; i < n; i++) w[i / 64] |= 1ull << i % 64; if (r.coin()) for (auto& x : w) x = ~x; break; }
    default: for (auto& x : w) x = r.next();
  }
  return w;
}
static bool bit(const W& w, int i) { return w[i / 64] >> i % 64 & 1; }
static std::string str(const W& w) { std::string s; for (u64 x : w) s += show(x) + " "; return s; }

// operands in exact-size aligned storage between watched words
struct Arena {
  u64* p;
  u64 seed;
  explicit Arena(Rng& r) : p((u64*)aligned_alloc(32, 32 * 5)), seed(r.next()) { for (int i = 0; i < 20; i++) p[i] = mix(seed + i); }
  ~Arena() { free(p); }
  u64* a() { return p + 4; }
  u64* b() { return p + 12; }
  void watch(const char* key) { for (int i : {0, 1, 2, 3, 8, 9, 10, 11, 16, 17, 18, 19}) EQX(key, p[i], mix(seed + i), "word " + show(i) + " around the operands"); }
};
static void one(Ctx& ctx, const W& w) {
  Arena m(ctx.rng);
  std::string s = str(w);
  memcpy(m.a(), w.data(), 32);
  int pc = 0, ct = 256, cl = 256;
  for (int i = 0; i < 256; i++) if (bit(w, i)) { pc++; if (ct == 256) ct = i; cl = 255 - i; }
  EQX("b256.popcnt", int(bu::popcnt256(m.a())), pc, s);
  EQX("b256.ctz", int(bu::ctz256(m.a())), ct, s);
  EQX("b256.clz", int(bu::clz256(m.a())), cl, s);
  EQX("b256.is_zero", bu::is_zero256(m.a()), pc == 0, s);
  bu::copy256_epi64(m.a(), m.b());
  for (int i = 0; i < 4; i++) EQX("b256.copy", m.b()[i], w[i], s);
  for (int z = 0; z < 2; z++) { bool v = ctx.rng.coin(); bu::set256_epi1(v, m.b()); for (int i = 0; i < 4; i++) EQX("b256.set", m.b()[i], v ? ~0ull : 0, show(v)); }
  bool aligned_only = true;
  (void)aligned_only;
#ifdef __AVX2__
  __m256i x = _mm256_load_si256((const __m256i*)m.a());
  EQX("b256.is_zero_vector", bu::is_zero256_intrinsics(x), pc == 0, s);
#endif
  for (int mask = 0; mask < 256; mask += 1 + (ctx.sanitized ? ctx.rng.below(9) : 0)) {
    W e{};
    if (pc < 8) { for (int i = 0; i < 256; i++) if (bit(w, i)) { int k = i ^ mask; e[k / 64] |= 1ull << k % 64; } }
    else for (int q = 0; q < 4; q++) { u64 v = w[q ^ mask >> 6], o = 0; for (int b = 0; b < 64; b++) o |= (v >> (b ^ (mask & 63)) & 1) << b; e[q] = o; }
    for (int i = 0; i < 4; i++) m.b()[i] = mix(mask * 4 + i);
    bu::xor_map(m.a(), uint8_t(mask), m.b());
    for (int i = 0; i < 4; i++) EQX("b256.xor_map", m.b()[i], e[i], s + "mask " + show(mask) + " word " + show(i));
#ifdef __AVX2__
    alignas(32) u64 o[4];
    _mm256_store_si256((__m256i*)o, bu::xor_map_intrinsics(x, uint8_t(mask)));
    for (int i = 0; i < 4; i++) EQX("b256.xor_map_vector", o[i], e[i], s + "mask " + show(mask) + " word " + show(i));
    ctx.event("b256.vector_maps");
#endif
    if (mask % 3 == int(w[0] % 3) || mask >= 252) {   // in place
      Arena n(ctx.rng);
      memcpy(n.a(), w.data(), 32);
      bu::xor_map(n.a(), uint8_t(mask), n.a());
      for (int i = 0; i < 4; i++) EQX("b256.xor_map_in_place", n.a()[i], e[i], s + "mask " + show(mask) + " word " + show(i));
      for (int i = 0; i < 4; i++) EQX("b256.around_in_place", n.b()[i], mix(n.seed + 12 + i), s);
      if (mask >= 252) { bu::copy256_epi64(n.a(), n.a()); for (int i = 0; i < 4; i++) EQX("b256.copy_in_place", n.a()[i], e[i], s); }
      n.watch("b256.around");
      ctx.event("b256.maps_in_place");
    }
    ctx.event("b256.maps");
  }
  for (int i = 0; i < 4; i++) EQX("b256.source", m.a()[i], w[i], s);
  m.watch("b256.around");
  ctx.event("b256.values");
  for (u64 v : w) ctx.in(v);
}
SCENARIO(b256_values, 400) {
  for (int q = 0; q < 8; q++) one(ctx, val(ctx.rng));
  ctx.nontrivial();
  ctx.describe("8 values under 256 masks each");
}
SCENARIO(b256_single_bits, 32) {
  for (u64 i = ctx.index % 32; i < 256; i += 32) { W w{}; w[i / 64] = 1ull << i % 64; one(ctx, w); for (auto& x : w) x = ~x; one(ctx, w); }
  W z{}; one(ctx, z);
  ctx.in(ctx.index);
  ctx.nontrivial();
}
#include "main.inc"
