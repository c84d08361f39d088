// C22: word-level bit operations against bit-by-bit definitions.
#include "mon.hpp"
#include "gen.hpp"
#include "sim_ds/bit_util.hpp"
using namespace mon;
namespace bu = sim_ds::bit_util;

static int bit(u64 x, int i) { return x >> i & 1; }
static u64 ref_cnt(u64 x, int lo, int hi) { u64 c = 0; for (int i = lo; i < hi; i++) c += bit(x, i); return c; }
static int ref_ctz(u64 x, int w) { for (int i = 0; i < w; i++) if (bit(x, i)) return i; return w; }
static int ref_clz(u64 x, int w) { for (int i = w - 1; i >= 0; i--) if (bit(x, i)) return w - 1 - i; return w; }
// number of k-bit groups, from the low end, equal to sym (a trailing partial group is no group)
static u64 ref_sym(u64 x, int k, u64 sym) { u64 c = 0; for (int i = 0; i + k <= 64; i += k) { u64 s = 0; for (int j = 0; j < k; j++) s |= u64(bit(x, i + j)) << j; c += s == sym; } return c; }
static u64 ref_swap(u64 x, int w) { u64 o = 0; for (int i = 0; i < 64; i++) if (bit(x, i)) o |= 1ull << (i ^ w); return o; }
static u64 ref_extract(u64 x, unsigned s, unsigned l) { u64 o = 0; for (unsigned i = 0; i < l && s + i < 64; i++) if (bit(x, s + i)) o |= 1ull << i; return o; }

static u64 word(Rng& r) {
  switch (r.below(12)) {
    case 0: return 0;
    case 1: return ~0ull;
    case 2: return 1ull << r.below(64);
    case 3: return ~(1ull << r.below(64));
    case 4: return (1ull << r.below(64)) | (1ull << r.below(64));
    case 5: return low_mask(r.below(65));
    case 6: return ~low_mask(r.below(65));
    case 7: { u64 b = r.below(256), o = 0; for (int i = 0; i < 8; i++) o = o << 8 | b; return o; }
    case 8: return r.next() & r.next() & r.next();
    case 9: return r.next() | r.next() | r.next();
    case 10: { u64 o = 0; int u = r.pick<int>({1, 2, 3, 4, 6, 8, 16, 32}); u64 p = r.next() & low_mask(u); for (int i = 0; i < 64; i += u) o |= (r.below(8) ? p : r.next() & low_mask(u)) << i; return o; }
    default: return r.next();
  }
}
static void check64(Ctx& ctx, u64 x) {
  std::string w = "word " + show(x);
  EQX("bu.popcnt64", u64(bu::popcnt64(x)), ref_cnt(x, 0, 64), w);
  EQX("bu.popcnt", u64(bu::popcnt<uint64_t>(x)), ref_cnt(x, 0, 64), w);
  EQX("bu.popcnt<4>", u64(bu::popcnt<uint32_t>(uint32_t(x))), ref_cnt(x, 0, 32), w);
  EQX("bu.popcnt<2>", u64(bu::popcnt<uint16_t>(uint16_t(x))), ref_cnt(x, 0, 16), w);
  EQX("bu.popcnt<1>", u64(bu::popcnt<uint8_t>(uint8_t(x))), ref_cnt(x, 0, 8), w);
  EQX("bu.popcnt32", u64(bu::popcnt32(uint32_t(x))), ref_cnt(x, 0, 32), w);
  for (int l = 0; l <= 64; l++) EQX("bu.cnt", u64(bu::cnt<uint64_t>(x, l)), ref_cnt(x, 0, l), w + " prefix " + show(l));
  for (int l = 0; l <= 32; l += 5) EQX("bu.cnt<4>", u64(bu::cnt<uint32_t>(uint32_t(x), l)), ref_cnt(x, 0, l), w + " prefix " + show(l));
  EQX("bu.popcnt11", u64(bu::popcnt11(x)), ref_sym(x, 2, 3), w);
  EQX("bu.popcnt10", u64(bu::popcnt10(x)), ref_sym(x, 2, 2), w);
  EQX("bu.popcnt111", u64(bu::popcnt111(x)), ref_sym(x, 3, 7), w);
  EQX("bu.popcnt110", u64(bu::popcnt110(x)), ref_sym(x, 3, 6), w);
  EQX("bu.popcnt101", u64(bu::popcnt101(x)), ref_sym(x, 3, 5), w);
  EQX("bu.popcnt100", u64(bu::popcnt100(x)), ref_sym(x, 3, 4), w);
  EQX("bu.ctz64", bu::ctz(uint64_t(x)), ref_ctz(x, 64), w);
  EQX("bu.clz64", bu::clz(uint64_t(x)), ref_clz(x, 64), w);
  EQX("bu.ctz32", bu::ctz(uint32_t(x)), ref_ctz(uint32_t(x), 32), w);
  EQX("bu.clz32", bu::clz(uint32_t(x)), ref_clz(uint32_t(x), 32), w);
  u64 k = 0;
  for (int i = 0; i < 64; i++) if (bit(x, i)) { k++; EQX("bu.sel", bu::sel(x, k), i + 1, w + " one number " + show(k)); }
  EQX("bu.swap_pi1", bu::swap_pi1(x), ref_swap(x, 1), w);
  EQX("bu.swap_pi2", bu::swap_pi2(x), ref_swap(x, 2), w);
  EQX("bu.swap_pi4", bu::swap_pi4(x), ref_swap(x, 4), w);
  EQX("bu.swap_pi8", bu::swap_pi8(x), ref_swap(x, 8), w);
  EQX("bu.swap_pi16", bu::swap_pi16(x), ref_swap(x, 16), w);
  EQX("bu.swap_pi32", bu::swap_pi32(x), ref_swap(x, 32), w);
  ctx.event("bu.words");
  ctx.event("bu.selects", k);
}
SCENARIO(bu_words, 300) {
  Rng& r = ctx.rng;
  for (int q = 0; q < 40; q++) {
    u64 x = word(r);
    ctx.in(x);
    check64(ctx, x);
    for (int z = 0; z < 60; z++) { unsigned s = r.below(64), l = r.below(65); if (r.below(4) == 0) l = 64 - s; EQX("bu.bextr", bu::bextr(x, s, l), ref_extract(x, s, l), "word " + show(x) + " from " + show(s) + " length " + show(l)); ctx.event("bu.extracts"); }
    double d = double(r.next() >> 12);   // floating-point work between the calls keeps its meaning
    volatile long double e = d; e = e * 3 + 1;
    OK("bu.fpu", e == (long double)d * 3 + 1 && e == e, "floating-point state disturbed");
  }
  ctx.nontrivial();
  ctx.describe("40 words, the last " + show(ctx.sig));
}
// all words with one or two bits set or cleared, all runs of ones, all extractions from a few words
SCENARIO(bu_structured, 70) {
  u64 i = ctx.index;
  if (i < 64) for (int j = i; j < 64; j++) { u64 x = (1ull << i) | (1ull << j); check64(ctx, x); check64(ctx, ~x); check64(ctx, low_mask(j + 1) & ~low_mask(i)); }
  else for (int q = 0; q < 3; q++) { u64 x = word(ctx.rng); for (unsigned s = 0; s < 64; s++) for (unsigned l = 0; l <= 64; l++) EQX("bu.bextr", bu::bextr(x, s, l), ref_extract(x, s, l), "word " + show(x) + " from " + show(s) + " length " + show(l)); ctx.event("bu.extracts", 64 * 65); ctx.in(x); }
  ctx.in(i);
  ctx.nontrivial();
}
// every 16-bit word in every 16-bit lane
SCENARIO(bu_lanes, 64) {
  u64 lo = (ctx.index % 64) * 1024;
  for (u64 v = lo; v < lo + 1024; v++) {
    EQX("bu.popcnt16", u64(bu::popcnt16(uint16_t(v))), ref_cnt(v, 0, 16), show(v));
    EQX("bu.popcnt8", u64(bu::popcnt8(uint8_t(v))), ref_cnt(v, 0, 8), show(v));
    for (int lane = 0; lane < 4; lane++) {
      u64 x = v << (16 * lane);
      if (v < 256 || (v & 0xff) == 0 || lane == int(v % 4)) { u64 k = 0; for (int i = 0; i < 64; i++) if (bit(x, i)) { k++; EQX("bu.sel", bu::sel(x, k), i + 1, show(x) + " one number " + show(k)); } ctx.event("bu.selects", k); }
      EQX("bu.popcnt64", u64(bu::popcnt64(x)), ref_cnt(x, 0, 64), show(x));
      EQX("bu.ctz64", bu::ctz(uint64_t(x)), ref_ctz(x, 64), show(x));
      EQX("bu.clz64", bu::clz(uint64_t(x)), ref_clz(x, 64), show(x));
      if (lane < 2) { EQX("bu.ctz32", bu::ctz(uint32_t(x)), ref_ctz(x, 32), show(x)); EQX("bu.clz32", bu::clz(uint32_t(x)), ref_clz(x, 32), show(x)); }
    }
  }
  ctx.event("bu.lane_words", 1024);
  ctx.in(lo);
  ctx.nontrivial();
}
// symbol counts: every symbol in every group over backgrounds of every other symbol
SCENARIO(bu_symbols, 4) {
  for (int k : {2, 3}) for (u64 bg = 0; bg < (1u << k); bg++) for (u64 s = 0; s < (1u << k); s++) {
    u64 base = ctx.index ? (ctx.rng.next() & (k == 3 ? 0x8000000000000000ull : 0)) : 0;
    for (int i = 0; i + k <= 64; i += k) base |= bg << i;
    for (int i = 0; i + k <= 64; i += k) { u64 x = (base & ~(low_mask(k) << i)) | s << i; check64(ctx, x); if (k == 3) check64(ctx, x ^ (1ull << 63)); ctx.event("bu.symbol_words"); }
  }
  ctx.in(ctx.index);
  ctx.nontrivial();
}
template <size_t... I> static void template_masks(std::index_sequence<I...>) {
  constexpr u64 w[] = {bu::width_mask<I>...};
  constexpr u64 d[] = {bu::WidthMask(I)...};
  for (int i = 0; i <= 64; i++) { u64 e = 0; for (int k = 0; k < i; k++) e |= 1ull << k; EQX("bu.width_mask", w[i], e, show(i)); EQX("bu.WidthMask_constexpr", d[i], e, show(i)); volatile size_t n = i; EQX("bu.WidthMask", u64(bu::WidthMask(n)), e, show(i)); }
}
template <size_t... I> static void template_offsets(std::index_sequence<I...>) {
  constexpr u64 w[] = {bu::offset_mask<I>...};
  constexpr u64 d[] = {bu::OffsetMask(I)...};
  for (int i = 0; i < 64; i++) { u64 e = 1; for (int k = 0; k < i; k++) e += e; EQX("bu.offset_mask", w[i], e, show(i)); EQX("bu.OffsetMask_constexpr", d[i], e, show(i)); volatile size_t n = i; EQX("bu.OffsetMask", u64(bu::OffsetMask(n)), e, show(i)); }
}
template <size_t... I> static void constexpr_counts(std::index_sequence<I...>) {
  constexpr unsigned a[] = {bu::popcnt8(uint8_t(I))...};
  constexpr unsigned b[] = {bu::popcnt16(uint16_t(I * 257 ^ 0x5a00))...};
  for (size_t i = 0; i < 256; i++) { EQX("bu.popcnt8_constexpr", u64(a[i]), ref_cnt(i, 0, 8), show(i)); EQX("bu.popcnt16_constexpr", u64(b[i]), ref_cnt(uint16_t(i * 257 ^ 0x5a00), 0, 16), show(i)); }
}
SCENARIO(bu_masks, 1) {
  template_masks(std::make_index_sequence<65>());
  template_offsets(std::make_index_sequence<64>());
  constexpr_counts(std::make_index_sequence<256>());
  ctx.event("bu.masks", 65 + 64);
  ctx.in(ctx.index);
  ctx.nontrivial();
}
// 32-bit operations: consecutive words, all of them in the thorough tier
SCENARIO(bu_dense32, 64) {
  u64 n = ctx.thorough ? (1ull << 32) / 1280 + 1 : 1 << 14;
  u64 lo = ctx.thorough ? ctx.index * n : ctx.rng.next() & 0xffffffffu;
  for (u64 i = 0; i < n; i++) {
    uint32_t x = uint32_t(lo + i);
    unsigned c = 0; for (uint32_t y = x; y; y &= y - 1) c++;
    unsigned t = 32, l = 32; if (x) { t = 0; while (!(x >> t & 1)) t++; l = 0; while (!(x << l & 0x80000000u)) l++; }
    EQX("bu.popcnt32", unsigned(bu::popcnt32(x)), c, show(x));
    EQX("bu.ctz32", unsigned(bu::ctz(x)), t, show(x));
    EQX("bu.clz32", unsigned(bu::clz(x)), l, show(x));
  }
  ctx.event("bu.dense32_words", n);
  ctx.in(lo);
  ctx.nontrivial();
}
#include "main.inc"
