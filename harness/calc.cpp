// C29: bit-length calculations.
#include "mon.hpp"
#include "gen.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/calc.hpp"
using namespace mon;
namespace calc = sim_ds::calc;

// least positive n with value < 2^(n*unit), by 128-bit arithmetic
static size_t ref_units(u64 v, size_t unit) { size_t n = 1; while ((unsigned __int128)n * unit < 64 && v >= ((unsigned __int128)1 << (n * unit))) n++; return n; }
static size_t ref_bits(u64 v) { size_t n = 1; while (n < 64 && v >= (1ull << n)) n++; return n; }

static u64 value(Rng& r) {
  switch (r.below(5)) {
    case 0: return r.value(64);
    case 1: { u64 p = 1ull << r.below(64); return p - 1 + r.below(3); }
    case 2: return ~0ull - r.below(3);
    case 3: return r.next() >> r.below(64);
    default: return r.below(300);
  }
}
SCENARIO(ca_units, 200) {
  Rng& r = ctx.rng;
  for (int q = 0; q < 100; q++) {
    u64 v = value(r);
    ctx.in(v);
    EQX("ca.bits", calc::SizeFitsInBits(v), ref_bits(v), show(v));
    EQX("ca.bytes", calc::SizeFitsInBytes(v), ref_units(v, 8), show(v));
    for (size_t u = 1; u <= 64; u++) EQX("ca.units", calc::SizeFitsInUnits(v, u), ref_units(v, u), show(v) + " in units of " + show(u));
    for (size_t u : {65, 100, 1000}) EQX("ca.units", calc::SizeFitsInUnits(v, u), size_t(1), show(v) + " in units of " + show(u));
    EQX("ca.size_fits", calc::size_fits<1>(v), ref_units(v, 1), show(v));
    EQX("ca.size_fits", calc::size_fits<7>(v), ref_units(v, 7), show(v));
    EQX("ca.size_fits", calc::size_fits<8>(v), ref_units(v, 8), show(v));
    EQX("ca.size_fits", calc::size_fits<32>(v), ref_units(v, 32), show(v));
    EQX("ca.size_fits", calc::size_fits<64>(v), size_t(1), show(v));
    ctx.event("ca.values");
  }
  ctx.nontrivial();
}
template <size_t... I> static void at_compile_time(std::index_sequence<I...>) {
  constexpr size_t b[] = {calc::SizeFitsInBits(I ? ~0ull >> (64 - (I ? I : 1)) : 0)...};
  constexpr size_t p[] = {calc::SizeFitsInBits(1ull << (I % 64))...};
  constexpr size_t y[] = {calc::SizeFitsInBytes(1ull << (I % 64))...};
  constexpr size_t u[] = {calc::SizeFitsInUnits(0x9e3779b97f4a7c15ull, I + 1)...};
  for (size_t i = 0; i <= 64; i++) {
    EQX("ca.bits_constexpr", b[i], i ? i : 1, show(i));
    EQX("ca.bits_constexpr", p[i], i % 64 + 1, show(i));
    EQX("ca.bytes_constexpr", y[i], i % 64 / 8 + 1, show(i));
    EQX("ca.units_constexpr", u[i], ref_units(0x9e3779b97f4a7c15ull, i + 1), show(i));
  }
}
SCENARIO(ca_edges, 1) {
  at_compile_time(std::make_index_sequence<65>());
  for (u64 k = 0; k < 64; k++) for (int d = -1; d <= 1; d++) { u64 v = (1ull << k) + d; EQX("ca.bits", calc::SizeFitsInBits(v), ref_bits(v), show(v)); for (size_t u = 1; u <= 64; u++) EQX("ca.units", calc::SizeFitsInUnits(v, u), ref_units(v, u), show(v) + " in units of " + show(u)); }
  for (u64 v = 0; v < 70000; v++) { EQX("ca.bits", calc::SizeFitsInBits(v), ref_bits(v), show(v)); EQX("ca.bytes", calc::SizeFitsInBytes(v), ref_units(v, 8), show(v)); }
  ctx.event("ca.values", 70000);
  ctx.in(ctx.index);
  ctx.nontrivial();
}
SCENARIO(ca_as_list, 300) {
  Rng& r = ctx.rng;
  for (int q = 0; q < 60; q++) {
    std::vector<size_t> u;
    size_t sum = 0;
    while (sum < 64 || r.coin()) { if (r.chance(1, 12)) u.push_back(0); u.push_back(1 + r.below(r.pick<u64>({1, 4, 9, 33, 63, 64}))); sum += u.back(); if (u.size() > 90) break; }
    std::vector<uint8_t> u8s(u.begin(), u.end());
    for (int z = 0; z < 10; z++) {
      u64 v = value(r);
      size_t need = 0, acc = 0;
      do { acc += u[need]; need++; } while (acc < 64 && (v >> acc));
      EQX("ca.as_list", calc::SizeFitsAsList(v, u), need, show(v) + " over " + show_seq(u));
      EQX("ca.as_list", calc::SizeFitsAsList(v, u8s), need, show(v) + " over bytes " + show_seq(u));
      ctx.event("ca.as_lists");
      ctx.in(v);
    }
  }
  ctx.nontrivial();
}
// what a DAC of these layer widths takes by the library's own estimate: the digits of every
// layer, and a rank over every layer but the last; c[b] = values of more than b bits
static size_t split_cost(const std::vector<size_t>& c, const std::vector<size_t>& widths) {
  size_t sum = 0, at = 0;
  for (size_t k = 0; k < widths.size(); k++) {
    sum += c[at] * widths[k] + (k + 1 < widths.size() ? calc::additional_bit_size_of_rank(c[at]) : 0);
    at += widths[k];
  }
  return sum;
}
static size_t cheapest_split(const std::vector<size_t>& c) {
  size_t m = c.size();
  std::vector<size_t> best(m + 1, 0);
  for (size_t t = m; t-- > 0;) {
    best[t] = c[t] * (m - t);
    for (size_t i = t + 1; i < m; i++) best[t] = std::min(best[t], c[t] * (i - t) + calc::additional_bit_size_of_rank(c[t]) + best[i]);
  }
  return best[0];
}
template <class L> static void lists(Ctx& ctx, const L& v, size_t full) {
  Rng& r = ctx.rng;
  std::vector<size_t> len(full + 1, 0);
  size_t longest = 0;
  for (u64 x : v) { size_t b = ref_bits(x); len[b]++; longest = std::max(longest, b); }
  std::vector<size_t> f(r.below(5), 77);
  calc::bit_length_frequencies(v, &f);
  EQ("ca.freq_size", f.size(), longest);
  for (size_t b = 1; b <= longest; b++) EQX("ca.freq", f[b - 1], len[b], "length " + show(b) + " of " + show(v.size()) + " values");
  std::vector<long> c(r.below(70), 77);
  calc::cummulative_frequency_list(v, &c, r.below(8) == 0);
  EQ("ca.cum_size", c.size(), longest);
  size_t at_least = 0;
  for (size_t b = longest; b; b--) { at_least += len[b]; EQX("ca.cum", size_t(c[b - 1]), at_least, "length " + show(b)); }
  for (size_t lv : {size_t(8), size_t(1 + r.below(8)), size_t(64)}) {
    std::vector<size_t> s;
    if (r.coin()) s.assign(r.below(70), 9);
    if (lv == 8 && r.coin()) calc::split_positions_optimized_for_dac(v, &s); else calc::split_positions_optimized_for_dac(v, &s, lv);
    if (v.empty()) { ctx.event("ca.empty_lists"); continue; }
    size_t sum = 0;
    for (size_t x : s) { OK("ca.split_positive", x > 0, show_seq(s)); sum += x; }
    EQX("ca.split_sum", sum, longest, show_seq(s) + " of " + show(v.size()) + " values, at most " + show(lv) + " layers");
    OK("ca.split_count", s.size() <= lv && s.size() >= 1, show_seq(s) + " for at most " + show(lv));
    std::vector<uint8_t> t;
    calc::split_positions_optimized_for_dac(v, &t, lv);
    OK("ca.split_type", std::equal(s.begin(), s.end(), t.begin(), t.end()), show_seq(s) + " against " + show_seq(t));
    if (lv == 64) {
      std::vector<size_t> at(longest, 0);
      for (size_t b = longest, n = 0; b; b--) at[b - 1] = n += len[b];
      EQX("ca.split_cost", split_cost(at, s), cheapest_split(at), show_seq(s) + " of " + show(v.size()) + " values");
      ctx.event("ca.cheapest_splits");
    }
    ctx.event("ca.splits");
    if (s.size() > 1) ctx.event("ca.splits_of_several_layers");
    if (s.size() == lv && lv > 1) ctx.event("ca.splits_at_the_maximum");
  }
  ctx.event("ca.lists");
}
SCENARIO(ca_lists, 400) {
  Rng& r = ctx.rng;
  std::string what;
  size_t n = r.pick<size_t>({0, 1, 2, 5, 50, 500, 5000});
  n = n < 5 ? n : r.below(n) + 1;
  auto v = gen::ints(r, n, 64, &what);
  for (u64 x : v) ctx.in(x);
  lists(ctx, v, 64);
  std::vector<uint32_t> w(v.begin(), v.end());
  lists(ctx, w, 32);
  if (r.below(4) == 0) { std::vector<uint8_t> b(v.begin(), v.end()); lists(ctx, b, 8); }
  ctx.nontrivial(n > 1);
  ctx.describe(what);
}
// A list too long to be held: values[i % values.size()].
struct Endless {
  using value_type = u64; using size_type = size_t; using difference_type = ptrdiff_t; using reference = u64; using const_reference = u64;
  struct const_iterator {
    using iterator_category = std::random_access_iterator_tag; using value_type = u64; using difference_type = ptrdiff_t; using pointer = const u64*; using reference = u64;
    const Endless* e = nullptr; size_t i = 0;
    u64 operator*() const { return (*e)[i]; }
    u64 operator[](ptrdiff_t d) const { return (*e)[i + d]; }
    const_iterator& operator++() { ++i; return *this; }
    const_iterator& operator--() { --i; return *this; }
    const_iterator operator++(int) { auto c = *this; ++i; return c; }
    const_iterator operator--(int) { auto c = *this; --i; return c; }
    const_iterator& operator+=(ptrdiff_t d) { i += d; return *this; }
    const_iterator& operator-=(ptrdiff_t d) { i -= d; return *this; }
    friend const_iterator operator+(const_iterator a, ptrdiff_t d) { return a += d; }
    friend const_iterator operator+(ptrdiff_t d, const_iterator a) { return a += d; }
    friend const_iterator operator-(const_iterator a, ptrdiff_t d) { return a -= d; }
    friend ptrdiff_t operator-(const_iterator a, const_iterator b) { return ptrdiff_t(a.i - b.i); }
    friend bool operator==(const_iterator a, const_iterator b) { return a.i == b.i; }
    friend bool operator!=(const_iterator a, const_iterator b) { return a.i != b.i; }
    friend bool operator<(const_iterator a, const_iterator b) { return a.i < b.i; }
    friend bool operator>(const_iterator a, const_iterator b) { return a.i > b.i; }
    friend bool operator<=(const_iterator a, const_iterator b) { return a.i <= b.i; }
    friend bool operator>=(const_iterator a, const_iterator b) { return a.i >= b.i; }
  };
  using iterator = const_iterator;
  size_t n; std::vector<u64> values;
  size_t size() const { return n; }
  bool empty() const { return n == 0; }
  u64 operator[](size_t i) const { return values[i & 63]; }
  u64 at(size_t i) const { return values[i & 63]; }
  u64 front() const { return values[0]; }
  u64 back() const { return (*this)[n - 1]; }
  const_iterator begin() const { return {this, 0}; }
  const_iterator end() const { return {this, n}; }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
};
SCENARIO(ca_beyond31, .1) {   // counts that do not fit an int, thorough: 32 bits
  if (ctx.sanitized) return;
  if (ctx.thorough) arm(300);
  Rng& r = ctx.rng;
  Endless e{(size_t(1) << 32) + 64 * r.below(1000) + r.below(64), std::vector<u64>(64, 1)};
  if (!ctx.thorough || r.coin()) e.n = (size_t(1) << 31) + r.below(100000);
  for (int k = 0; k < 64; k += 2) e.values[k] = 2;
  for (int k = 0; k < 3; k++) e.values[r.below(64)] = value(r) & low_mask(ctx.thorough ? r.range(2, 24) : 3);
  size_t longest = 0; std::vector<size_t> len(65, 0);
  for (size_t k = 0; k < 64; k++) { size_t b = ref_bits(e.values[k]); len[b] += e.n / 64 + (k < e.n % 64); longest = std::max(longest, b); }
  std::vector<size_t> c;
  calc::cummulative_frequency_list(e, &c);
  EQ("ca.cum_size", c.size(), longest);
  size_t at_least = 0;
  for (size_t b = longest; b; b--) { at_least += len[b]; EQX("ca.cum", c[b - 1], at_least, "length " + show(b) + " of " + show(e.n) + " values"); }
  if (ctx.thorough) {
    std::vector<size_t> s;
    calc::split_positions_optimized_for_dac(e, &s);
    EQX("ca.split_sum", std::accumulate(s.begin(), s.end(), size_t(0)), longest, show_seq(s) + " of " + show(e.n) + " values");
    OK("ca.split_count", s.size() <= 8 && s.size() >= 1, show_seq(s));
  }
  ctx.in(e.n); for (u64 v : e.values) ctx.in(v);
  ctx.event("ca.endless_lists");
  ctx.nontrivial();
}
// many layers pay: large lists whose lengths fall off geometrically
SCENARIO(ca_many_layers, 24) {
  Rng& r = ctx.rng;
  std::vector<u64> v;
  double n = 20000 * (1 + r.below(4)), q = 0.5 + 0.45 * double(r.below(1000)) / 1000;
  for (int b = 1 + r.below(3); b <= 64; b += 1 + r.below(3)) { for (size_t k = 0; k < (size_t)n; k++) v.push_back((1ull << (b - 1)) | (r.next() & low_mask(b - 1))); n *= q; if (n < 1) n = 1; }
  std::shuffle(v.begin(), v.end(), r);
  ctx.in(v.size());
  ctx.in(v[0]);
  lists(ctx, v, 64);
  ctx.nontrivial();
  ctx.describe(show(v.size()) + " values, geometric lengths");
}
#ifdef PART   // C25 only
SCENARIO(ca_recursive, 40) {   // the recursion helper, called after the expression that made it is gone
  Rng& r = ctx.rng;
  u64 k = r.next();
  auto make = [&] { std::vector<u64> big(20, k); return sim_ds::recursive([big](auto self, unsigned n) -> u64 { return n == 0 ? big[7] : self(self, n - 1) * 3 + n + big[n % 20]; }); };
  auto f = make();
  { std::vector<u64> other(20, ~k); volatile u64 s = other[3]; (void)s; }
  unsigned n = r.below(60);
  u64 e = k; for (unsigned i = 1; i <= n; i++) e = e * 3 + i + k;
  for (int q = 0; q < 3; q++) EQ("ca.recursive", u64(f(n)), e);
  auto g = f;
  EQ("ca.recursive", u64(g(n)), e);
  ctx.in(k); ctx.in(n);
  ctx.event("ca.recursions");
  ctx.nontrivial(n > 1);
}
#endif
#include "main.inc"
