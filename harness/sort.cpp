// C10: HeapSort against the multiset of its input and the comparator.
#include "mon.hpp"
#include "gen.hpp"
#include "sim_ds/sort.hpp"
using namespace mon;

struct Rec { int key; int tag; std::string s; bool operator<(const Rec& o) const { return key < o.key; } };

template <class V, class Cmp> static void verify(const V& before, const V& after, size_t lo, size_t hi, Cmp less, const char* kind) {
  for (size_t i = lo + 1; i < hi; i++)
    if (less(after[i], after[i - 1])) fail("sort.order", std::string(kind) + ": position " + show(i) + " of [" + show(lo) + "," + show(hi) + ") precedes its predecessor");
  for (size_t i = 0; i < before.size(); i++)
    if ((i < lo || i >= hi) && !(before[i] == after[i])) fail("sort.outside", std::string(kind) + ": position " + show(i) + " outside [" + show(lo) + "," + show(hi) + ") changed");
}

template <class T> static bool same_multiset(std::vector<T> a, std::vector<T> b) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); return a == b; }

static void one(Ctx& ctx, size_t n) {
  Rng& r = ctx.rng;
  int dom = r.below(5);
  std::vector<long> v(n);
  for (auto& x : v) x = dom == 0 ? 0 : dom == 1 ? (long)r.below(3) : dom == 2 ? (long)r.next() : dom == 3 ? (long)r.below(n + 1) : (long)r.below(1000) - 500;
  int pre = r.below(5);
  if (pre == 0) std::sort(v.begin(), v.end());
  if (pre == 1) std::sort(v.rbegin(), v.rend());
  for (auto x : v) ctx.in((u64)x);
  size_t lo = r.coin() ? 0 : r.below(n + 1), hi = r.coin() ? n : lo + r.below(n - lo + 1);
  if (lo > hi) lo = hi;
  ctx.in(lo); ctx.in(hi);
  ctx.nontrivial(hi - lo > 1);
  ctx.describe("sort [" + show(lo) + "," + show(hi) + ") of " + show_seq(v, 8));
  {
    auto a = v;
    sim_ds::HeapSort(a.begin() + lo, a.begin() + hi);
    verify(v, a, lo, hi, std::less<long>(), "default order");
    OK("sort.permutation", same_multiset(v, a), "default order");
  }
  {
    auto a = v;
    sim_ds::HeapSort(a.begin() + lo, a.begin() + hi, std::greater<long>());
    verify(v, a, lo, hi, std::greater<long>(), "greater");
    OK("sort.permutation", same_multiset(v, a), "greater");
  }
  {
    auto a = v;
    long k = 1 + r.below(20);
    auto cmp = [k](long x, long y) { return ((x % k) + k) % k < ((y % k) + k) % k; }; // weak order with many ties
    sim_ds::HeapSort(a.begin() + lo, a.begin() + hi, cmp);
    verify(v, a, lo, hi, cmp, "residue order");
    OK("sort.permutation", same_multiset(v, a), "residue order");
  }
  if (n <= 2000) {
    std::deque<double> d(v.begin(), v.end());
    auto before = d;
    sim_ds::HeapSort(d.begin() + lo, d.begin() + hi);
    verify(before, d, lo, hi, std::less<double>(), "deque of double");
    OK("sort.permutation", same_multiset(std::vector<double>(before.begin(), before.end()), std::vector<double>(d.begin(), d.end())), "deque");
    std::vector<std::string> s;
    for (long x : v) s.push_back(std::string(40, 'x') + std::to_string(x)); // not small: a torn swap would show
    auto sb = s;
    sim_ds::HeapSort(s.begin() + lo, s.begin() + hi, [](const std::string& a, const std::string& b) { return a > b; });
    verify(sb, s, lo, hi, std::greater<std::string>(), "strings");
    OK("sort.permutation", same_multiset(sb, s), "strings");
    std::vector<u64> u(v.begin(), v.end());
    auto ub = u;
    sim_ds::HeapSort(u.data() + lo, u.data() + hi); // raw pointers
    verify(ub, u, lo, hi, std::less<u64>(), "pointers");
    OK("sort.permutation", same_multiset(ub, u), "pointers");
    std::vector<int> rv(v.begin(), v.end());
    auto rb = rv;
    sim_ds::HeapSort(rv.rbegin(), rv.rend()); // reverse iterators
    std::reverse(rv.begin(), rv.end());
    verify(rb, rv, 0, rv.size(), std::less<int>(), "reverse iterators");
    OK("sort.permutation", same_multiset(rb, rv), "reverse iterators");
  }
  ctx.event("sort.sorts", n <= 2000 ? 7 : 3);
}

SCENARIO(sort_tiny, 4000) { one(ctx, ctx.index < 40 ? ctx.index / 4 : ctx.rng.below(12)); }
SCENARIO(sort_small, 3000) { one(ctx, ctx.rng.below(200)); }
SCENARIO(sort_medium, 100) { one(ctx, ctx.rng.below(6000)); }
SCENARIO(sort_large, 8) { one(ctx, ctx.rng.range(50000, 200000)); }
SCENARIO(sort_permutations, 9) {
  // every permutation of 0..n-1 and every 0/1/2 word for small n
  size_t n = ctx.index % 9;
  std::vector<int> p(n);
  std::iota(p.begin(), p.end(), 0);
  do {
    auto a = p;
    sim_ds::HeapSort(a.begin(), a.end());
    for (size_t i = 0; i < n; i++) if (a[i] != (int)i) fail("sort.exhaustive", "permutation " + show_seq(p));
    ctx.event("sort.sorts");
  } while (std::next_permutation(p.begin(), p.end()));
  size_t words = 1;
  for (size_t i = 0; i < n; i++) words *= 3;
  for (size_t w = 0; w < words; w++) {
    std::vector<int> a(n);
    size_t c[3] = {};
    size_t x = w;
    for (auto& y : a) { y = x % 3; c[y]++; x /= 3; }
    auto b = a;
    sim_ds::HeapSort(b.begin(), b.end(), std::greater<int>());
    for (size_t i = 0; i < n; i++) if (b[i] != (i < c[2] ? 2 : i < c[2] + c[1] ? 1 : 0)) fail("sort.exhaustive", "word " + show_seq(a));
    ctx.event("sort.sorts");
  }
  ctx.in(n);
  ctx.nontrivial(n > 1);
  ctx.describe("all permutations and ternary words of length " + show(n));
}
SCENARIO(sort_scale, .1) { one(ctx, ctx.sanitized ? 70000 : 600000 + ctx.rng.below(100000)); }
SCENARIO(sort_beyond31, .1) {   // more than 2^31 bytes (thorough: 2^32), almost all alike: nothing sinks far
  if (ctx.sanitized) return;
  arm(400);
  Rng& r = ctx.rng;
  size_t n = (size_t(1) << (ctx.index % 4 == 3 ? 32 : 31)) + 300 + r.below(1000), lo = r.below(20), hi = n - r.below(20);
  std::vector<uint8_t> v(n, 100);
  size_t counts[256] = {};
  for (int k = 0; k < 60; k++) {
    size_t i = r.coin() ? r.below(n) : r.coin() ? n - 1 - r.below(700) : (size_t(1) << 31) - 300 + r.below(600);
    v[i] = r.pick<uint8_t>({0, 1, 99, 101, 200, 255});
  }
  std::vector<uint8_t> before(v.begin(), v.begin() + lo), after(v.begin() + hi, v.end());
  for (size_t i = lo; i < hi; i++) counts[v[i]]++;
  bool down = r.coin();
  if (down) sim_ds::HeapSort(v.data() + lo, v.data() + hi, std::greater<uint8_t>()); else sim_ds::HeapSort(v.begin() + lo, v.begin() + hi);
  size_t at = lo;
  for (int c = 0; c < 256; c++) { uint8_t x = down ? 255 - c : c; for (size_t e = at + counts[x]; at < e; at++) if (v[at] != x) fail("sort.order", "position " + show(at) + " of " + show(n) + " bytes holds " + show(int(v[at])) + ", expected " + show(int(x))); }
  OK("sort.outside", std::equal(before.begin(), before.end(), v.begin()) && std::equal(after.begin(), after.end(), v.begin() + hi), "bytes outside the range changed");
  ctx.event("sort.sorts");
  ctx.in(n); ctx.in(lo); ctx.in(hi);
  ctx.nontrivial();
  ctx.describe("sort of " + show(n) + " bytes");
}
#include "main.inc"
