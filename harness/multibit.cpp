// C06: MultiBitVector against a symbol list.
#include "mon.hpp"
#include "gen.hpp"
#include "sim_ds/MultiBitVector.hpp"
using namespace mon;

static std::vector<u8> symbols(Rng& r, size_t n, unsigned k, std::string* what) {
  std::vector<u8> v(n);
  unsigned m = 1u << k;
  int mode = r.below(7);
  u8 a = r.below(m), b = r.below(m);
  u64 p = r.pick<u64>({1, 10, 50, 90, 99});
  size_t run = 1 + r.below(300);
  u8 cur = a;
  for (size_t i = 0; i < n; i++) switch (mode) {
    case 0: v[i] = a; break;                                   // constant
    case 1: v[i] = r.below(m); break;
    case 2: v[i] = r.below(100) < p ? a : b; break;
    case 3: v[i] = i % m; break;
    case 4: if (r.below(run) == 0) cur = r.below(m); v[i] = cur; break;
    case 5: v[i] = r.below(100) < p ? 0 : r.below(m); break;
    default: v[i] = (m - 1); if (r.below(200) == 0) v[i] = r.below(m);
  }
  *what = "symbols" + show(k) + "(mode " + show(mode) + ", n " + show(n) + ")";
  return v;
}

template <unsigned K, class M> static void compare(Ctx& ctx, const M& x, const std::vector<u8>& v) {
  size_t cnt[8] = {};
  for (size_t i = 0; i < v.size(); i++) {
    if (x[i] != v[i]) fail("mbv.access", "symbol " + show(i) + " of " + show(v.size()) + ", unit " + show(K) + ": got " + show((int)x[i]) + ", expected " + show((int)v[i]));
    if (v[i]) {
      u64 g = x.rank(i);
      if (g != cnt[v[i]]) fail("mbv.rank", "rank(" + show(i) + ") of symbol " + show((int)v[i]) + ", unit " + show(K) + ": got " + show(g) + ", expected " + show(cnt[v[i]]));
      ctx.event("mbv.ranks");
    }
    cnt[v[i]]++;
  }
  ctx.event("mbv.vectors");
}

template <unsigned K> static void one(Ctx& ctx, size_t maxn) {
  Rng& r = ctx.rng;
  size_t n = r.coin() ? r.size(maxn) : std::min(maxn, (size_t)std::max<long>(0, (long)(r.below(12) * (r.coin() ? 64 / K : 64 / K * 4)) + (long)r.below(5) - 2));
  if (n == 0) n = 1;
  std::string what;
  auto v = symbols(r, n, K, &what);
  ctx.in(K);
  for (size_t i = 0; i < n; i += 3) ctx.in(v[i]);
  ctx.nontrivial(n > 64 / K);
  ctx.describe(what);
  sim_ds::MultiBitVector<K> x;
  int order = r.below(4);
  if (order == 0) for (size_t i = 0; i < n; i++) x.set(i, v[i]);
  else if (order == 1) for (size_t i = n; i-- > 0;) x.set(i, v[i]);
  else if (order == 2) { std::vector<size_t> p(n); std::iota(p.begin(), p.end(), 0); std::shuffle(p.begin(), p.end(), r); for (size_t i : p) { x.set(i, r.below(1u << K)); } for (size_t i : p) x.set(i, v[i]); }
  else { x.resize(n - 1); for (size_t i = 0; i < n; i++) x.set(i, v[i]); }
  x.build();
  compare<K>(ctx, x, v);
  int rounds = r.below(4);
  for (int k = 0; k < rounds; k++) { // further sets, growth, rebuild
    int c = 1 + r.below(40);
    u8 only = r.below(1u << K);
    bool narrow = r.coin();
    while (c--) {
      size_t i = r.below(v.size() + (r.chance(1, 4) ? 300 : 1));
      u8 s = narrow ? only : r.below(1u << K);
      while (v.size() <= i) v.push_back(0); // never set: reads zero
      x.set(i, s);
      v[i] = s;
    }
    for (size_t i = 0; i < v.size(); i++) EQ("mbv.access_before_rebuild", (int)x[i], (int)v[i]);
    x.build();
    compare<K>(ctx, x, v);
    ctx.event("mbv.rebuilds");
  }
}

SCENARIO(mbv1, 3000) { one<1>(ctx, 3000); }
SCENARIO(mbv2, 3000) { one<2>(ctx, 3000); }
SCENARIO(mbv3, 3000) { one<3>(ctx, 3000); }
SCENARIO(mbv1_large, 12) { one<1>(ctx, 200000); }
SCENARIO(mbv2_large, 12) { one<2>(ctx, 200000); }
SCENARIO(mbv3_large, 12) { one<3>(ctx, 200000); }
SCENARIO(mbv_scale, 1) { size_t n = ctx.sanitized ? 3000 : 3000000; switch (ctx.index % 3) { case 0: one<2>(ctx, n); break; case 1: one<3>(ctx, n); break; default: one<1>(ctx, n); } }
SCENARIO(mbv_beyond32, .1) {   // more than 2^32 symbols; thorough: more than 2^32 of one kind too
  if (ctx.sanitized) return;
  arm(600);
  Rng& r = ctx.rng;
  size_t n = (size_t(1) << 32) + 1000 + r.below(1 << 16);
  sim_ds::MultiBitVector<1> x;
  x.resize(n - 1);
  // set positions: clusters around the powers of two, and a stride
  std::vector<size_t> ones;
  bool dense = ctx.thorough && ctx.index % 2;
  if (dense) for (size_t i = 0; i < n; i++) x.set(i, 1);
  else {
    size_t stride = 700 + r.below(500);
    for (size_t i = r.below(stride); i < n; i += stride) ones.push_back(i);
    for (size_t base : {size_t(1) << 31, size_t(1) << 32, n - 300}) for (size_t k = 0; k < 250; k++) if (base + k < n && r.coin()) ones.push_back(base + k);
    std::sort(ones.begin(), ones.end());
    ones.erase(std::unique(ones.begin(), ones.end()), ones.end());
    for (size_t i : ones) x.set(i, 1);
  }
  x.build();
  auto test = [&](size_t i, size_t before) {
    EQX("mbv.access", (int)x[i], 1, "symbol " + show(i) + " of " + show(n));
    u64 g = x.rank(i);
    if (g != before) fail("mbv.rank", "rank(" + show(i) + ") of " + show(n) + " symbols: got " + show(g) + ", expected " + show(before));
    ctx.event("mbv.ranks");
  };
  if (dense) for (int k = 0; k < 100000; k++) { size_t i = r.coin() ? r.below(n) : n - 1 - r.below(3000); test(i, i); }
  else {
    for (size_t k = 0; k < ones.size(); k++) test(ones[k], k);
    for (size_t k = 0; k < 100000; k++) { size_t i = r.below(n); EQX("mbv.access", (int)x[i], (int)std::binary_search(ones.begin(), ones.end(), i), "symbol " + show(i) + " of " + show(n)); }
  }
  ctx.event("mbv.vast");
  ctx.in(n); ctx.in(dense);
  ctx.nontrivial();
  ctx.describe(show(n) + " symbols, " + (dense ? "all ones" : show(ones.size()) + " ones"));
}
#include "main.inc"
