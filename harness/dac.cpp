// C05: DacVector against the list it was built from.
#include "mon.hpp"
#include "gen.hpp"
#include "sim_ds/DacVector.hpp"
using namespace mon;
using sim_ds::DacVector;

static unsigned len(u64 x) { return x == 0 ? 0 : 64 - __builtin_clzll(x); }

static void compare(Ctx& ctx, const DacVector& d, const std::vector<u64>& v, const std::vector<size_t>* units) {
  EQ("dac.size", d.size(), v.size());
  EQ("dac.empty", d.empty(), v.empty());
  for (size_t i = 0; i < v.size(); i++) {
    u64 g = d[i];
    if (g != v[i]) fail("dac.content", "element " + show(i) + " of " + show(v.size()) + ": got " + show(g) + ", expected " + show(v[i]));
    if (i % 5 == 0) EQ("dac.at", (u64)d.at(i), v[i]);
    if (units) {
      size_t dep = 0, sum = (*units)[0];
      while (sum < len(v[i])) sum += (*units)[++dep];
      EQX("dac.depth", (size_t)d.depth(i), dep, "element " + show(i) + " = " + show(v[i]));
    } else {
      OK("dac.depth_range", d.depth(i) < d.num_layers(), show(i));
    }
  }
  if (!units && v.size() > 1) { // longer values never need fewer layers
    std::map<unsigned, size_t> by;
    for (size_t i = 0; i < v.size(); i++) {
      auto [it, fresh] = by.emplace(len(v[i]), d.depth(i));
      if (!fresh) EQX("dac.depth_same_length", (size_t)d.depth(i), it->second, "length " + show(len(v[i])));
    }
    size_t prev = 0;
    for (auto& p : by) { OK("dac.depth_monotone", p.second >= prev, "length " + show(p.first)); prev = p.second; }
    // some element reaches the last layer
    OK("dac.last_layer_used", prev + 1 == d.num_layers(), "layers " + show(d.num_layers()) + " deepest " + show(prev));
  }
  size_t i = 0;
  for (auto x : d) { if (i >= v.size() || (u64)x != v[i]) fail("dac.iteration", "iterated element " + show(i)); i++; }
  EQ("dac.iteration", i, v.size());
  auto it = d.end();
  while (i > 0) { --it; --i; if ((u64)*it != v[i]) fail("dac.reverse", "element " + show(i)); }
  OK("dac.reverse", it == d.begin(), "");
  if (!v.empty()) {
    EQ("dac.front", (u64)d.front(), v.front());
    EQ("dac.back", (u64)d.back(), v.back());
    size_t a = ctx.rng.below(v.size()), b = ctx.rng.below(v.size());
    auto x = d.begin() + a, y = d.begin() + b;
    EQ("dac.iter_diff", (long long)(x - y), (long long)a - (long long)b);
    EQ("dac.iter_lt", x < y, a < b);
    EQ("dac.iter_ge", x >= y, a >= b);
    auto z = d.begin() + a;
    z += (long long)b - (long long)a;
    EQ("dac.iter_jump", (u64)*z, v[b]);
    z -= (long long)b - (long long)a;
    EQ("dac.iter_jump", (u64)*z, v[a]);
    EQ("dac.iter_index", (u64)d.begin()[b], v[b]);
    EQ("dac.iter_postinc", (u64)*z++, v[a]);
    OK("dac.iter_postinc", z == d.begin() + (a + 1), "");
    gen::iter_walk<DacVector::const_iterator, u64>(ctx, "dac", v.size(), [&](size_t k) { return d.begin() + k; }, [&](size_t k) { return v[k]; });
  }
  for (size_t k : {v.size(), v.size() + 1, v.size() + 1000000}) {
    bool t = false;
    try { (void)d.at(k); } catch (const std::out_of_range&) { t = true; }
    OK("dac.at_throws", t, show(k));
  }
  std::ostringstream os;
  d.ShowStatus(os);
  ctx.event("dac.elements", v.size());
  ctx.event("dac.vectors");
}

template <class T> static std::vector<T> as(const std::vector<u64>& v) { return std::vector<T>(v.begin(), v.end()); }

static void automatic(Ctx& ctx, size_t n, unsigned maxbits) {
  std::string what;
  auto v = gen::ints(ctx.rng, n, maxbits, &what);
  for (u64 x : v) ctx.in(x);
  ctx.describe("auto " + what);
  ctx.nontrivial(n > 1);
  unsigned mx = 0;
  for (u64 x : v) mx = std::max(mx, len(x));
  DacVector d(v);
  compare(ctx, d, v, nullptr);
  OK("dac.max_layers", d.num_layers() <= 8, show(d.num_layers()));
  OK("dac.min_layers", v.empty() || d.num_layers() >= 1, show(d.num_layers()));
  ctx.event(("dac.auto_layers_" + show(d.num_layers())).c_str());
  if (mx <= 32 && ctx.rng.coin()) compare(ctx, DacVector(as<uint32_t>(v)), v, nullptr);
  if (mx <= 8) compare(ctx, DacVector(as<uint8_t>(v)), v, nullptr);
  if (mx <= 31 && ctx.rng.coin()) compare(ctx, DacVector(as<int>(v)), v, nullptr);
}

SCENARIO(dac_auto_small, 6000) { automatic(ctx, ctx.rng.size(300), ctx.rng.range(1, 64)); }
SCENARIO(dac_auto_medium, 500) { automatic(ctx, ctx.rng.size(8000), ctx.rng.range(1, 64)); }
SCENARIO(dac_auto_large, 16) { automatic(ctx, ctx.rng.range(20000, ctx.sanitized ? 40000 : 200000), ctx.rng.range(8, 64)); }

SCENARIO(dac_scale, .2) { if (ctx.sanitized) return; automatic(ctx, 1500000 + ctx.rng.below(100000), ctx.rng.range(8, 64)); }

SCENARIO(dac_layers_scale, .2) {   // millions of elements that reach the upper layers, which chosen layers force
  if (ctx.sanitized) return;
  Rng& r = ctx.rng;
  size_t n = 4300000 + r.below(100000);
  unsigned w = r.range(20, 40), a = r.range(1, 6), b = r.range(1, 8);
  std::vector<u64> v(n);
  u64 s = r.next() | 1;
  for (auto& x : v) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; x = s & low_mask(w); if ((s >> 58) > 2) x |= u64(1) << (w - 1); }
  std::vector<size_t> units{a, b, w - a - b};
  for (size_t u : units) ctx.in(u);
  ctx.in(s); ctx.in(n);
  ctx.nontrivial();
  ctx.describe(show(n) + " elements in layers " + show_seq(units));
  DacVector d(v, units);
  EQ("dac.size", d.size(), n);
  for (size_t i = 0; i < n; i++) if (d[i] != v[i]) fail("dac.get", "element " + show(i) + " of " + show(n) + ": got " + show((u64)d[i]) + ", expected " + show(v[i]));
  for (int q = 0; q < 2000; q++) { size_t i = r.below(n); EQX("dac.depth", (size_t)d.depth(i), size_t(v[i] >> (a + b) ? 2 : v[i] >> a ? 1 : 0), "element " + show(i)); }
  ctx.event("dac.elements", n);
  ctx.event("dac.explicit_millions");
}

SCENARIO(dac_beyond31, .01) {   // more than 2^31 elements: takes minutes
  if (ctx.sanitized || !ctx.thorough) return;
  arm(1200);
  Rng& r = ctx.rng;
  size_t n = (size_t(1) << 31) + r.below(100000);
  std::vector<uint8_t> v(n, 1);
  std::map<size_t, uint8_t> m;
  for (int k = 0; k < 2000; k++) { size_t p = r.coin() ? r.below(n) : n - 1 - r.below(3000); m[p] = v[p] = r.next() & low_mask(r.range(1, 8)); }
  DacVector d(v);
  EQ("dac.size", d.size(), n);
  for (auto& [p, x] : m) for (size_t q = p ? p - 1 : 0; q < std::min(n, p + 2); q++) EQX("dac.get", d[q], u64(v[q]), "at " + show(q) + " of " + show(n));
  ctx.in(n);
  ctx.event("dac.giant_vectors");
  ctx.nontrivial();
}
SCENARIO(dac_auto_many_layers, 60) {
  // counts falling steeply with each length make the optimiser want a layer per length
  Rng& r = ctx.rng;
  std::vector<u64> v;
  unsigned step = r.range(1, 5), w = r.range(20, 64);
  double cnt = r.range(2000, ctx.sanitized ? 8000 : 30000), f = 0.45 + r.below(40) / 100.0;
  for (unsigned b = step; b <= w && cnt >= 1; b += step, cnt *= f)
    for (int i = 0; i < (int)cnt; i++) v.push_back((1ull << (b - 1)) | (r.next() & low_mask(b - 1)));
  std::shuffle(v.begin(), v.end(), r);
  for (size_t i = 0; i < v.size(); i += 7) ctx.in(v[i]);
  ctx.nontrivial(v.size() > 1);
  DacVector d(v);
  compare(ctx, d, v, nullptr);
  OK("dac.max_layers", d.num_layers() <= 8, show(d.num_layers()));
  ctx.event(("dac.auto_layers_" + show(d.num_layers())).c_str());
  ctx.describe("falling lengths step " + show(step) + " n " + show(v.size()) + " layers " + show(d.num_layers()));
}

SCENARIO(dac_explicit, 6000) {
  Rng& r = ctx.rng;
  std::string what;
  auto v = gen::ints(r, 1 + r.size(250), r.range(1, 64), &what);
  unsigned mx = 1;
  for (u64 x : v) mx = std::max(mx, len(x));
  std::vector<size_t> units;
  size_t sum = 0;
  int style = r.below(5);
  size_t fixed = r.pick<size_t>({1, 2, 3, 4, 8, 16, 32, 64});
  while (sum < mx || (r.chance(1, 6) && sum < 64)) {
    size_t u = style == 0 ? fixed : style == 1 ? 1 + r.below(8) : style == 2 ? 64 : style == 3 ? mx : 1 + r.below(64);
    if (sum + u > 64) { if (sum < mx && r.coin()) u = std::min<size_t>(u, 64); else u = 64 - sum; }
    if (u == 0) break;
    if (r.chance(1, 40)) units.push_back(0); // a layer of no bits
    units.push_back(u);
    sum += u;
  }
  for (u64 x : v) ctx.in(x);
  for (size_t u : units) ctx.in(u);
  ctx.nontrivial(v.size() > 1 && units.size() > 1);
  ctx.describe("explicit " + show_seq(units) + " " + what);
  DacVector d(v, units);
  EQ("dac.num_layers", d.num_layers(), units.size());
  compare(ctx, d, v, &units);
  std::vector<uint8_t> u8s(units.begin(), units.end());
  compare(ctx, DacVector(v, u8s), v, &units);
  ctx.event("dac.explicit");
}

SCENARIO(dac_empty, 8) {
  DacVector a, b(std::vector<u64>{});
  compare(ctx, a, {}, nullptr);
  compare(ctx, b, {}, nullptr);
}
#include "main.inc"
