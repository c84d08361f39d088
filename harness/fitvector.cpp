// C04: packed vector of w-bit elements against std::vector<uint64_t>.
#include "mon.hpp"
#include "gen.hpp"
#include "sim_ds/FitVector.hpp"
using namespace mon;
using sim_ds::FitVector;
using Ref = std::vector<u64>;

static void compare(Ctx& ctx, const FitVector& f, const Ref& m, unsigned w) {
  EQ("fv.size", f.size(), m.size());
  EQ("fv.empty", f.empty(), m.empty());
  EQ("fv.width", f.unit_width(), w);
  for (size_t i = 0; i < m.size(); i++)
    if ((u64)f[i] != m[i]) fail("fv.content", "element " + show(i) + " of " + show(m.size()) + " width " + show(w) + " is " + show((u64)f[i]) + ", expected " + show(m[i]));
  if (w > 0) { // zero-width elements all share one position, so iteration by position cannot advance
    size_t i = 0;
    for (auto it = f.begin(); it != f.end(); ++it, ++i) {
      if (i >= m.size()) fail("fv.iteration", "runs past the end");
      if ((u64)*it != m[i]) fail("fv.iteration", "iterated element " + show(i) + " width " + show(w));
    }
    EQ("fv.iteration", i, m.size());
  }
  if (!m.empty()) {
    EQ("fv.front", (u64)f.front(), m.front());
    EQ("fv.back", (u64)f.back(), m.back());
  }
  ctx.event("fv.full_compares");
}

template <class F> static void at_throws(F& f, size_t i) {
  bool t = false;
  try { (void)(u64)f.at(i); } catch (const std::out_of_range&) { t = true; }
  OK("fv.at_throws", t, "at(" + show(i) + ") of " + show(f.size()));
}

static void iter_ops(Ctx& ctx, FitVector& f, Ref& m, unsigned w) {
  Rng& r = ctx.rng;
  size_t n = m.size();
  const FitVector& cf = f;
  size_t i = r.below(n + 1), j = r.below(n + 1);
  auto a = f.begin() + i, b = f.begin() + j;
  FitVector::const_iterator ca = a, cb = cf.begin() + j;
  EQ("fv.iter_diff", (long long)(a - b), (long long)i - (long long)j);
  EQ("fv.iter_diff", (long long)(cb - ca), (long long)j - (long long)i);
  EQ("fv.iter_lt", a < b, i < j);
  EQ("fv.iter_gt", a > b, i > j);
  EQ("fv.iter_le", ca <= cb, i <= j);
  EQ("fv.iter_ge", ca >= cb, i >= j);
  EQ("fv.iter_eq", a == b, i == j);
  EQ("fv.iter_ne", a != b, i != j);
  auto t = a;
  t += (long long)j - (long long)i;
  OK("fv.iter_jump", t == b, show(i) + "->" + show(j) + " w " + show(w));
  t -= (long long)j - (long long)i;
  OK("fv.iter_jump", t == a, show(j) + "->" + show(i) + " w " + show(w));
  OK("fv.iter_end", f.end() - (long long)(n - i) == a, "");
  if (i < n) {
    EQ("fv.iter_deref", (u64)*a, m[i]);
    EQ("fv.iter_deref", (u64)*ca, m[i]);
    auto k = a;
    OK("fv.iter_postinc", k++ == a && k == a + 1, "");
    OK("fv.iter_postdec", k-- == a + 1 && k == a, "");
    OK("fv.iter_preinc", ++k == a + 1, "");
    OK("fv.iter_predec", --k == a, "");
    OK("fv.ref_addr", &f[i] == a, "");
    OK("fv.ref_addr", &cf[i] == FitVector::const_iterator(a) && (u64)*&cf[i] == m[i], "");
    FitVector::const_reference cr = f[i];
    OK("fv.ref_addr", &cr == cf.begin() + i && (u64)cr == m[i], "");
    u64 x = r.value(w);
    *a = x; m[i] = x;
    size_t d = r.below(n - i);
    EQ("fv.iter_index", (u64)a[d], m[i + d]);
    u64 y = r.value(w);
    a[d] = y; m[i + d] = y;
    size_t s = r.below(n);
    f[i] = f[s]; m[i] = u64(m[s]);
  }
  if (i <= j) {
    u64 acc = 0, e = 0;
    for (auto it = cf.begin() + i; it != cf.begin() + j; ++it) acc = acc * 31 + (u64)*it;
    for (size_t q = i; q < j; q++) e = e * 31 + m[q];
    EQ("fv.range", acc, e);
    if (r.chance(1, 3)) {
      u64 x = r.value(w);
      for (auto it = f.begin() + i; it != f.begin() + j; it++) *it = x;
      std::fill(m.begin() + i, m.begin() + j, x);
    }
  }
  if (w) { // elements of no bits have no places of their own
    gen::iter_walk<FitVector::iterator, u64>(ctx, "fv", n, [&](size_t k) { return f.begin() + (long long)k; }, [&](size_t k) { return m[k]; });
    gen::iter_walk<FitVector::const_iterator, u64>(ctx, "fv", n, [&](size_t k) { return cf.begin() + (long long)k; }, [&](size_t k) { return m[k]; });
  }
  ctx.event("fv.iter_ops");
}

static void history(Ctx& ctx, size_t maxn, int ops, unsigned w) {
  Rng& r = ctx.rng;
  Ref m;
  FitVector f(w);
  size_t n = maxn > 65536 ? maxn : r.size(maxn);
  int ctor = r.below(5);
  ctx.in(w); ctx.in(ctor); ctx.in(n);
  auto val = [&] { return r.value(w); };
  switch (ctor) {
    case 0: break;
    case 1: f = FitVector(w, n); m = Ref(n, 0); break;
    case 2: { u64 x = val(); f = FitVector(w, n, x); m = Ref(n, x); break; }
    case 3: for (size_t i = 0; i < n; i++) { u64 x = val(); f.push_back(x); m.push_back(x); } break;
    default: f = FitVector(w, n); m = Ref(n); for (size_t i = 0; i < n; i++) { u64 x = val(); f[i] = x; m[i] = x; }
  }
  std::string trace = "w" + show(w) + " ctor" + show(ctor) + "(" + show(n) + ")";
  compare(ctx, f, m, w);
  for (int k = 0; k < ops; k++) {
    int op = r.below(11);
    ctx.in(op);
    size_t s = m.size();
    if (trace.size() < 300) trace += " op" + show(op);
    switch (op) {
      case 0: case 1: { int c = 1 + r.below(r.coin() ? 4 : 90); while (c--) { u64 x = val(); f.push_back(x); m.push_back(x); } break; }
      case 2: case 3: { size_t t = r.coin() ? r.below(s + 1) : r.size(maxn); f.resize(t); m.resize(t, 0); ctx.in(t); break; }
      case 4: { size_t t = r.coin() ? s + r.below(100) : r.size(maxn); u64 x = val(); f.resize(t, x); m.resize(t, x); ctx.in(t); break; }
      case 5: { size_t t = r.size(maxn); u64 x = val(); f.assign(t, x); m.assign(t, x); ctx.in(t); break; }
      case 6: case 7: for (int q = 0; q < 12 && s; q++) { size_t i = r.below(s); u64 x = val(); if (r.coin()) f[i] = x; else f.at(i) = x; m[i] = x; } break;
      case 8: if (w > 0) iter_ops(ctx, f, m, w); break;
      case 9: {
        size_t room = r.below(2 * maxn);
        f.reserve(room);
        if (room > s) {   // growth within the room moves nothing
          auto at = f.begin();
          while (r.below(4)) {
            size_t t = r.coin() ? m.size() + 1 : m.size() + r.below(room - m.size() + 1);
            if (t > room || t == m.size()) break;
            u64 x = val();
            if (t == m.size() + 1 && r.coin()) f.push_back(x); else f.resize(t, x);
            m.resize(t, x);
          }
          OK("fv.reserved", f.begin() == at, "the elements moved while growing from " + show(s) + " to " + show(m.size()) + " with " + show(room) + " reserved, width " + show(w));
          ctx.event("fv.reserves");
          compare(ctx, f, m, w);
          s = m.size();
        }
        }
        if (s) { u64 x = val(), y = val(); f.front() = x; m.front() = x; f.back() = y; m.back() = y; } at_throws(f, s + r.below(3)); at_throws(std::as_const(f), s); break;
      default: { FitVector c(f); Ref mc = m; u64 x = val(); c.push_back(x); mc.push_back(x); compare(ctx, c, mc, w); if (r.coin()) { f = c; m = mc; } }
    }
    ctx.event("fv.ops");
    compare(ctx, f, m, w);
  }
  ctx.nontrivial(m.size() > 1 || ops > 5);
  ctx.describe(trace + " final " + show_seq(m, 6));
}

SCENARIO(fv_history, 9000) { history(ctx, 150, 16, ctx.index < 650 ? ctx.index % 65 : ctx.rng.below(65)); }
SCENARIO(fv_medium_history, 500) { history(ctx, 3000, 12, ctx.rng.below(65)); }
SCENARIO(fv_large, 24) { history(ctx, 60000, 4, ctx.rng.range(1, 64)); }

SCENARIO(fv_from_list, 4000) {
  Rng& r = ctx.rng;
  std::string what;
  auto v = gen::ints(r, r.size(400), 64, &what);
  u64 mx = v.empty() ? 0 : *std::max_element(v.begin(), v.end());
  unsigned w = v.empty() ? 0 : mx == 0 ? 1 : 64 - __builtin_clzll(mx);
  FitVector f(v);
  compare(ctx, f, v, w);
  if (w <= 32) { std::vector<uint32_t> v32(v.begin(), v.end()); compare(ctx, FitVector(v32), v, w); }
  if (w <= 8) { std::vector<uint8_t> v8(v.begin(), v.end()); compare(ctx, FitVector(v8), v, w); }
  std::vector<unsigned long long> vl(v.begin(), v.end());
  compare(ctx, FitVector(vl), v, w);
  for (u64 x : v) ctx.in(x);
  ctx.nontrivial(v.size() > 1);
  ctx.describe(what);
  ctx.event("fv.lists");
}

// every width, every in-word offset: one write between neighbours of all ones / all zeros
// Lists whose elements take no bits at all: a list built from an empty list, and counted lists of zeros.
SCENARIO(fv_no_width, 300) {
  Rng& r = ctx.rng;
  auto none = [&](FitVector& f) {
    const FitVector& cf = f;
    EQ("fv.empty", f.empty(), true);
    EQ("fv.iter_diff", (long long)(f.end() - f.begin()), 0ll);
    EQ("fv.iter_diff", (long long)(cf.end() - cf.begin()), 0ll);
    EQ("fv.iter_eq", f.begin() == f.end(), true);
    EQ("fv.iter_lt", f.begin() < f.end(), false);
    size_t c = 0;
    for (u64 x : cf) { (void)x; c++; }
    EQ("fv.iteration", c, (size_t)0);
    at_throws(f, 0);
    at_throws(cf, r.below(4));
    ctx.event("fv.empty_lists");
  };
  { FitVector f{std::vector<u64>()}; EQ("fv.width", f.unit_width(), (size_t)0); none(f); FitVector c(f); none(c); f.resize(0); none(f); }
  { FitVector f{std::vector<uint8_t>()}; none(f); }
  { FitVector f(0); none(f); }
  { unsigned w = ctx.index % 65; FitVector f(w); none(f); Ref m(r.below(80), 0); f.resize(m.size()); compare(ctx, f, m, w); f.resize(0); none(f); f.assign(0, 0); none(f); ctx.in(w); }
  { Ref m(r.size(300), 0); FitVector f(0, m.size()); compare(ctx, f, m, 0); f.push_back(0); m.push_back(0); compare(ctx, f, m, 0); ctx.in(m.size()); }
  ctx.nontrivial(true);
}

SCENARIO(fv_neighbours, 65) {
  unsigned w = ctx.index % 65;
  ctx.in(w);
  for (u64 bg : {u64(0), low_mask(w)})
    for (size_t i = 0; i < 130; i++) {
      FitVector f(w, 130, bg);
      u64 x = ctx.rng.value(w);
      f[i] = x;
      for (size_t k = 0; k < 130; k++)
        if ((u64)f[k] != (k == i ? x : bg)) fail("fv.neighbour", "width " + show(w) + " write " + show(i) + " read " + show(k));
      ctx.event("fv.neighbour_writes");
    }
  ctx.nontrivial(w > 0);
  ctx.describe("width " + show(w));
}

SCENARIO(fv_scale, 10) {  // more elements than a 16-bit count holds, by every way of construction
  unsigned w = ctx.rng.pick<unsigned>({1, 3, 8, 13, 16, 31, 63});
  history(ctx, 65600 + ctx.rng.below(80000), 12, w);
}

// elements whose bits lie beyond position 2^32
SCENARIO(fv_beyond32, .2) {
  if (ctx.sanitized) return;
  Rng& r = ctx.rng;
  unsigned w = r.pick<unsigned>({33, 47, 61, 63, 64});
  size_t n = (size_t(1) << 32) / w + 100 + r.below(1000);
  u64 base = r.value(w);
  FitVector f(w, n, base);
  std::map<size_t, u64> m;
  auto val = [&](size_t i) { auto it = m.find(i); return it == m.end() ? base : it->second; };
  for (int k = 0; k < 300; k++) {
    size_t i = r.below(3) ? n - 1 - r.below(1000) : r.below(n);
    u64 v = r.value(w);
    switch (r.below(4)) { case 0: f[i] = v; break; case 1: f.at(i) = v; break; case 2: *(f.begin() + i) = v; break; default: *(f.end() - (long long)(n - i)) = v; }
    m[i] = v;
  }
  OK("fv.iter_diff", f.end() - f.begin() == (long long)n, "distance of " + show(n));
  u64 x = r.value(w);
  f.push_back(x); m[n] = x;
  EQ("fv.size", f.size(), n + 1);
  size_t alias = (size_t(1) << 32) / w;
  for (auto& [p, v] : m)
    for (size_t q : {p, p + 1, p - 1, p - alias, p - alias + 1, p - alias - 1})
      if (q <= n && (u64)std::as_const(f)[q] != val(q)) fail("fv.content", "element " + show(q) + " of " + show(n) + " width " + show(w));
  for (size_t q = 0; q < 2000; q++) if ((u64)f[q] != val(q)) fail("fv.content", "element " + show(q) + " of " + show(n) + " width " + show(w));
  at_throws(f, n + 1);
  ctx.in(n); ctx.in(w); ctx.nontrivial();
  ctx.event("fv.ops", 300);
  ctx.describe(show(n) + " x " + show(w) + " bits");
}
#include "main.inc"
