// C28: reported and serialised sizes against the documented space.
#include "mon.hpp"
#include "gen.hpp"
#include "sim_ds/SuccinctBitVector.hpp"
#include "sim_ds/FitVector.hpp"
#include "sim_ds/DacVector.hpp"
#include "sim_ds/MultiBitVector.hpp"
#include "sim_ds/MultipleVector.hpp"
#include "sim_ds/WaveletTree.hpp"
#include "sim_ds/InitializableArray.hpp"
#include "sim_ds/string_util/SuffixArray.hpp"
#include "sim_ds/string_util/Samc.hpp"
using namespace mon;
using namespace sim_ds;

template <class T> static size_t written(const T& t) { std::ostringstream o; t.Write(o); return o.str().size(); }
// reported and written bytes: at least `low` bits of data, at most `high` bits plus `slack` bytes
static void within(Ctx& ctx, const char* what, size_t reported, size_t wr, double low, double high, double slack, const std::string& how) {
  std::string s = how + ", data " + show((size_t)low) + " bits, allowed " + show((size_t)high) + " bits + " + show((size_t)slack) + " bytes, reported " + show(reported) + " bytes, written " + show(wr);
  if (getenv("SPACE_SHOW")) fprintf(stderr, "%s excess %g %s\n", what, double(std::max(reported, wr)) - high / 8, s.c_str());
  if (reported * 8.0 < low || wr * 8.0 < low) fail(std::string("space.short:") + what, "too few bytes: " + s);
  if (reported > high / 8 + slack) fail(std::string("space.reported:") + what, "too many bytes: " + s);
  if (wr > high / 8 + slack) fail(std::string("space.written:") + what, "too many bytes: " + s);
  if (reported + 64 + wr / 64 < wr) fail(std::string("space.understated:") + what, "fewer bytes reported than written: " + s);
  ctx.event("space.objects");
  ctx.event("space.bytes", reported);
}
static size_t big(Ctx& ctx, size_t max) { return ctx.rng.coin() ? ctx.rng.size(max / 20) : ctx.rng.size(max); }

SCENARIO(sp_bits, 300) {
  Rng& r = ctx.rng;
  std::string what;
  auto b = gen::bits(r, big(ctx, ctx.sanitized ? 40000 : 400000), &what);
  BitVector v;
  if (r.coin()) v = BitVector(b); else if (r.coin()) for (bool x : b) v.push_back(x); else { v.resize(b.size() + r.below(5000)); v.resize(b.size()); for (size_t i = 0; i < b.size(); i++) v[i] = b[i]; }
  double n = b.size(), ones = std::count(b.begin(), b.end(), true);
  within(ctx, "BitVector", v.size_in_bytes(), written(v), n, n, 96, what);
  SuccinctBitVector<false> f(v);
  within(ctx, "SuccinctBitVector<false>", f.size_in_bytes(), written(f), n, n * 1.25, 128, what);
  SuccinctBitVector<true> t(std::move(v));
  within(ctx, "SuccinctBitVector<true>", t.size_in_bytes(), written(t), n, n * 1.25 + 32 * (ones / 512), 160, what);
  ctx.in(n); ctx.in(ones); ctx.nontrivial(n > 1000);
  ctx.describe(what);
}
SCENARIO(sp_fit, 300) {
  Rng& r = ctx.rng;
  unsigned w = r.below(65);
  size_t n = big(ctx, 20000);
  FitVector v(w);
  if (r.coin()) for (size_t i = 0; i < n; i++) v.push_back(r.value(w));
  else { v.resize(n + r.below(500)); v.resize(n); }
  within(ctx, "FitVector", v.size_in_bytes(), written(v), double(n) * w, double(n) * w, 64, show(n) + " x " + show(w) + " bits");
  auto l = gen::ints(r, n, 64);
  u64 m = 0; for (u64 x : l) m = std::max(m, x);
  size_t need = m ? 64 - __builtin_clzll(m) : 1;
  FitVector g(l);
  within(ctx, "FitVector(list)", g.size_in_bytes(), written(g), double(n) * (m ? need : 0), double(n) * need, 64, show(n) + " values of at most " + show(need) + " bits");
  ctx.in(n); ctx.in(w); ctx.in(m); ctx.nontrivial(n > 10);
  ctx.describe(show(n) + " x " + show(w));
}
static void dac(Ctx& ctx, const std::vector<u64>& l, const std::string& what) {
  u64 m = 0; double bits = 0;
  for (u64 x : l) { m = std::max(m, x); bits += x ? 64 - __builtin_clzll(x) : 1; }
  size_t need = m ? 64 - __builtin_clzll(m) : 1;
  DacVector d(l);
  double n = l.size();
  within(ctx, "DacVector", d.size_in_bytes(), written(d), l.empty() ? 0 : bits, n * need, 700, what + " in " + show(d.num_layers()) + " layers");
  if (d.num_layers() > 1) ctx.event("space.layered");
  // an explicit split takes its layers and one rank bit per element that could go on
  if (!l.empty()) {
    std::vector<size_t> u; size_t got = 0;
    while (got < need) { u.push_back(1 + ctx.rng.below(std::min<size_t>(24, need - got))); got += u.back(); }
    double sz = 0, alive = n; size_t off = 0;
    for (size_t k = 0; k < u.size(); k++) { alive = 0; for (u64 x : l) alive += k == 0 || (off < 64 && x >> off); sz += alive * u[k] + (k + 1 < u.size() ? alive * 1.25 : 0); off += u[k]; }
    DacVector e(l, u);
    within(ctx, "DacVector(units)", e.size_in_bytes(), written(e), bits, sz, 64 + 176 * u.size(), what + " in units " + show_seq(u));
  }
}
SCENARIO(sp_dac, 300) {
  std::string what;
  auto l = gen::ints(ctx.rng, big(ctx, ctx.sanitized ? 6000 : 30000), 64, &what);
  dac(ctx, l, what);
  for (u64 x : l) ctx.in(x);
  ctx.nontrivial(l.size() > 10);
  ctx.describe(what);
}
SCENARIO(sp_dac_layers, 16) {
  Rng& r = ctx.rng;
  std::vector<u64> v;
  // lengths fall off geometrically: many layers pay, more than the eight allowed
  double n = (ctx.thorough ? 100000 : 20000) * (1 + r.below(4)), q = 0.3 + 0.65 * double(r.below(1000)) / 1000;
  int step = 1 + r.below(6);
  for (int b = 1 + r.below(3); b <= 64; b += r.coin() ? step : 1 + r.below(step)) { for (size_t k = 0; k < (size_t)n; k++) v.push_back((1ull << (b - 1)) | (r.next() & low_mask(b - 1))); n *= q; if (n < 1) n = 1; }
  std::shuffle(v.begin(), v.end(), r);
  dac(ctx, v, show(v.size()) + " values of geometric lengths");
  ctx.in(v.size()); ctx.in(v[0]);
  ctx.nontrivial();
  ctx.describe(show(v.size()) + " values of geometric lengths");
}
SCENARIO(sp_dac_shares, 60) {   // two or three lengths in all proportions: layering pays narrowly or not at all
  Rng& r = ctx.rng;
  size_t n = ctx.sanitized ? 8000 : 60000 + r.below(60000);
  unsigned a = 1 + r.below(16), b = a + 1 + r.below(r.coin() ? 6 : 64 - a), c = std::min<unsigned>(64, b + 1 + r.below(20));
  u64 share = r.below(1000), third = r.below(2) ? 0 : r.below(1000 - share + 1);
  if (ctx.index % 2) {   // the layers save about as much as the marks of the first one take
    if (b - a < 2) b = a + 2;
    share = 1000 - (950 + r.below(400)) / (b - a), third = 0;
  }
  std::vector<u64> v(n);
  for (auto& x : v) { u64 q = r.below(1000); unsigned l = q < share ? b : q < share + third ? c : a; l = std::min(l, 64u); x = (1ull << (l - 1)) | (r.next() & low_mask(l - 1)); }
  std::string what = show(n) + " values of " + show(a) + " bits, " + show(share) + " in 1000 of " + show(b) + " bits, " + show(third) + " in 1000 of " + show(c) + " bits";
  dac(ctx, v, what);
  ctx.in(n); ctx.in(a); ctx.in(b); ctx.in(share); ctx.in(third);
  ctx.nontrivial();
  ctx.describe(what);
}
template <unsigned K> static void multi(Ctx& ctx, size_t n) {
  MultiBitVector<K> m;
  u64 top = 1 + ctx.rng.below(1u << K), used = 0;
  for (size_t i = 0; i < n; i++) { u64 s = ctx.rng.below(top); m.set(i, s); used = std::max(used, s); }
  m.build();
  double per = 64.0 / (64 / K * K), words = n * K * per / 64, tip = (8 + (4 * K + 7) / 8 * 8) * 8;
  within(ctx, K == 1 ? "MultiBitVector<1>" : K == 2 ? "MultiBitVector<2>" : "MultiBitVector<3>", m.size_in_bytes(), written(m), double(n) * K, words * 64 + used * words / (4 * K) * tip, 96 + 40 * (1 << K), show(n) + " symbols up to " + show(used));
  ctx.in(n); ctx.in(used);
}
SCENARIO(sp_multi, 200) {
  size_t n = big(ctx, 60000);
  multi<1>(ctx, n); multi<2>(ctx, n); multi<3>(ctx, n);
  ctx.nontrivial(n > 1000);
  ctx.describe(show(n) + " symbols");
}
SCENARIO(sp_wavelet, 150) {
  Rng& r = ctx.rng;
  size_t n = big(ctx, 60000);
  unsigned sig = 1 + r.below(r.pick<unsigned>({2, 5, 16, 64, 256}));
  std::vector<u8> v(n);
  unsigned m = 0;
  for (auto& x : v) { x = r.below(sig); m = std::max<unsigned>(m, x); }
  size_t h = 1; while ((1u << h) < m + 1) h++;
  WaveletTree w(v);
  within(ctx, "WaveletTree", w.size_in_bytes(), written(w), n ? double(n) * (m ? h : 0) : 0, double(n) * h * 1.25, 96 + 128.0 * (1 << h), show(n) + " symbols up to " + show(m));
  ctx.in(n); ctx.in(m); ctx.nontrivial(n > 1000);
  ctx.describe(show(n) + " symbols up to " + show(m));
}
SCENARIO(sp_records, 100) {
  Rng& r = ctx.rng;
  MultipleVector t;
  std::vector<size_t> e; size_t sum = 0;
  for (int k = 2 + r.below(5); k--;) { e.push_back(1 + r.below(8)); sum += e.back(); }
  t.set_element_sizes(e);
  size_t n = r.below(4000);
  if (r.coin()) t.resize(n, {1, 2}); else for (size_t i = 0; i < n; i++) t.push_back({i, i});
  std::ostringstream o; t.StoreTo(o);
  within(ctx, "MultipleVector", t.size_in_bytes(), o.str().size(), double(n) * sum * 8, double(n) * sum * 8, 160, show(n) + " records of " + show(sum) + " bytes");
  ctx.in(n); ctx.in(sum); ctx.nontrivial(n > 10);
  ctx.describe(show(n) + " records");
}
SCENARIO(sp_suffix, 40) {
  std::string s = gen::text(ctx.rng, big(ctx, 8000));
  SuffixArray a(s);
  size_t n = s.size(), w = n > 1 ? 64 - __builtin_clzll(n - 1) : 1;
  size_t b = written(a);
  within(ctx, "SuffixArray", b, b, n * 8.0 + (n > 1 ? n * double(w) : 0), n * 8.0 + 2.0 * n * w, 96, show(n) + " bytes");
  ctx.in(s); ctx.nontrivial(n > 10);
  ctx.describe(show(n) + " bytes");
}
template <class D> static void keyed(const char* what, Ctx& ctx, const std::vector<std::string>& k, size_t chars) {
  D d(k.begin(), k.end());
  size_t b = written(d);
  within(ctx, what, d.size_in_bytes(), b, 0, 8.0 * (d.size_in_bytes() + b), 0, show(k.size()) + " keys, " + show(chars) + " bytes");
}
SCENARIO(sp_keys, 60) {
  Rng& r = ctx.rng;
  std::set<std::string> s; size_t chars = 0;
  unsigned sig = 1 + r.below(254), ml = 1 + r.below(12);
  for (size_t n = big(ctx, 600); n--;) { std::string k; for (size_t l = r.below(ml + 1); l--;) k += char(1 + r.below(sig)); s.insert(k); }
  std::vector<std::string> k(s.begin(), s.end());
  for (auto& x : k) chars += x.size();
  if (k.empty()) return;
  keyed<Samc<int>>("Samc", ctx, k, chars);
  keyed<SamcDict<int>>("SamcDict", ctx, k, chars);
  ctx.in(chars); ctx.in(k.size()); ctx.nontrivial(k.size() > 10);
  ctx.describe(show(k.size()) + " keys");
}
template <class T, size_t N> static void lazy(Ctx& ctx) { size_t b = sizeof(InitializableArray<T, N>); within(ctx, "InitializableArray", b, b, N * sizeof(T) * 8.0, N * sizeof(T) * 8.0, 64, show(N) + " elements of " + show(sizeof(T)) + " bytes in place"); }
SCENARIO(sp_lazy, 1) {
  lazy<u64, 1>(ctx); lazy<u64, 2>(ctx); lazy<u64, 1000>(ctx); lazy<u64, 4097>(ctx); lazy<uint32_t, 1000>(ctx); lazy<uint16_t, 3001>(ctx); lazy<uint8_t, 200>(ctx); lazy<double, 512>(ctx);
  ctx.nontrivial();
  ctx.in(ctx.index);
}
#include "main.inc"
