// C08: WaveletTree against a plain symbol sequence.
#include "mon.hpp"
#include "gen.hpp"
#include "sim_ds/WaveletTree.hpp"
using namespace mon;
using sim_ds::WaveletTree;

static std::vector<u8> seq(Rng& r, size_t n, std::string* what) {
  std::vector<u8> v(n);
  int mode = r.below(8);
  unsigned sigma = r.pick<unsigned>({1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256});
  u8 a = r.below(sigma), b = r.below(sigma);
  std::vector<u8> some;
  for (int i = 0; i < 1 + (int)r.below(6); i++) some.push_back(r.below(sigma));
  for (size_t i = 0; i < n; i++) switch (mode) {
    case 0: v[i] = a; break;
    case 1: v[i] = r.below(2) ? a : b; break;
    case 2: v[i] = r.choose(some); break;      // gaps in the alphabet
    case 3: v[i] = i % sigma; break;
    case 4: v[i] = (i / 70) % sigma; break;    // runs
    case 5: v[i] = r.below(30) ? a : r.below(sigma); break;
    default: v[i] = r.below(sigma);
  }
  *what = "symbols(mode " + show(mode) + ", sigma " + show(sigma) + ", n " + show(n) + ")";
  return v;
}

static void compare(Ctx& ctx, const WaveletTree& t, const std::vector<u8>& v, bool all) {
  size_t n = v.size();
  EQ("wt.size", t.size(), n);
  std::array<size_t, 256> cnt{};
  for (size_t i = 0; i <= n; i++) {
    if (all || i == n || ctx.rng.below(64) == 0) {
      for (int c = 0; c < 256; c++) {
        size_t g = t.rank((u8)c, i);
        if (g != cnt[c]) fail("wt.rank_symbol", "rank(" + show(c) + ", " + show(i) + ") of " + show(n) + ": got " + show(g) + ", expected " + show(cnt[c]));
      }
      ctx.event("wt.symbol_ranks", 256);
    } else {
      int c = ctx.rng.coin() && i < n ? v[i] : ctx.rng.below(256);
      EQX("wt.rank_symbol", t.rank((u8)c, i), cnt[c], "symbol " + show(c) + " at " + show(i) + " of " + show(n));
      ctx.event("wt.symbol_ranks");
    }
    if (i == n) break;
    if ((int)t[i] != (int)v[i]) fail("wt.access", "symbol " + show(i) + " of " + show(n) + ": got " + show((int)t[i]) + ", expected " + show((int)v[i]));
    EQX("wt.rank", t.rank(i), cnt[v[i]], "index " + show(i) + " of " + show(n));
    auto p = t.AccessAndRank(i);
    EQX("wt.access_and_rank", (int)p.first, (int)v[i], "index " + show(i));
    EQX("wt.access_and_rank", (size_t)p.second, cnt[v[i]], "index " + show(i));
    cnt[v[i]]++;
    ctx.event("wt.accesses");
  }
}

static void one(Ctx& ctx, size_t n, bool all) {
  std::string what;
  auto v = seq(ctx.rng, n, &what);
  for (size_t i = 0; i < n; i++) ctx.in(v[i]);
  ctx.nontrivial(n > 1);
  ctx.describe(what);
  switch (ctx.rng.below(4)) {
    case 0: { std::vector<int> w(v.begin(), v.end()); compare(ctx, WaveletTree(w), v, all); break; }
    case 1: { std::vector<u64> w(v.begin(), v.end()); compare(ctx, WaveletTree(w), v, all); break; }
    case 2: { std::vector<uint16_t> w(v.begin(), v.end()); compare(ctx, WaveletTree(w), v, all); break; }
    default: compare(ctx, WaveletTree(v), v, all);
  }
}

SCENARIO(wt_small, 2500) { one(ctx, ctx.rng.size(80), true); }
SCENARIO(wt_medium, 500) { one(ctx, ctx.rng.size(3000), false); }
SCENARIO(wt_large, 8) { one(ctx, ctx.rng.range(20000, ctx.sanitized ? 40000 : 150000), false); }
SCENARIO(wt_scale, .2) { if (ctx.sanitized) return; one(ctx, 1060000 + ctx.rng.below(100000), false); }
SCENARIO(wt_beyond31, .01) {   // a text longer than 2^31: takes a minute
  if (ctx.sanitized || !ctx.thorough) return;
  arm(600);
  Rng& r = ctx.rng;
  size_t n = (size_t(1) << 31) + r.below(100000);
  std::vector<u8> v(n, 0);
  std::map<size_t, u8> m;
  for (int k = 0; k < 200; k++) { size_t p = r.coin() ? r.below(n) : n - 1 - r.below(100); m[p] = v[p] = r.below(4); }
  WaveletTree t(v);
  EQ("wt.size", t.size(), n);
  size_t cnt[4] = {0, 0, 0, 0}, before = 0;
  for (auto& [p, c] : m) {
    cnt[0] += p - before;
    EQX("wt.access", (int)t[p], (int)c, "at " + show(p));
    EQX("wt.rank", t.rank(p), cnt[c], "at " + show(p));
    for (u8 q = 0; q < 4; q++) EQX("wt.rank_symbol", t.rank(q, p), cnt[q], "symbol " + show(int(q)) + " at " + show(p));
    cnt[c]++; before = p + 1;
    ctx.in(p);
  }
  ctx.event("wt.giant_texts");
  ctx.nontrivial();
}
#include "main.inc"
