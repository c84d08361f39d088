// C02 rank / C03 select of the succinct bit vector against prefix counts and the list of ones.
#include "mon.hpp"
#include "gen.hpp"
#include "sim_ds/SuccinctBitVector.hpp"
using namespace mon;
using sim_ds::BitVector;
template <bool S> using Sbv = sim_ds::SuccinctBitVector<S>;
#ifndef PART
#define PART 3   // 1: rank only, 2: select only
#endif

// A BitVector with content v, reached in different ways (stale bits behind its end included).
static BitVector make_bv(Rng& r, const std::vector<bool>& v) {
  size_t n = v.size();
  switch (r.below(5)) {
    case 0: return BitVector(v);
    case 1: { BitVector b; for (bool x : v) b.push_back(x); return b; }
    case 2: { BitVector b(n + 1 + r.below(700), true); for (size_t i = 0; i < n; i++) b[i] = v[i]; b.resize(n); return b; }   // ones stay behind the end
    case 3: { BitVector b(r.below(n + 1), r.coin()); b.resize(n, r.coin()); for (size_t i = 0; i < n; i++) b[i] = v[i]; return b; }
    default: { BitVector b(n, true); for (size_t i = 0; i < n; i++) b[i] = v[i]; return b; }
  }
}

template <bool S> static Sbv<S> make(Ctx& ctx, const std::vector<bool>& v) {
  Rng& r = ctx.rng;
  int how = r.below(6);
  ctx.in(how);
  switch (how) {
    case 0: return Sbv<S>(make_bv(r, v));                       // move
    case 1: { BitVector b = make_bv(r, v); return Sbv<S>(b); }   // copy
    case 2: {
      Sbv<S> s(make_bv(r, v));
      std::stringstream ss;
      s.Write(ss);
      return Sbv<S>(ss);
    }
    case 3: {
      Sbv<S> s(make_bv(r, v));
      std::stringstream ss;
      s.Write(ss);
      Sbv<S> t(make_bv(r, gen::bits(r, r.below(3000))));
      t.Read(ss);
      return t;
    }
    case 4: { BitVector b = make_bv(r, v); Sbv<S> s(b); if (b.size()) b[0] = !bool(b[0]); b.resize(0); Sbv<S> t; t = s; return t; }
    default: if (v.empty()) return Sbv<S>(); return Sbv<S>(make_bv(r, v));
  }
}

template <bool S> static void check_rank(Ctx& ctx, const Sbv<S>& s, const std::vector<bool>& v) {
  size_t n = v.size();
  EQ("sbv.size", s.size(), n);
  if (n) {
    EQX("sbv.data_aligned", uintptr_t(s.data()) % 32, 0u, show(n) + " bits");
    for (size_t q = 0; q < 4; q++) { size_t i = q ? ctx.rng.below(n) : n - 1; EQX("sbv.words", s.data()[i / 64] >> i % 64 & 1, u64(v[i]), "bit " + show(i) + " of " + show(n)); }
  }
  size_t ones = 0;
  for (size_t i = 0; i <= n; i++) {
    if (s.rank(i) != ones) fail("sbv.rank", "rank(" + show(i) + ") of " + show(n) + " bits: got " + show(s.rank(i)) + ", expected " + show(ones));
    if (s.rank_1(i) != ones) fail("sbv.rank_1", "rank_1(" + show(i) + ") of " + show(n));
    if (s.rank_0(i) != i - ones) fail("sbv.rank_0", "rank_0(" + show(i) + ") of " + show(n));
    if (i < n) {
      if (s[i] != v[i]) fail("sbv.access", "bit " + show(i) + " of " + show(n));
      ones += v[i];
    }
  }
  ctx.event("sbv.ranks", n + 1);
  ctx.event("sbv.rank_vectors");
}

static void check_select(Ctx& ctx, const Sbv<true>& s, const std::vector<bool>& v) {
  size_t k = 0;
  for (size_t i = 0; i < v.size(); i++)
    if (v[i]) {
      size_t p = s.select(k);
      if (p != i) fail("sbv.select", "select(" + show(k) + ") of " + show(v.size()) + " bits: got " + show(p) + ", expected " + show(i));
      if (k % 7 == 0 && s.rank(p) != k) fail("sbv.select_rank", "rank(select(" + show(k) + "))");
      if (!s[p]) fail("sbv.select_bit", "bit at select(" + show(k) + ") is clear");
      k++;
    }
  ctx.event("sbv.selects", k);
  ctx.event("sbv.select_vectors");
  if (k > 512) ctx.event("sbv.select_vectors_over_512_ones");
}

static void one(Ctx& ctx, size_t n) {
  std::string what;
  auto v = gen::bits(ctx.rng, n, &what);
  ctx.in(n);
  for (size_t i = 0; i < n; i += 61) ctx.in(v[i]);
  size_t c = std::count(v.begin(), v.end(), true);
  ctx.in(c);
  ctx.describe(what + ", " + show(c) + " ones");
  if (PART & 1) {
    check_rank(ctx, make<true>(ctx, v), v);
    check_rank(ctx, make<false>(ctx, v), v);
    ctx.nontrivial(n > 64);
  }
  if (PART & 2) {
    check_select(ctx, make<true>(ctx, v), v);
    ctx.nontrivial(c > 1);
  }
}

SCENARIO(sbv_small, 12000) { one(ctx, ctx.rng.size(700)); }
SCENARIO(sbv_boundary, 3000) { size_t u = ctx.rng.pick<size_t>({64, 512, 512, 512, 4096}); long k = ctx.rng.below(24); long n = k * (long)u + (long)ctx.rng.below(5) - 2; one(ctx, n < 0 ? 0 : n); }
SCENARIO(sbv_medium, 900) { one(ctx, ctx.rng.size(40000)); }
SCENARIO(sbv_large, 24) { one(ctx, ctx.rng.range(100000, ctx.sanitized ? 300000 : 1200000)); }
SCENARIO(sbv_huge, 1) {
  // more than 2^22 bits with ones far apart and then dense: hints and counters beyond 16 bits
  Rng& r = ctx.rng;
  size_t n = (1u << 22) + r.below(5000);
  if (ctx.sanitized) n = (1u << 19) + r.below(5000);
  std::vector<bool> v(n);
  size_t half = r.below(n);
  for (size_t i = half; i < n; i++) v[i] = r.below(8) != 0;
  for (int k = 0; k < 20; k++) v[r.below(n)] = true;
  ctx.in(half);
  ctx.nontrivial();
  ctx.describe("sparse then dense, n " + show(n));
  if (PART & 1) check_rank(ctx, make<true>(ctx, v), v);
  if (PART & 2) check_select(ctx, make<true>(ctx, v), v);
}

// Vectors too long to hold a reference list of: words all alike except for a few flipped bits, so that every
// rank and select has a closed form.
static void giant(Ctx& ctx, size_t n, u64 word, size_t flips) {
  Rng& r = ctx.rng;
  std::vector<size_t> flip;
  for (size_t k = 0; k < flips; k++) { size_t p = r.below(4) ? r.below(n) : n - 1 - r.below(std::min<size_t>(n, 3000)); flip.push_back(p); }
  std::sort(flip.begin(), flip.end());
  flip.erase(std::unique(flip.begin(), flip.end()), flip.end());
  BitVector b(n, word == ~0ull);
  if (word != ~0ull && word) for (size_t i = 0; i < n; i++) if (word >> (i % 64) & 1) b[i] = true;
  auto base = [&](size_t i) { return bool(word >> (i % 64) & 1); };
  std::vector<long long> delta{0};       // change of the number of ones made by the first k flips
  for (size_t p : flip) { b[p] = !base(p); delta.push_back(delta.back() + (base(p) ? -1 : 1)); }
  u64 per = __builtin_popcountll(word);
  auto rank = [&](size_t i) -> size_t {
    size_t k = std::lower_bound(flip.begin(), flip.end(), i) - flip.begin();
    return i / 64 * per + __builtin_popcountll(word & low_mask(i % 64)) + delta[k];
  };
  auto bit = [&](size_t i) { return base(i) != std::binary_search(flip.begin(), flip.end(), i); };
  Sbv<true> s(std::move(b));
  std::vector<size_t> at{0, 1, n - 1, n};
  for (size_t p : flip) for (size_t d : {0, 1, 64, 512}) if (p + d <= n) at.push_back(p + d);
  for (int k = 0; k < 200000; k++) at.push_back(r.coin() ? r.below(n + 1) : r.below(n / 64 + 1) * 64);
  size_t total = rank(n);
  auto sel = [&](size_t k) { size_t lo = 0, hi = n; while (lo + 1 < hi) { size_t m = lo + (hi - lo) / 2; if (rank(m) <= k) lo = m; else hi = m; } return lo; };
  size_t ranks = 0, selects = 0;
  for (size_t i : at) {
    if (PART & 1) {
      if (s.rank(i) != rank(i)) fail("sbv.rank", "rank(" + show(i) + ") of " + show(n) + " bits: got " + show(s.rank(i)) + ", expected " + show(rank(i)));
      if (s.rank_0(i) != i - rank(i)) fail("sbv.rank_0", "rank_0(" + show(i) + ") of " + show(n));
      if (i < n && s[i] != bit(i)) fail("sbv.access", "bit " + show(i) + " of " + show(n));
      ranks++;
    }
    if ((PART & 2) && total) {
      size_t k = i < n && bit(i) ? rank(i) : r.below(total);
      if (r.below(4) == 0) k = std::min(total - 1, k / 512 * 512 + r.below(3));
      size_t e = sel(k), p = s.select(k);
      if (p != e) fail("sbv.select", "select(" + show(k) + ") of " + show(n) + " bits: got " + show(p) + ", expected " + show(e));
      selects++;
    }
  }
  ctx.in(n); ctx.in(word); ctx.in(flip.empty() ? 0 : flip[0]);
  ctx.event("sbv.giant_vectors");
  if (PART & 1) ctx.event("sbv.ranks", ranks);
  if (PART & 2) ctx.event("sbv.selects", selects);
  ctx.nontrivial();
  ctx.describe(show(n) + " bits, word " + show(word) + ", " + show(flip.size()) + " flipped");
}
SCENARIO(sbv_scale, 1) {   // more than 2^16 blocks
  if (ctx.sanitized) return;
  Rng& r = ctx.rng;
  giant(ctx, (size_t(1) << 25) + r.below(size_t(1) << 23), r.pick<u64>({~0ull, 0, ~0ull, 0x8000000000000001ull, 1ull << 20}), r.pick<size_t>({20, 2000, 30000}));
}
SCENARIO(sbv_beyond32, .5) {   // more than 2^32 positions, once with more than 2^32 ones and once with few
  if (ctx.sanitized) return;
  Rng& r = ctx.rng;
  giant(ctx, (size_t(1) << 32) + 1000 + r.below(100000000), ctx.index & 1 ? 0 : ~0ull, 3000);
}
#if PART & 1
SCENARIO(sbv_literal, 4) {
  Sbv<true> a{true, false, true, true};
  Sbv<false> b{false, true, true, false, true};
  check_rank(ctx, a, {true, false, true, true});
  check_rank(ctx, b, {false, true, true, false, true});
}
#else
SCENARIO(sbv_literal, 4) {
  Sbv<true> a{true, false, true, true};
  check_select(ctx, a, {true, false, true, true});
}
SCENARIO(sbv_all_positions_single_one, 40) {
  // a single one at every position of a vector, and a single one behind a dense prefix
  size_t n = ctx.rng.range(1, 1600);
  ctx.in(n);
  for (size_t p = ctx.rng.below(3); p < n; p += 1 + ctx.rng.below(6)) {
    BitVector b(n);
    b[p] = true;
    Sbv<true> s(b);
    EQX("sbv.select_single", s.select(0), p, "n " + show(n));
    ctx.event("sbv.selects");
    BitVector d(n, false);
    size_t dense = ctx.rng.below(p + 1);
    d.fill(d.begin(), d.begin() + dense, true);
    d[p] = true;
    Sbv<true> t(std::move(d));
    EQX("sbv.select_last", t.select(dense), p, "n " + show(n) + " dense " + show(dense));
  }
  ctx.nontrivial(n > 1);
}
#endif
#include "main.inc"
