// C01: BitVector behaves as std::vector<bool> over every history of its operations.
#include "mon.hpp"
#include "gen.hpp"
#include "sim_ds/BitVector.hpp"
using namespace mon;
using sim_ds::BitVector;
using Ref = std::vector<bool>;

static Ref random_bits(Rng& r, size_t n) {
  Ref v(n);
  int mode = r.below(6);
  unsigned p = r.pick<unsigned>({1, 8, 32, 60, 63});
  for (size_t i = 0; i < n; i++)
    v[i] = mode == 0 ? false : mode == 1 ? true : mode == 2 ? (i & 1) : mode == 3 ? r.below(64) < p : mode == 4 ? (i / 64) & 1 : r.coin();
  return v;
}

static void compare(Ctx& ctx, const BitVector& b, const Ref& m) {
  EQ("bv.size", b.size(), m.size());
  EQ("bv.empty", b.empty(), m.empty());
  size_t n = m.size();
  for (size_t i = 0; i < n; i++)
    if (bool(b[i]) != m[i]) fail("bv.content", "bit " + show(i) + " of " + show(n) + " is " + show(bool(b[i])) + ", expected " + show(bool(m[i])));
  size_t i = 0;
  for (auto x : b) {
    if (i >= n) fail("bv.iteration", "iteration runs past " + show(n));
    if (bool(x) != m[i]) fail("bv.iteration", "iterated bit " + show(i) + " differs");
    i++;
  }
  EQ("bv.iteration", i, n);
  EQ("bv.distance", (size_t)(b.end() - b.begin()), n);
  if (n) {
    EQ("bv.front", bool(b.front()), (bool)m.front());
    EQ("bv.back", bool(b.back()), (bool)m.back());
  }
  // the words behind data() hold the same bits, and start where vector instructions may load them
  EQX("bv.data_aligned", uintptr_t(b.data()) % 32, 0u, show(n) + " bits");
  ctx.event("bv.aligned_data");
  for (size_t w = 0; w * 64 < n; w++) {
    u64 e = 0, mask = 0;
    for (size_t k = 0; k < 64 && w * 64 + k < n; k++) { e |= u64(m[w * 64 + k]) << k; mask |= 1ull << k; }
    EQ("bv.words", b.data()[w] & mask, e);
  }
  ctx.event("bv.full_compares");
}

template <class B> static void at_throws(B& b, size_t i) {
  bool thrown = false;
  try { (void)bool(b.at(i)); } catch (const std::out_of_range&) { thrown = true; }
  OK("bv.at_throws", thrown, "at(" + show(i) + ") of size " + show(b.size()));
}

static void iter_ops(Ctx& ctx, BitVector& b, Ref& m) {
  Rng& r = ctx.rng;
  size_t n = m.size();
  const BitVector& cb = b;
  size_t i = r.below(n + 1), j = r.below(n + 1);
  auto bi = b.begin() + i, bj = b.begin() + j;
  BitVector::const_iterator ci = bi, cj = cb.begin() + j;
  EQ("bv.iter_diff", (long long)(bi - bj), (long long)i - (long long)j);
  EQ("bv.iter_diff", (long long)(ci - cj), (long long)i - (long long)j);
  EQ("bv.iter_eq", bi == bj, i == j);
  EQ("bv.iter_ne", bi != bj, i != j);
  EQ("bv.iter_lt", bi < bj, i < j);
  EQ("bv.iter_gt", bi > bj, i > j);
  EQ("bv.iter_le", ci <= cj, i <= j);
  EQ("bv.iter_ge", ci >= cj, i >= j);
  auto t = bi;
  t += (long long)j - (long long)i;
  OK("bv.iter_jump", t == bj, show(i) + "->" + show(j));
  t -= (long long)j - (long long)i;
  OK("bv.iter_jump", t == bi, show(j) + "->" + show(i));
  if (i >= j) { OK("bv.iter_minus", (bi - (i - j)) == bj, ""); }
  else { OK("bv.iter_plus", (bi + (j - i)) == bj, ""); }
  OK("bv.iter_end", b.end() - (n - i) == bi, "");
  if (i < n) {
    EQ("bv.iter_deref", bool(*bi), (bool)m[i]);
    EQ("bv.iter_deref", bool(*ci), (bool)m[i]);
    auto k = bi;
    OK("bv.iter_postinc", k++ == bi && k == bi + 1, "");
    OK("bv.iter_postdec", k-- == bi + 1 && k == bi, "");
    OK("bv.iter_preinc", ++k == bi + 1, "");
    OK("bv.iter_predec", --k == bi, "");
    OK("bv.ref_addr", &b[i] == bi, "");
    OK("bv.ref_addr", &cb[i] == ci, "");
    bool x = r.coin();
    *bi = x; m[i] = x;
    EQ("bv.iter_write", bool(b[i]), x);
    size_t d = r.below(n - i);
    EQ("bv.iter_index", bool(bi[d]), (bool)m[i + d]);
    bool y = r.coin();
    bi[d] = y; m[i + d] = y;
    size_t s = r.below(n);
    b[i] = b[s]; m[i] = bool(m[s]);
  }
  if (i <= j) {
    auto cnt = std::count(b.begin() + i, b.begin() + j, true);
    EQ("bv.algo_count", (size_t)cnt, (size_t)std::count(m.begin() + i, m.begin() + j, true));
    auto f = std::find(cb.begin() + i, cb.begin() + j, true) - cb.begin();
    EQ("bv.algo_find", (size_t)f, (size_t)(std::find(m.begin() + i, m.begin() + j, true) - m.begin()));
    if (r.chance(1, 3)) {
      bool x = r.coin();
      std::fill(b.begin() + i, b.begin() + j, x);
      std::fill(m.begin() + i, m.begin() + j, x);
    }
  }
  if (r.chance(1, 4) && n) {
    Ref src = random_bits(r, n);
    std::copy(src.begin(), src.end(), b.begin());
    m = src;
  }
  gen::iter_walk<BitVector::iterator, bool>(ctx, "bv", n, [&](size_t k) { return b.begin() + k; }, [&](size_t k) { return bool(m[k]); });
  gen::iter_walk<BitVector::const_iterator, bool>(ctx, "bv", n, [&](size_t k) { return cb.begin() + k; }, [&](size_t k) { return bool(m[k]); });
  gen::iter_const<BitVector::const_iterator>("bv", bi, cb.begin() + i, cb.begin() + j);
  ctx.event("bv.iter_ops");
}

static void history(Ctx& ctx, size_t maxn, int ops) {
  Rng& r = ctx.rng;
  Ref m;
  BitVector b;
  size_t n = r.size(maxn);
  int ctor = r.below(8);
  switch (ctor) {
    case 0: break;
    case 1: b = BitVector(n); m = Ref(n, false); break;
    case 2: { bool x = r.coin(); b = BitVector(n, x); m = Ref(n, x); break; }
    case 3: m = random_bits(r, n); b = BitVector(m); break;
    case 4: { m = {true, false, true, true}; BitVector c{true, false, true, true}; b = c; break; }
    case 5: { m = random_bits(r, n); std::vector<int> v(n); for (size_t i = 0; i < n; i++) v[i] = m[i] ? 1 + r.below(2000) : 0; b = BitVector(v); break; }
    case 6: { m = random_bits(r, n); for (size_t i = 0; i < n; i++) b.push_back(m[i]); break; }
    default: { m = random_bits(r, n); BitVector c(m); BitVector d(c); b = std::move(d); if (n) c[r.below(n)] = r.coin(); break; }
  }
  ctx.in(ctor); ctx.in(n);
  std::string trace = "ctor" + show(ctor) + "(" + show(n) + ")";
  compare(ctx, b, m);
  size_t reached = m.size();
  for (int k = 0; k < ops; k++) {
    size_t s = m.size();
    int op = r.below(14);
    ctx.in(op);
    bool x = r.coin();
    if (trace.size() < 400) trace += " op" + show(op);
    switch (op) {
      case 0: case 1: { int c = 1 + r.below(r.coin() ? 5 : 140); for (int q = 0; q < c; q++) { bool y = r.coin(); b.push_back(y); m.push_back(y); } break; }
      case 2: { size_t t = r.coin() ? r.size(maxn) : r.below(s + 1); b.resize(t); m.resize(t, false); ctx.in(t); break; }
      case 3: case 4: { size_t t = r.chance(1, 3) ? r.size(maxn) : r.coin() ? r.below(s + 1) : s + r.below(200); t = std::min(t, maxn + 300); b.resize(t, x); m.resize(t, x); ctx.in(t); break; }
      case 5: { size_t t = r.size(maxn); b.assign(t, x); m.assign(t, x); ctx.in(t); break; }
      case 6: case 7: {
        size_t i = r.below(s + 1), j = r.below(s + 1);
        if (r.coin()) i = i / 64 * 64;
        if (r.coin()) j = std::min(s, (j + 63) / 64 * 64);
        if (i <= j || r.chance(1, 4)) {
          b.fill(b.begin() + i, b.begin() + j, x);
          for (size_t q = i; q < j; q++) m[q] = x;
        }
        ctx.in(i); ctx.in(j);
        break;
      }
      case 8: case 9: for (int q = 0; q < 10 && s; q++) { size_t i = r.below(s); bool y = r.coin(); if (r.coin()) b[i] = y; else b.at(i) = y; m[i] = y; } break;
      case 10: if (s) { b.front() = x; m.front() = x; b.back() = !x; m.back() = !x; } at_throws(b, s + r.below(3)); at_throws(std::as_const(b), s); break;
      case 11: {
        size_t room = r.below(2 * maxn);
        b.reserve(room);
        if (room > s) {   // growth within the room moves nothing
          auto* words = b.data();
          auto at = b.begin();
          while (r.below(4)) {
            size_t t = r.coin() ? m.size() + 1 : m.size() + r.below(room - m.size() + 1);
            if (t > room || t == m.size()) break;
            if (t == m.size() + 1 && r.coin()) b.push_back(x); else b.resize(t, x);
            m.resize(t, x);
          }
          OK("bv.reserved", b.data() == words && b.begin() == at, "the bits moved while growing from " + show(s) + " to " + show(m.size()) + " with " + show(room) + " reserved");
          ctx.event("bv.reserves");
        }
        if (r.coin()) b.shrink_to_fit();
        break;
      }
      case 12: iter_ops(ctx, b, m); break;
      default: {
        BitVector c(b);
        Ref mc = m;
        if (s) { size_t i = r.below(s); c[i] = !mc[i]; mc[i] = !mc[i]; }
        c.push_back(x); mc.push_back(x);
        compare(ctx, c, mc);
        if (r.coin()) { b = c; m = mc; }
      }
    }
    ctx.event("bv.ops");
    compare(ctx, b, m);
    reached = std::max(reached, m.size());
  }
  ctx.nontrivial(ops >= 8 && reached > 64);
  ctx.describe(trace + " final size " + show(m.size()));
}

SCENARIO(bv_small_history, 6000) { history(ctx, 200, 20); }
SCENARIO(bv_history, 1600) { history(ctx, 2200, 30); }
SCENARIO(bv_large_history, 60) { history(ctx, ctx.sanitized ? 40000 : 150000, 12); }

// every (size, from, to, bit) fill and resize around two words, exhaustively by slices
SCENARIO(bv_fill_grid, 200) {
  Rng& r = ctx.rng;
  size_t n = ctx.index < 200 ? ctx.index + 1 : r.range(1, 260);
  ctx.in(n);
  for (size_t i = 0; i <= n; i += 1 + r.below(4))
    for (size_t j = i; j <= n; j += 1 + r.below(4)) {
      bool bg = r.coin(), x = r.coin();
      BitVector b(n, bg);
      b.fill(b.begin() + i, b.begin() + j, x);
      for (size_t q = 0; q < n; q++)
        if (bool(b[q]) != ((q >= i && q < j) ? x : bg)) fail("bv.fill_grid", "fill [" + show(i) + "," + show(j) + ") of " + show(n) + " with " + show(x) + ": bit " + show(q));
      ctx.event("bv.fills");
    }
  for (size_t j = 0; j <= 2 * n; j++) {
    bool bg = r.coin(), x = r.coin();
    BitVector b(n, bg);
    b.resize(j, x);
    size_t back = r.below(2 * n + 70);
    b.resize(back, !x);
    for (size_t q = 0; q < back; q++) {
      bool e = q >= j ? !x : q < n ? bg : x;
      if (bool(b[q]) != e) fail("bv.resize_grid", "resize " + show(n) + "->" + show(j) + "->" + show(back) + ": bit " + show(q));
    }
    ctx.event("bv.resizes");
  }
  ctx.nontrivial(n > 1);
  ctx.describe("fill/resize grid at size " + show(n));
}

// positions beyond 2^32: few flipped bits in a constant vector, watched together with their 32-bit aliases
SCENARIO(bv_beyond32, .25) {
  if (ctx.sanitized) return;
  Rng& r = ctx.rng;
  bool base = ctx.index & 1, x = r.coin();
  size_t n = (size_t(1) << 32) + 500 + r.below(1000), grown = n + 1 + r.below(3000);
  BitVector b(n, base);
  std::map<size_t, bool> m;
  auto val = [&](size_t i) { auto it = m.find(i); return it != m.end() ? it->second : i < n ? base : x; };
  auto watch = [&](const char* when) {
    for (auto& [p, v] : m)
      for (size_t q : std::vector<size_t>{p, p + 1, p - 1, p ^ (1ull << 32), p ^ (1ull << 31), p ^ (1ull << 30)})
        if (q < b.size() && bool(std::as_const(b)[q]) != val(q)) fail("bv.content", std::string(when) + ": bit " + show(q) + " of " + show(b.size()));
    EQ("bv.size", b.size(), grown == b.size() ? grown : n);
    ctx.event("bv.full_compares");
  };
  for (int k = 0; k < 300; k++) {
    size_t i = r.below(3) ? n - 1 - r.below(1400) : r.below(n);
    bool v = r.coin();
    switch (r.below(4)) { case 0: b[i] = v; break; case 1: b.at(i) = v; break; case 2: *(b.begin() + i) = v; break; default: *(b.end() - (n - i)) = v; }
    m[i] = v;
  }
  watch("writes");
  OK("bv.iter_diff", b.end() - b.begin() == (long long)n, "distance of " + show(n));
  size_t i = (size_t(1) << 32) - r.below(300), j = (size_t(1) << 32) + r.below(300);
  b.fill(b.begin() + i, b.begin() + j, !base);
  for (size_t q = i; q < j; q++) m[q] = !base;
  watch("fill");
  OK("bv.iter_lt", b.begin() + i < b.begin() + j + 1 && b.begin() + j > b.begin() + (j - (size_t(1) << 32)), "order of far iterators");
  auto it = b.begin(); it += j; it -= j; OK("bv.iter_jump", it == b.begin(), "jump of " + show(j));
  at_throws(b, n);
  b.resize(grown, x);
  for (size_t q = n; q < grown; q++) if (bool(b[q]) != x) fail("bv.content", "grown bit " + show(q));
  watch("growth");
  ctx.in(n); ctx.in(i); ctx.nontrivial();
  ctx.event("bv.ops", 300);
  ctx.describe(show(n) + " bits, grown to " + show(grown));
}
#include "main.inc"
