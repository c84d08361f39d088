// C14: compact rewritable array and vector against plain vectors.
#include "mon.hpp"
#include "gen.hpp"
#include <unordered_map>
#include "sim_ds/CDRWArray.hpp"
using namespace mon;
using namespace sim_ds;

static u64 val(Rng& r) { return r.chance(1, 6) ? 0 : r.chance(1, 8) ? r.value(64) : r.next() & low_mask(1 + r.below(r.coin() ? 6 : 64)); }

SCENARIO(cdrw_array, 150) {
  Rng& r = ctx.rng;
  size_t n = r.chance(1, 8) ? r.below(3) : r.coin() ? r.below(20) : r.below(400);
  std::vector<u64> m;
  CDRWArray a;
  if (r.coin()) { for (size_t i = 0; i < n; i++) m.push_back(val(r)); a = gen::over_range(r, m, [](auto b, auto e) { return CDRWArray(b, e); }); }
  else { m.assign(n, 0); a = CDRWArray(n); }
  ctx.in(n);
  const CDRWArray& c = a;
  auto cmp = [&] {
    EQ("cdrwa.size", c.size(), m.size());
    for (size_t i = 0; i < n; i++) if (c.get(i) != m[i]) fail("cdrwa.content", "index " + show(i) + " of " + show(n) + ": got " + show(c.get(i)) + ", expected " + show(m[i]));
    ctx.event("cdrw.full_compares");
  };
  cmp();
  size_t hot = 1 + r.below(6);
  for (int q = 0; q < 120 && n; q++) {
    size_t i = r.coin() ? r.below(n) : r.below(std::min(n, hot));
    u64 v = val(r);
    if (r.chance(1, 10)) v = m[i] ^ (1ull << r.below(64));
    a.set(i, v); m[i] = v;
    ctx.in(v);
    if (c.get(i) != v) fail("cdrwa.content", "index " + show(i) + " just written " + show(v) + " reads " + show(c.get(i)));
    ctx.event("cdrw.writes");
    if (q % 20 == 0) cmp();
  }
  cmp();
  if (r.coin()) { CDRWArray d(a); for (size_t i = 0; i < n; i++) d.set(i, 5); a = CDRWArray(d); m.assign(n, 5); cmp(); }
  ctx.nontrivial(n > 1);
  ctx.describe("array of " + show(n) + " rewritten " + show_seq(m, 6));
}

SCENARIO(cdrw_vector, 260) {
  Rng& r = ctx.rng;
  size_t n = r.chance(1, 2) ? 0 : r.below(r.coin() ? 5 : 40);
  CDRWVector a = n || r.coin() ? CDRWVector(n) : CDRWVector();
  std::vector<u64> m(n, 0);
  std::string trace = "start " + show(n);
  size_t peak = 0;
  auto cmp = [&] {
    const CDRWVector& c = a;
    EQX("cdrwv.size", c.size(), m.size(), trace);
    EQX("cdrwv.empty", c.empty(), m.empty(), trace);
    OK("cdrwv.capacity", c.capacity() >= c.size(), trace);
    for (size_t i = 0; i < m.size(); i++) if (c.get(i) != m[i]) fail("cdrwv.content", "index " + show(i) + " of " + show(m.size()) + ": got " + show(c.get(i)) + ", expected " + show(m[i]) + " after " + trace);
    ctx.event("cdrw.full_compares");
  };
  cmp();
  int bias = r.below(3);
  for (int q = 0; q < 60; q++) {
    int op = r.below(20);
    if (q % 20 == 19) bias = r.below(3);
    ctx.in(op);
    std::string note;
    if (op < 6) { int k = bias == 0 ? 1 + r.below(12) : 1; for (int z = 0; z < k; z++) { u64 v = val(r); a.push_back(v); m.push_back(v); } note = " push*" + show(k); }
    else if (op < 9) { int k = bias == 1 ? 1 + r.below(20) : 1; for (int z = 0; z < k; z++) { a.pop_back(); if (!m.empty()) m.pop_back(); } note = " pop*" + show(k); }
    else if (op < 15) { for (int z = 0; z < 4 && m.size(); z++) { size_t i = r.below(m.size()); u64 v = val(r); a.set(i, v); m[i] = v; } note = " set"; }
    else if (op < 17) { size_t k = r.coin() ? r.below(60) : r.below(a.capacity() + 2); a.resize(k); m.resize(k, 0); note = " resize" + show(k); }
    else if (op == 17) { size_t k = r.below(100); a.reserve(k); OK("cdrwv.reserve", a.capacity() >= k, trace); note = " reserve" + show(k); }
    else if (op == 18) { a.shrink_to_fit(); EQX("cdrwv.shrunk", a.capacity(), a.size(), trace); note = " shrink"; }
    else if (r.chance(1, 3)) { a.clear(); m.clear(); note = " clear"; }
    else { CDRWVector d(a); d.push_back(1); CDRWVector e; e = std::move(d); e.pop_back(); a = e; note = " copy"; }
    trace += note;
    if (trace.size() > 500) trace.erase(20, 250);
    peak = std::max(peak, m.size());
    ctx.event("cdrw.ops");
    cmp();
  }
  ctx.nontrivial(peak > 2);
  ctx.describe(trace);
}
SCENARIO(cdrw_vector_long, 4) {
  Rng& r = ctx.rng;
  CDRWVector a; std::vector<u64> m;
  size_t top = ctx.sanitized ? 3000 : 20000;
  while (m.size() < top) { u64 v = val(r); a.push_back(v); m.push_back(v); if (r.chance(1, 5)) { size_t i = r.below(m.size()); v = val(r); a.set(i, v); m[i] = v; } }
  for (size_t i = 0; i < m.size(); i++) EQ("cdrwv.content", a.get(i), m[i]);
  while (m.size() > top / 50) { a.pop_back(); m.pop_back(); if (r.chance(1, 400)) { size_t i = r.below(m.size()); EQ("cdrwv.content", a.get(i), m[i]); } }
  for (size_t i = 0; i < m.size(); i++) EQ("cdrwv.content", a.get(i), m[i]);
  ctx.in(m.size() ? m[0] : 0);
  ctx.event("cdrw.ops", 2 * top);
  ctx.nontrivial();
}
// every operation in any order between none and thousands of elements
SCENARIO(cdrw_vector_large, 12) {
  Rng& r = ctx.rng;
  const size_t top = ctx.sanitized ? 1200 : r.coin() ? 6000 : 20000;
  CDRWVector a; std::vector<u64> m;
  std::string trace;
  size_t peak = 0;
  auto cmp = [&](bool full) {
    const CDRWVector& c = a;
    EQX("cdrwv.size", c.size(), m.size(), trace);
    EQX("cdrwv.empty", c.empty(), m.empty(), trace);
    OK("cdrwv.capacity", c.capacity() >= c.size(), trace);
    for (size_t q = 0, k = full ? m.size() : std::min<size_t>(m.size(), 40); q < k; q++) {
      size_t i = full ? q : r.coin() ? r.below(m.size()) : q % 2 ? m.size() - 1 - q : q;
      if (c.get(i) != m[i]) fail("cdrwv.content", "index " + show(i) + " of " + show(m.size()) + ": got " + show(c.get(i)) + ", expected " + show(m[i]) + " after" + trace);
    }
    ctx.event("cdrw.compares");
  };
  for (int q = 0; q < 14; q++) {
    size_t to = r.chance(1, 6) ? r.below(30) : r.below(top);
    std::string note;
    switch (r.below(q ? 11 : 2)) {
      case 0: case 1: case 2: { while (m.size() < to) { u64 v = val(r); a.push_back(v); m.push_back(v); } note = " push to "; break; }
      case 3: case 4: { while (m.size() > to) { a.pop_back(); m.pop_back(); } note = " pop to "; break; }
      case 5: case 6: { a.resize(to); m.resize(to, 0); note = " resize "; break; }
      case 7: { a.reserve(to); OK("cdrwv.reserve", a.capacity() >= to, trace); note = " reserve "; break; }
      case 8: { a.shrink_to_fit(); EQX("cdrwv.shrunk", a.capacity(), a.size(), trace); note = " shrink "; break; }
      case 9: { a.clear(); m.clear(); note = " clear "; break; }
      default: { CDRWVector d(a); d.push_back(1); d.clear(); CDRWVector e(a); a.clear(); a = r.coin() ? std::move(e) : CDRWVector(e); note = " copy "; }
    }
    trace += note + show(to);
    cmp(false);
    for (size_t z = 0, k = m.empty() ? 0 : r.below(1 + std::min<size_t>(m.size(), 800)); z < k; z++) { size_t i = r.below(m.size()); u64 v = val(r); a.set(i, v); m[i] = v; }
    cmp(r.chance(1, 3));
    peak = std::max(peak, m.size());
    ctx.in(to); ctx.event("cdrw.ops");
  }
  cmp(true);
  ctx.nontrivial(peak > 2);
  ctx.describe(trace.substr(0, 300));
}
SCENARIO(cdrw_scale, .1) {   // more than 2^16 elements
  if (ctx.sanitized) return;
  Rng& r = ctx.rng;
  size_t n = 65536 + r.below(30000);
  std::vector<u64> m;
  for (size_t i = 0; i < n; i++) m.push_back(val(r));
  bool sized = r.coin();
  CDRWArray a = sized ? CDRWArray(n) : CDRWArray(m.begin(), m.end());
  size_t n0 = r.coin() ? n : n / 2;
  CDRWVector v(n0);
  EQ("cdrwa.size", a.size(), n);
  EQ("cdrwv.size", v.size(), n0);
  OK("cdrwv.capacity", v.capacity() >= n0, "after construction");
  for (size_t q = 0; q < 300; q++) { size_t i = r.below(n); if (sized) EQ("cdrwa.content", a.get(i), u64(0)); i = r.below(n0); EQ("cdrwv.content", v.get(i), u64(0)); }
  if (sized) for (size_t i = 0; i < n; i++) a.set(i, m[i]);
  if (n0 < n && r.coin()) { v.reserve(n); OK("cdrwv.reserve", v.capacity() >= n, "reserve " + show(n)); EQ("cdrwv.size", v.size(), n0); }
  if (n0 < n && r.coin()) { v.resize(n); EQ("cdrwv.size", v.size(), n); n0 = n; }
  for (size_t i = 0; i < n0; i++) v.set(i, m[i]);
  for (size_t i = n0; i < n; i++) v.push_back(m[i]);
  auto cmp = [&] {
    EQ("cdrwa.size", a.size(), n); EQ("cdrwv.size", v.size(), m.size()); OK("cdrwv.capacity", v.capacity() >= v.size(), "capacity");
    for (size_t i = 0; i < n; i++) { if (a.get(i) != m[i]) fail("cdrwa.content", "index " + show(i) + " of " + show(n)); if (v.get(i) != m[i]) fail("cdrwv.content", "index " + show(i) + " of " + show(n)); }
    ctx.event("cdrw.full_compares", 2); };
  cmp();
  for (size_t q = 0; q < n; q++) { size_t i = r.below(n); u64 x = val(r); a.set(i, x); v.set(i, x); m[i] = x; }
  cmp();
  v.shrink_to_fit(); EQ("cdrwv.shrunk", v.capacity(), v.size());
  cmp();
  ctx.event("cdrw.writes", 2 * n);
  ctx.in(n); ctx.nontrivial();
  ctx.describe(show(n) + " elements");
}
SCENARIO(cdrw_sparse_scale, 1) {   // arrays of up to millions of elements few of which are written, kept apart from those at the same low bits
  if (ctx.sanitized) return;
  Rng& r = ctx.rng;
  size_t n = (size_t(1) << (17 + (ctx.index * 3 + r.below(3)) % 8)) + r.below(100000);
  CDRWArray a(n);
  std::unordered_map<size_t, u64> m;
  std::vector<size_t> known;
  auto near = [&]() -> size_t {
    if (known.empty() || r.chance(1, 3)) return r.below(n);
    size_t p = known[r.below(known.size())];
    size_t q = r.coin() ? p ^ (size_t(1) << r.below(25)) : p + r.below(5) - 2;
    return q < n ? q : p;
  };
  size_t sets = 0;
  for (int q = 0; q < 12000; q++) {
    size_t i = near();
    if (r.coin()) { u64 x = r.coin() ? r.below(4) : val(r); a.set(i, x); m[i] = x; known.push_back(i); sets++; }
    auto it = m.find(i);
    EQX("cdrwa.content", a.get(i), it == m.end() ? u64(0) : it->second, "index " + show(i) + " of " + show(n));
  }
  for (auto& [i, x] : m) EQX("cdrwa.content", a.get(i), x, "index " + show(i) + " of " + show(n));
  CDRWArray b(a);
  for (auto& [i, x] : m) EQX("cdrwa.content", b.get(i), x, "copy, index " + show(i) + " of " + show(n));
  ctx.event("cdrw.writes", sets); ctx.event("cdrw.sparse");
  ctx.in(n); ctx.in(sets); ctx.nontrivial();
  ctx.describe(show(n) + " elements, " + show(m.size()) + " of them written");
}
#include "main.inc"
