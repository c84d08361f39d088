// C09: heaps against a multiset.
#include "mon.hpp"
#include "gen.hpp"
#include "sim_ds/Heap.hpp"
using namespace mon;

template <bool Asc> static void check_heap(Ctx& ctx, sim_ds::Heap<Asc>& h, const std::multiset<u64>& m, bool deep) {
  EQ("heap.size", h.size(), m.size());
  if (!m.empty()) EQ("heap.front", (u64)h.front(), Asc ? *m.begin() : *m.rbegin());
  if (!deep) return;
  std::vector<u64> v;
  for (size_t id = 1; id <= h.size(); id++) {
    u64 x = h.value(id);
    v.push_back(x);
    EQ("heap.value_reference", (u64)h.value_reference(id), x);
    if (id > h.root()) {
      u64 p = h.value(h.parent(id));
      OK("heap.order", Asc ? p <= x : p >= x, "position " + show(id) + " value " + show(x) + " under " + show(p));
      OK("heap.links", h.left(h.parent(id)) == id || h.right(h.parent(id)) == id, show(id));
    }
    EQ("heap.leaf", h.is_leaf(id), 2 * id > h.size());
  }
  std::sort(v.begin(), v.end());
  OK("heap.multiset", std::equal(v.begin(), v.end(), m.begin(), m.end()), "contents differ");
  ctx.event("heap.deep_checks");
}

template <bool Asc> static void history(Ctx& ctx, size_t maxn, int ops) {
  Rng& r = ctx.rng;
  std::multiset<u64> m;
  size_t n = r.below(4) ? r.size(maxn) : 0;
  int dom = r.below(5);
  auto val = [&]() -> u64 {
    switch (dom) { case 0: return r.below(3); case 1: return r.value(64); case 2: return r.below(100); case 3: return ~0ull - r.below(4); default: return r.next(); }
  };
  std::vector<u64> v(n);
  for (auto& x : v) { x = val(); ctx.in(x); }
  if (r.coin()) std::sort(v.begin(), v.end());
  if (r.chance(1, 4)) std::reverse(v.begin(), v.end());
  m.insert(v.begin(), v.end());
  sim_ds::Heap<Asc> h;
  switch (r.below(4)) {
    case 0: h = sim_ds::Heap<Asc>(v); break;
    case 1: h = gen::over_range(r, v, [](auto b, auto e) { return sim_ds::Heap<Asc>(b, e); }); break;
    case 2: { std::vector<u64> c(v); h = sim_ds::Heap<Asc>(c.data(), c.data() + c.size()); break; }
    default: for (u64 x : v) h.push(x);
  }
  check_heap<Asc>(ctx, h, m, true);
  for (int k = 0; k < ops; k++) {
    int op = r.below(8);
    ctx.in(op);
    if (op < 4) { u64 x = val(); h.push(x); m.insert(x); ctx.in(x); ctx.event("heap.pushes"); }
    else if (op < 7) {
      if (!m.empty()) { h.pop(); if (Asc) m.erase(m.begin()); else m.erase(std::prev(m.end())); ctx.event("heap.pops"); }
    } else if (!m.empty()) {
      size_t id = 1 + r.below(h.size());
      u64 x = val();
      m.erase(m.find(h.value(id)));
      m.insert(x);
      h.value_reference(id) = x;
      h.Build();
      ctx.event("heap.rebuilds");
    }
    check_heap<Asc>(ctx, h, m, k % 4 == 3);
  }
  check_heap<Asc>(ctx, h, m, true);
  ctx.nontrivial(ops > 4);
  ctx.describe(std::string(Asc ? "min" : "max") + "-heap from " + show_seq(v, 8) + " then " + show(ops) + " operations");
  if (r.chance(1, 3)) {
    while (!m.empty()) {
      EQ("heap.drain", (u64)h.front(), Asc ? *m.begin() : *m.rbegin());
      h.pop();
      if (Asc) m.erase(m.begin()); else m.erase(std::prev(m.end()));
      EQ("heap.size", h.size(), m.size());
    }
    ctx.event("heap.drains");
    h.push(5);
    EQ("heap.reuse", (u64)h.front(), 5u);
  }
}

SCENARIO(min_heap_small, 4000) { history<true>(ctx, 16, 30); }
SCENARIO(max_heap_small, 4000) { history<false>(ctx, 16, 30); }
SCENARIO(min_heap, 300) { history<true>(ctx, 1500, 60); }
SCENARIO(max_heap, 300) { history<false>(ctx, 1500, 60); }
SCENARIO(min_heap_large, 4) { history<true>(ctx, 50000, 30); }
SCENARIO(max_heap_large, 4) { history<false>(ctx, 50000, 30); }
SCENARIO(heap_scale, 1) { if (ctx.rng.coin()) history<true>(ctx, ctx.sanitized ? 20000 : 400000, 12); else history<false>(ctx, ctx.sanitized ? 20000 : 400000, 12); }
#include "main.inc"
