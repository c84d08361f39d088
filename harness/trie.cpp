// C18: trie against std::map and the set of prefixes.
#include "mon.hpp"
#include "gen.hpp"
#include "sim_ds/string_util/graph_util.hpp"
#include <pthread.h>
using namespace mon;
using namespace sim_ds::graph_util;

template <class Item, class Size, class Mk> static void history(Ctx& ctx, int ops, size_t maxnodes, Mk mk) {
  Rng& r = ctx.rng;
  using T = Trie<Item, Size>;
  T t;
  std::map<std::string, Item> ref;
  std::set<std::string> prefixes{""};
  std::vector<std::string> pool;
  unsigned sig = r.pick<unsigned>({1, 2, 3, 26, 255});
  size_t maxlen = r.pick<size_t>({2, 5, 12, 60});
  auto key = [&] {
    std::string k;
    if (!pool.empty() && r.chance(1, 2)) {
      k = r.choose(pool);
      switch (r.below(5)) { case 0: k.resize(r.below(k.size() + 1)); break; case 1: k += char(1 + r.below(sig)); break; case 2: if (!k.empty()) k[r.below(k.size())] = char(255 - r.below(sig)); break; default:; }
    } else { size_t l = r.below(maxlen + 1); while (k.size() < l) k += char(r.coin() ? 1 + r.below(sig) : 255 - r.below(sig)); }
    return k;
  };
  auto look = [&](const std::string& k) {
    gen::Exact e(k);
    Item* p = t.traverse(e.sv());
    auto it = ref.find(k);
    if ((p != nullptr) != (it != ref.end())) fail(p ? "trie.ghost" : "trie.lost", "key " + show_str(k) + " of " + show(ref.size()));
    if (p && !(*p == it->second)) fail("trie.item", "key " + show_str(k) + " has a stale item");
    ctx.event("trie.lookups");
  };
  auto walk = [&] {
    size_t nodes = prefixes.size() + ref.size();
    EQ("trie.size", t.size(), nodes);
    std::set<std::string> seen;      // strings at terminals, from the edges themselves
    std::map<const void*, std::string> name{{&t.root(), ""}};
    std::map<const void*, size_t> visits;
    size_t terminals = 0, count = 0, last = 0;
    std::set<u64> items;
    std::vector<std::string> spelled;
    auto visit = [&](bool bfs) {
      return [&, bfs](const auto& n, size_t depth) {
        auto it = name.find(&n);
        if (it == name.end()) fail("trie.walk_order", "a node before its parent");
        std::string s = it->second;
        if (visits[&n]++) fail("trie.walk_once", "node " + show_str(s) + " twice");
        EQ("trie.depth", depth, s.size());
        if (bfs) OK("trie.bfs_order", depth >= last, "depth falls"); 
        last = depth;
        count++;
        if (n.terminal()) {
          terminals++;
          OK("trie.leaf", !s.empty() && s.back() == '\0', show_str(s));
          seen.insert(s.substr(0, s.size() - 1));
          items.insert(n.item_index());
          if (!bfs) { OK("trie.key_order", spelled.empty() || spelled.back() < s, "the depth-first walk spells the keys out of byte order"); spelled.push_back(s); }
          size_t out = 0; n.for_each_edge([&](auto, auto) { out++; });
          EQ("trie.leaf_edges", out, size_t(0));
        } else if (!prefixes.count(s)) fail("trie.node", "no key has the prefix " + show_str(s));
        long before = -1;
        n.for_each_edge([&](auto c, size_t to) {
          if ((long)c < 0 || (long)c > 255) fail("trie.label", "an edge is labelled " + show((long)c) + ", not a byte");
          if ((long)c <= before) fail("trie.edge_order", "the edge " + show((long)c) + " after " + show(before));
          before = (long)c;
          if ((size_t)n.target(c) != to) fail("trie.target", "edge " + show(c));
          name[&t.node(to)] = s + char(c);
        });
        ctx.event("trie.visits");
      };
    };
    for (int b = 0; b < 2; b++) {
      visits.clear(); seen.clear(); terminals = count = last = 0; items.clear(); spelled.clear(); name = {{&t.root(), ""}};
      if (b) t.bfs(visit(true)); else t.dfs(visit(false));
      EQ("trie.walk_count", count, nodes);
      EQ("trie.terminals", terminals, ref.size());
      std::set<std::string> want; for (auto& [k, v] : ref) want.insert(k);
      if (seen != want) fail("trie.spelled", "walk spells other keys");
      EQ("trie.item_indices", items.size(), ref.size());
    }
    ctx.event("trie.walks");
  };
  for (int q = 0; q < ops; q++) {
    std::string k = key();
    if (r.chance(2, 3)) {
      if (prefixes.size() + k.size() + ref.size() + 1 > maxnodes) continue;
      Item v = mk(r);
      gen::Exact e(k);
      Item* p = t.insert(e.sv(), v);
      OK("trie.insert_ptr", p != nullptr && *p == v, "returned item");
      ref[k] = v;
      for (size_t l = 0; l <= k.size(); l++) prefixes.insert(k.substr(0, l));
      pool.push_back(k);
      if (t.traverse(k) != p) fail("trie.insert_ptr", "traverse finds another item");
      ctx.event("trie.inserts");
      ctx.in(k);
    }
    look(k);
    look(key());
    if (q % 25 == 0 && prefixes.size() < 400) walk();
    EQ("trie.size", t.size(), prefixes.size() + ref.size());
    if (r.chance(1, 40)) { T c(t); c.insert("zz", mk(r)); T d; d = t; if (r.coin()) t = d; else t = T(std::move(d)); }
  }
  for (auto& [k, v] : ref) look(k);
  walk();
  ctx.nontrivial(ref.size() > 1);
  ctx.describe(show(ref.size()) + " keys, " + show(prefixes.size()) + " prefixes");
}
SCENARIO(trie_int, 600) { history<int, size_t>(ctx, 120, 100000, [](Rng& r) { return (int)r.below(1000); }); }
SCENARIO(trie_string, 200) { history<std::string, uint32_t>(ctx, 120, 100000, [](Rng& r) { return std::string(r.below(30), 'x'); }); }
SCENARIO(trie_narrow, 300) {
  if (ctx.rng.coin()) history<u64, uint8_t>(ctx, 200, 250, [](Rng& r) { return r.next(); });
  else history<int, uint16_t>(ctx, 200, 20000, [](Rng& r) { return (int)r.next(); });
}
SCENARIO(trie_big, 8) { history<u64, int>(ctx, ctx.sanitized ? 500 : 3000, 1000000, [](Rng& r) { return r.next(); }); }
SCENARIO(trie_scale, .3) {   // more than 2^16 nodes
  if (ctx.sanitized) return;
  Rng& r = ctx.rng;
  Trie<u64, uint32_t> t;
  std::map<std::string, u64> ref;
  unsigned sig = r.pick<unsigned>({4, 26, 255});
  size_t nodes = 1;
  while (ref.size() < 30000) {
    std::string k; size_t l = 3 + r.below(8); while (k.size() < l) k += char(1 + r.below(sig));
    auto it = ref.upper_bound(k);
    size_t p = 0;   // longest prefix already there
    auto lcp = [&](const std::string& o) { size_t z = 0; while (z < k.size() && z < o.size() && k[z] == o[z]) z++; return z; };
    if (it != ref.end()) p = lcp(it->first);
    if (it != ref.begin()) p = std::max(p, lcp(std::prev(it)->first));
    if (!ref.count(k)) nodes += k.size() - p + 1;
    u64 v = r.next();
    t.insert(k, v);
    ref[k] = v;
  }
  EQ("trie.size", t.size(), nodes);
  size_t seen = 0, leaves = 0, last = 0;
  for (int b = 0; b < 2; b++) {
    seen = leaves = last = 0;
    auto visit = [&](const auto& n, size_t d) { seen++; leaves += n.terminal(); if (b) { OK("trie.bfs_order", d >= last, "depth falls"); } last = d; };
    if (b) t.bfs(visit); else t.dfs(visit);
    EQ("trie.walk_count", seen, nodes);
    EQ("trie.terminals", leaves, ref.size());
  }
  for (auto& [k, v] : ref) {
    u64* p = t.traverse(k);
    if (!p) fail("trie.lost", show_str(k));
    EQ("trie.item", *p, v);
    std::string q = k; q.back() = char(1 + r.below(sig)); if (r.coin()) q.resize(q.size() - 1);
    if ((t.traverse(q) != nullptr) != (ref.count(q) != 0)) fail("trie.ghost", show_str(q));
    if (v % 4 == 0) {   // along the edges
      size_t at = 0;
      for (uint8_t c : k + '\0') { at = t.node(at).target(c); if (!at) fail("trie.target", "the edges of " + show_str(k) + " end early"); }
      OK("trie.leaf", t.node(at).terminal(), "the edges of " + show_str(k) + " end at node " + show(at) + ", no terminal");
      ctx.event("trie.edge_walks");
    }
    ctx.event("trie.lookups", 2);
  }
  ctx.event("trie.inserts", ref.size());
  ctx.event("trie.walks", 2);
  ctx.event("trie.visits", 2 * nodes);
  ctx.in(nodes); ctx.nontrivial();
  ctx.describe(show(ref.size()) + " keys, " + show(nodes) + " nodes");
}
// Keys of thousands of bytes: depths past 2^8 and 2^16, in both walks, on an ordinary stack.
SCENARIO(trie_long, 6) {
  Rng& r = ctx.rng;
  size_t longest = ctx.sanitized ? r.pick<size_t>({256, 300, 5000, 40000}) : r.pick<size_t>({256, 257, 5000, 65535, 65537, 70000, 140000});
  Trie<u64, uint32_t> t;
  std::map<std::string, u64> ref;
  std::string stem; while (stem.size() < longest) stem += char(1 + r.below(255));
  std::set<std::string> keys{stem};
  int branches = 1 + r.below(6);
  size_t nodes = 1;
  std::map<size_t, size_t> level;   // depth -> nodes
  while (branches--) { std::string k = stem.substr(0, r.below(longest)); size_t l = r.below(400); for (size_t i = 0; i < l; i++) k += char(1 + r.below(255)); keys.insert(k); }
  std::vector<std::string> order(keys.begin(), keys.end());
  for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
  for (auto& k : order) { u64 v = r.next(); gen::Exact e(k); u64* p = t.insert(e.sv(), v); OK("trie.insert_ptr", p && *p == v, "returned item"); ref[k] = v; ctx.event("trie.inserts"); }
  level[0] = 1;
  const std::string* before = nullptr;
  for (auto& [k, v] : ref) {
    size_t z = 0;
    if (before) while (z < k.size() && z < before->size() && k[z] == (*before)[z]) z++;
    for (size_t d = z + 1; d <= k.size(); d++) level[d]++, nodes++;
    level[k.size() + 1]++, nodes++;   // the leaf
    before = &k;
  }
  EQ("trie.size", t.size(), nodes);
  for (auto& [k, v] : ref) {
    gen::Exact e(k);
    u64* p = t.traverse(e.sv());
    if (!p) fail("trie.lost", "a key of " + show(k.size()) + " bytes");
    EQ("trie.item", *p, v);
    std::string q = k; q.pop_back();
    gen::Exact f(q);
    if ((t.traverse(f.sv()) != nullptr) != (ref.count(q) != 0)) fail("trie.ghost", "a prefix of " + show(q.size()) + " bytes");
    ctx.event("trie.lookups", 2);
  }
  std::vector<std::pair<size_t, size_t>> seen;   // (depth, item + 1 or 0)
  auto judge = [&](const char* how) {
    std::map<size_t, size_t> got; size_t leaves = 0;
    for (auto& [d, i] : seen) got[d]++, leaves += i != 0;
    EQ("trie.walk_count", seen.size(), nodes);
    EQ("trie.terminals", leaves, ref.size());
    for (auto& [d, n] : level) if (got[d] != n) fail("trie.depth", std::string(how) + " meets " + show(got[d]) + " nodes at depth " + show(d) + " of " + show(n));
    ctx.event("trie.visits", seen.size());
    ctx.event("trie.walks");
  };
  auto visit = [&](const auto& n, size_t d) { seen.emplace_back(d, n.terminal() ? n.item_index() + size_t(1) : 0); };
  t.bfs(visit);
  for (size_t i = 1; i < seen.size(); i++) OK("trie.bfs_order", seen[i - 1].first <= seen[i].first, "depth falls");
  judge("bfs");
  seen.clear();
  struct Job { Trie<u64, uint32_t>* t; decltype(visit)* v; } job{&t, &visit};
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, size_t(1) << 20);   // a walk may not need stack for every level
  pthread_t th;
  if (pthread_create(&th, &at, [](void* p) -> void* { auto* j = (Job*)p; j->t->dfs(*j->v); return nullptr; }, &job)) { printf("no thread\n"); exit(2); }
  pthread_join(th, nullptr);
  pthread_attr_destroy(&at);
  judge("dfs");
  size_t at_leaf = 0;   // leaves of a depth-first walk are the keys in order
  auto it = ref.begin();
  for (auto& [d, i] : seen) if (i) { EQ("trie.depth", d, it->first.size() + 1); ++it; at_leaf++; }
  EQ("trie.terminals", at_leaf, ref.size());
  ctx.in(nodes); ctx.nontrivial();
  ctx.describe(show(ref.size()) + " keys of up to " + show(longest) + " bytes, " + show(nodes) + " nodes");
}
#include "main.inc"
