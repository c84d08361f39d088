// C26: concurrent readers of one structure, and builders of separate ones.
#if PART == 1
#define ZOO_GROUPS 1
#elif PART == 2
#define ZOO_GROUPS 2
#elif PART == 3
#define ZOO_GROUPS 4
#else
#define ZOO_GROUPS 24
#endif
#include "zoo.hpp"
using namespace zoo;

struct Trace {   // order in which the threads passed their checkpoints (relaxed: orders nothing by itself)
  std::array<std::atomic<unsigned char>, 256> who{};
  std::atomic<unsigned> n{0};
  void pass(int t) { unsigned k = n.fetch_add(1, std::memory_order_relaxed); if (k < who.size()) who[k].store(t, std::memory_order_relaxed); }
  u64 signature() { u64 h = n; for (unsigned i = 0; i < std::min<unsigned>(n, who.size()); i++) h = gen::digest(h, who[i]); return h; }
};
struct Gate {    // all threads start together
  std::atomic<int> waiting{0};
  int all;
  explicit Gate(int n) : all(n) {}
  void pass() { waiting.fetch_add(1, std::memory_order_relaxed); while (waiting.load(std::memory_order_relaxed) < all) std::this_thread::yield(); }
};
static void pause(Rng& r) {
  switch (r.below(4)) {
    case 0: std::this_thread::yield(); break;
    case 1: for (volatile u64 k = r.below(3000); k; k = k - 1); break;
    case 2: if (r.below(8) == 0) usleep(r.below(200)); break;
    default:;
  }
}
template <class F> static u64 run(Ctx& ctx, int n, F f) {
  Gate g(n);
  Trace tr;
  std::vector<std::thread> th;
  std::vector<std::string> bad(n), key(n);
  std::vector<u64> seeds;
  for (int t = 0; t < n; t++) seeds.push_back(ctx.rng.next());
  for (int t = 0; t < n; t++) th.emplace_back([&, t] {
    Rng r(seeds[t]);
    g.pass();
    try { f(t, r, tr); } catch (const Violation& v) { bad[t] = v.msg; key[t] = v.key; } catch (const std::exception& e) { bad[t] = e.what(); key[t] = "thread.exception"; }
  });
  for (auto& t : th) t.join();
  for (int t = 0; t < n; t++) if (!key[t].empty()) fail(key[t], "thread " + show(t) + ": " + bad[t]);
  ctx.event("th.threads", n);
  return tr.signature();
}
SCENARIO(th_readers, 100) {
  Rng& r = ctx.rng;
  auto& s = species()[ctx.index % species().size()];
  auto a = s.make(r.next(), r.pick<size_t>({100, 400, 1500}));
  const Animal& shared = *a;
  V e = shared.answers();
  std::string b = shared.bytes();
  auto same_bytes = [&] { std::string g = shared.bytes(); if (g != b) fail(std::string("th.bytes:") + s.name, std::string(s.name) + " writes other bytes while being read"); };
  u64 sig = run(ctx, 2 + r.below(5), [&](int t, Rng& q, Trace& tr) {
    for (int round = 0; round < 3; round++) {
      pause(q);
      tr.pass(t);
      if (shared.io() && q.below(3) == 0) same_bytes();
      else if (q.below(6) == 0) { auto c = shared.copy(); same("th.copy", *c, e, "copied while being read"); }
      else same("th.answers", shared, e, "queried by several threads");
      tr.pass(t);
    }
  });
  same("th.after", shared, e, "after the threads");
  same_bytes();
  ctx.event("th.shared_objects");
  ctx.event("th.answers", e.size());
  ctx.in(s.name); ctx.in(sig);
  ctx.nontrivial();
  ctx.describe(std::string(s.name) + ", interleaving " + show(sig));
}
SCENARIO(th_builders, 100) {
  Rng& r = ctx.rng;
  auto& all = species();
  int n = 2 + r.below(5);
  bool alike = r.coin();
  size_t first = ctx.index % all.size();
  std::vector<size_t> kind;
  std::vector<u64> seed;
  std::vector<V> want;
  auto life = [&](size_t k, u64 sd) { auto a = all[k].make(sd, 300); V v = a->answers(); if (a->io()) v.push_back(hs(a->bytes())); a->change(sd + 1); auto b = a->copy(); a.reset(); V w = b->answers(); v.insert(v.end(), w.begin(), w.end()); return v; };
  for (int t = 0; t < n; t++) { kind.push_back(alike || !t ? first : r.below(all.size())); seed.push_back(r.next()); want.push_back(life(kind[t], seed[t])); }
  u64 sig = run(ctx, n, [&](int t, Rng& q, Trace& tr) {
    for (int round = 0; round < 2; round++) {
      pause(q);
      tr.pass(t);
      V v = life(kind[t], seed[t]);
      tr.pass(t);
      if (v != want[t]) fail(std::string("th.independent:") + all[kind[t]].name, std::string(all[kind[t]].name) + " built beside others: " + diff(v, want[t]));
    }
  });
  ctx.event("th.separate_lives", n);
  ctx.in(sig); ctx.in(seed[0]);
  ctx.nontrivial();
  ctx.describe(show(n) + " threads, first " + all[first].name + ", interleaving " + show(sig));
}
#include "main.inc"
