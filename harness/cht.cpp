// C13: compact hash table against std::unordered_map.
#include "mon.hpp"
#include "gen.hpp"
#include "sim_ds/CHT.hpp"
using namespace mon;
using sim_ds::CHT;

// bijections chosen for their collisions
struct IdHash { explicit IdHash(unsigned = 64) {} u64 hash(u64 x) const { return x; } u64 ihash(u64 x) const { return x; } };
struct NotHash { u64 m = ~0ull; explicit NotHash(unsigned w = 64) : m(low_mask(w)) {} u64 hash(u64 x) const { return ~x & m; } u64 ihash(u64 x) const { return ~x & m; } };
struct RevHash { unsigned w = 64; explicit RevHash(unsigned w_ = 64) : w(w_) {}
  u64 hash(u64 x) const { u64 y = 0; for (unsigned i = 0; i < w; i++) if (x >> i & 1) y |= 1ull << (w - 1 - i); return y; }
  u64 ihash(u64 x) const { return hash(x); } };

static std::string g_trace;

template <unsigned VB, unsigned LF, class H> static void run(Ctx& ctx, int ops, size_t universe) {
  using Table = CHT<VB, LF, H>;
  Rng& r = ctx.rng;
  unsigned kb = universe > 10000 ? 17 + r.below(44) : r.coin() ? r.below(13) : r.below(61);
  if (r.chance(1, 12)) kb = 60;
  size_t b0 = size_t(1) << r.pick<unsigned>({0, 1, 2, 3, 3, 3, 4, 6, 10});
  unsigned vw = VB ? VB : r.pick<unsigned>({0, 1, 2, 7, 8, 13, 32, 63, 64});
  ctx.in(kb); ctx.in(b0); ctx.in(vw);
  Table t = b0 == 8 && r.coin() ? Table(kb) : Table(kb, b0);
  if (!VB && (vw || r.coin())) t.set_value_width(vw);
  // the keys of this case: dense, strided so that they share buckets, clustered at the end of the table, or random
  std::vector<u64> keys;
  u64 m = low_mask(kb);
  int kmode = r.below(6);
  u64 stride = 1ull << r.below(12), base = r.next() & m;
  if (kb <= 12 && universe > m + 1) universe = m + 1;
  {
    std::set<u64> s;
    for (size_t i = 0; s.size() < universe && i < 4 * universe + 8; i++) {
      u64 k;
      switch (kmode) {
        case 0: k = i; break;
        case 1: k = i * stride; break;
        case 2: k = base + i; break;
        case 3: k = m - i; break;
        case 4: k = r.value(kb); break;
        default: k = (r.below(4) << (kb > 20 ? 20 : kb / 2)) + (8 - (i % 3)) + (i / 3) * 64;
      }
      s.insert(k & m);
    }
    keys.assign(s.begin(), s.end());
    for (size_t i = keys.size(); i > 1; i--) std::swap(keys[i - 1], keys[r.below(i)]);
  }
  std::unordered_map<u64, u64> ref;
  std::string trace = "key bits " + show(kb) + " buckets " + show(b0) + " value bits " + show(vw) + " keys mode " + show(kmode);
  size_t maxbucket = 0; u64 erased = 0, again = 0, resizes = 0;
  std::unordered_set<u64> gone;
  auto look = [&](u64 k) {
    auto [p, v] = t.get(k);
    auto it = ref.find(k);
    bool e = it != ref.end();
    if (p != e) fail(e ? "cht.lost" : "cht.ghost", "key " + show(k) + (e ? " lost" : " reported present") + " after " + trace);
    if (e && v != it->second) fail("cht.value", "key " + show(k) + " has " + show(v) + ", expected " + show(it->second) + " after " + trace);
    ctx.event("cht.lookups");
  };
  auto all = [&] {
    for (u64 k : keys) look(k);
    for (auto& [k, v] : ref) look(k);
    EQX("cht.size", t.size(), ref.size(), trace);
    ctx.event("cht.full_compares");
  };
  int phase = r.below(4), erase_w = 20;
  for (int q = 0; q < ops; q++) {
    if (q % (ops / 6 + 1) == 0) { phase = r.below(5); erase_w = phase == 0 ? 5 : phase == 1 ? 45 : phase == 2 ? 80 : phase == 3 ? 96 : 0; }
    u64 k = r.coin() ? r.choose(keys) : keys[r.below(std::min<size_t>(keys.size(), 12))];
    unsigned op = r.below(100);
    size_t bb = t.bucket();
    if (op >= 98 && universe > 10000 && r.below(100)) {}
    else if (op == 99 && r.coin()) { size_t n = r.coin() ? r.below(2 * keys.size() + 4) : t.size() + r.below(3); t.reserve(n); trace += " reserve" + show(n); ctx.event("cht.reserves"); }
    else if (op == 98 && r.chance(1, 3)) { Table c(t); c.set(k, r.value(vw)); t = t; if (r.coin()) { Table d(3, 2); d = t; t = std::move(d); } trace += " copied"; }
    else if (op == 97) { u64 a = r.next() & m; look(a); }
    else if ((int)op < erase_w) { t.erase(k); if (ref.erase(k)) { erased++; gone.insert(k); } trace += " -" + show(k); ctx.event("cht.erases"); }
    else { u64 v = r.value(vw); if (!ref.count(k) && gone.count(k)) again++; t.set(k, v); ref[k] = v; trace += " +" + show(k); ctx.event("cht.sets"); }
    if (trace.size() > 600) trace.erase(80, 300);
    if (t.bucket() != bb) resizes++;
    look(k);
    look(r.choose(keys));
    EQX("cht.size", t.size(), ref.size(), trace);
    OK("cht.bucket", t.size() <= t.bucket(), trace);
    maxbucket = std::max(maxbucket, t.bucket());
    if (q % (keys.size() <= 64 ? 4 : std::max<size_t>(97, keys.size() > 10000 ? keys.size() : keys.size() / 8)) == 0) all();
  }
  all();
  ctx.in(erased); ctx.in(resizes);
  ctx.event("cht.resizes", resizes);
  ctx.event("cht.reinsertions", again);
  ctx.nontrivial(resizes > 0 || erased > 3);
  ctx.describe(trace + " | final size " + show(ref.size()) + " largest table " + show(maxbucket));
}

#ifndef PART
#define PART 0
#endif
#if PART == 0 || PART == 1
template <class H> static void any1(Ctx& c, int ops, size_t uni) {
  if (c.rng.coin()) run<0, 50, H>(c, ops, uni); else run<16, 50, H>(c, ops, uni);
}
SCENARIO(cht_split, 300) { any1<sim_ds::SplitMixHash>(ctx, 200, 1 + ctx.rng.below(60)); }
SCENARIO(cht_collide, 500) { switch (ctx.rng.below(3)) { case 0: any1<IdHash>(ctx, 200, 1 + ctx.rng.below(60)); break; case 1: any1<NotHash>(ctx, 200, 1 + ctx.rng.below(60)); break; default: any1<RevHash>(ctx, 200, 1 + ctx.rng.below(60)); } }
SCENARIO(cht_large, 12) { run<32, 50, sim_ds::SplitMixHash>(ctx, 6000, 3000); }
#endif
#if PART == 0 || PART == 2
template <class H> static void any2(Ctx& c, int ops, size_t uni) {
  switch (c.rng.below(5)) {
    case 0: run<64, 90, H>(c, ops, uni); break;
    case 1: run<1, 99, H>(c, ops, uni); break;
    case 2: run<0, 75, H>(c, ops, uni); break;
    case 3: run<8, 20, H>(c, ops, uni); break;
    default: run<0, 5, H>(c, ops, uni);
  }
}
SCENARIO(cht_load, 300) { any2<sim_ds::SplitMixHash>(ctx, 200, 1 + ctx.rng.below(60)); }
SCENARIO(cht_load_collide, 500) { any2<IdHash>(ctx, 200, 1 + ctx.rng.below(60)); }
SCENARIO(cht_load_collide_large, 6) { run<0, 90, IdHash>(ctx, 5000, 2000); }   // runs of thousands of entries
SCENARIO(cht_load_large, 6) { run<0, 90, sim_ds::SplitMixHash>(ctx, 6000, 3000); }
#endif
#if PART == 0 || PART == 1
SCENARIO(cht_scale, .4) { if (ctx.sanitized) return; run<0, 50, sim_ds::SplitMixHash>(ctx, 1000000, 200000); }   // more than 2^16 keys
#endif
#if PART == 0 || PART == 2
SCENARIO(cht_load_scale, .4) { if (ctx.sanitized) return; run<64, 90, sim_ds::SplitMixHash>(ctx, 1000000, 200000); }
#endif
SCENARIO(cht_width_rules, 20) {
  // the run-time value width may be chosen only where it is not fixed and the table is empty
  CHT<8> f(10);
  bool thrown = false;
  try { f.set_value_width(9); } catch (const std::bad_function_call&) { thrown = true; }
  OK("cht.width_rule", thrown, "fixed width");
  CHT<0> t(10);
  unsigned w = 1 + ctx.rng.below(64);
  t.set_value_width(w);
  u64 v = ctx.rng.value(w);
  t.set(5, v);
  thrown = false;
  try { t.set_value_width(3); } catch (const std::bad_function_call&) { thrown = true; }
  OK("cht.width_rule", thrown, "non-empty");
  EQ("cht.value", t.get(5).second, v);
  ctx.in(w); ctx.in(v);
  ctx.nontrivial();
}
#include "main.inc"
