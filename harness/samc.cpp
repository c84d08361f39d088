// C19 (PART 1): static key set; C20 (PART 2): static dictionary; both against std::set.
#include "mon.hpp"
#include "gen.hpp"
#include "sim_ds/string_util/Samc.hpp"
using namespace mon;
using namespace sim_ds;
#ifndef PART
#define PART 0
#endif

struct Keys { std::vector<std::string> list; std::set<std::string> set; std::string what; size_t chars = 0; };

static Keys make_keys(Rng& r, size_t maxn, bool dups) {
  Keys K;
  size_t n = r.chance(1, 20) ? 0 : r.coin() ? r.below(maxn + 1) : r.below(std::min<size_t>(maxn, 12) + 1);
  unsigned sig = r.pick<unsigned>({1, 2, 3, 8, 26, 254});
  unsigned off = sig >= 254 ? 1 : 1 + r.below(254 - sig);
  size_t ml = r.pick<size_t>({1, 2, 4, 8, 20, 60});
  int mode = r.below(5);
  std::vector<std::string> pool;
  for (size_t i = 0; i < n; i++) {
    std::string s;
    auto ch = [&] { return char(off + r.below(sig)); };
    if (mode == 1 && !pool.empty()) { s = r.choose(pool); if (r.coin()) s.resize(r.below(s.size() + 1)); while (s.size() < ml && r.coin()) s += ch(); }
    else if (mode == 2) { size_t l = ml; while (s.size() < l) s += ch(); }                                       // equal lengths
    else if (mode == 3 && !pool.empty()) { s = r.choose(pool); if (!s.empty()) s[r.below(s.size())] = ch(); s += s.size() < ml ? std::string(1, ch()) : ""; }
    else { size_t l = r.below(ml + 1); while (s.size() < l) s += ch(); }
    pool.push_back(s);
    K.set.insert(s);
    K.list.push_back(s);
    K.chars += s.size() + 1;
  }
  if (r.chance(1, 10)) { std::string s; K.set.insert(s); K.list.push_back(s); }
  if (!dups) K.list.assign(K.set.begin(), K.set.end());
  std::sort(K.list.begin(), K.list.end());
  K.what = show(K.set.size()) + " keys (mode " + show(mode) + ", " + show(sig) + " bytes from " + show(off) + ", length up to " + show(ml) + ") " + show_seq(K.list, 6);
  return K;
}

// A few keys hundreds or thousands of bytes long: parting early, late, or only at the end, of equal and of different lengths.
static Keys deep_keys(Rng& r, size_t maxlen, bool dups) {
  Keys K;
  size_t n = 1 + r.below(10);
  unsigned sig = r.pick<unsigned>({1, 2, 4, 254});
  unsigned off = sig >= 254 ? 1 : 1 + r.below(254 - sig);
  auto ch = [&] { return char(off + r.below(sig)); };
  size_t len = r.pick<size_t>({100, 126, 127, 128, 254, 255, 256, 257, 300, 511, 512, 1000, 4095, 32767, 32768, 65535, 65536, 65600});
  if (len > maxlen) len = maxlen / 2 + r.below(maxlen / 2);
  std::string base;
  while (base.size() < len) base += ch();
  for (size_t i = 0; i < n; i++) {
    std::string s = base;
    switch (r.below(6)) {
      case 0: s[0] = ch(); break;
      case 1: s.back() = ch(); break;
      case 2: s[r.below(len)] = ch(); break;
      case 3: s.resize(len - r.below(3)); break;
      case 4: s.resize(r.below(len + 1)); while (s.size() < len) s += ch(); break;
      default: s += ch();
    }
    K.set.insert(s);
    K.list.push_back(s);
    K.chars += s.size() + 1;
  }
  if (!dups) K.list.assign(K.set.begin(), K.set.end());
  std::sort(K.list.begin(), K.list.end());
  K.what = show(K.set.size()) + " keys (" + show(sig) + " bytes from " + show(off) + ") of about " + show(len) + " bytes";
  return K;
}

template <class F> static void queries(Ctx& ctx, const Keys& K, size_t per_key, F ask) {
  Rng& r = ctx.rng;
  size_t longest = 0;
  for (auto& k : K.set) longest = std::max(longest, k.size());
  auto q = [&](const std::string& s) { gen::Exact e(s); ask(e.sv(), K.set.count(s) != 0); ctx.event("samc.queries"); if (!K.set.count(s)) ctx.event("samc.absent_queries"); };
  q("");
  q(std::string(1, '\0')); q("\xff"); q("^");
  q(std::string(longest + 1, K.list.empty() || K.list[0].empty() ? 'a' : K.list[0][0]));
  q(std::string(longest + 300, 'a'));
  for (unsigned c = 0; c < 256; c++) q(std::string(1, char(c)));
  for (auto& k : K.set) {
    q(k);
    for (size_t z = 0; z < per_key; z++) {
      std::string s = k;
      switch (r.below(8)) {
        case 0: s.resize(r.below(s.size() + 1)); break;
        case 1: s += char(r.next()); break;
        case 2: s += '\0'; break;
        case 3: if (!s.empty()) s[r.below(s.size())] = char(r.next()); break;
        case 4: if (!s.empty()) s[r.below(s.size())] = '\0'; break;
        case 5: if (!s.empty() && !K.list.empty()) { auto& o = K.list[r.below(K.list.size())]; size_t cut = r.below(s.size() + 1); s = s.substr(0, cut) + (cut < o.size() ? o.substr(cut) : ""); } break; // tails swapped at equal depth
        case 6: if (s.size() > 1) std::swap(s[r.below(s.size())], s[r.below(s.size())]); break;
        default: s += s.empty() ? "\xff" : s;
      }
      q(s);
    }
  }
}
template <class S> static S construct(Rng& r, const Keys& K) {
  switch (r.below(3)) {
    case 0: return gen::over_range(r, K.list, [](auto b, auto e) { return S(b, e); });
    case 1: { auto copy = K.list; S s(copy.begin(), copy.end()); for (auto& x : copy) x.assign(x.size(), 'Z'); return s; } // the keys need not outlive construction
    default: return S(K.list.data(), K.list.data() + K.list.size());
  }
}

// more than 2^16 keys, nodes and leaves
template <class S, class F> static void scale(Ctx& ctx, F ask) {
  Rng& r = ctx.rng;
  size_t n = 70000 + r.below(20000);
  std::set<std::string> set;
  unsigned sig = r.pick<unsigned>({6, 10, 40, 250});
  size_t len = sig == 6 ? 9 : sig == 10 ? 7 : sig == 40 ? 5 : 4;
  while (set.size() < n) { std::string s; size_t l = len - r.below(2); while (s.size() < l) s += char(1 + r.below(sig)); set.insert(s); }
  std::vector<std::string> k(set.begin(), set.end());
  S s(k.begin(), k.end());
  for (size_t i = 0; i < k.size(); i++) {
    ask(s, k[i], true, i);
    std::string q = k[i];
    switch (r.below(3)) { case 0: q.resize(r.below(q.size())); break; case 1: q[r.below(q.size())] = char(1 + r.below(sig)); break; default: q += char(r.next()); }
    ask(s, q, set.count(q), k.size());
  }
  ctx.in(n); ctx.in(k[0]);
  ctx.event("samc.queries", 2 * n);
  ctx.nontrivial();
  ctx.describe(show(n) + " keys over " + show(sig) + " bytes");
}

#if PART == 0 || PART == 1
template <class S> static void key_set(Ctx& ctx, Keys K, size_t per_key);
template <class S> static void key_set(Ctx& ctx, size_t maxn, size_t per_key) { key_set<S>(ctx, make_keys(ctx.rng, maxn, true), per_key); }
template <class S> static void key_set(Ctx& ctx, Keys K, size_t per_key) {
  S s = construct<S>(ctx.rng, K);
  const S& c = s;
  auto ask = [&](std::string_view q, bool e) { bool g = c.accept(q); if (g != e) fail(e ? "samc.rejects_key" : "samc.accepts_non_key", show_str(q) + " against " + K.what); };
  queries(ctx, K, per_key, ask);
  if (ctx.rng.chance(1, 6)) { S d; d = s; S m(std::move(s)); s = S(); for (auto& k : K.set) { OK("samc.copy", d.accept(k) && m.accept(k), show_str(k)); } }
  for (auto& k : K.list) ctx.in(k);
  ctx.event("samc.sets");
  if (K.list.size() != K.set.size()) ctx.event("samc.sets_with_duplicates");
  if (K.set.count("")) ctx.event("samc.sets_with_empty_key");
  ctx.nontrivial(K.set.size() > 1);
  ctx.describe(K.what);
}
SCENARIO(samc_small, 500) { key_set<Samc<int>>(ctx, 60, 6); }
SCENARIO(samc_small_long, 250) { key_set<Samc<long long>>(ctx, 60, 6); }
SCENARIO(samc_narrow, 250) { key_set<Samc<int16_t>>(ctx, 8, 8); }
SCENARIO(samc_legacy, 300) { key_set<Samc<int, true>>(ctx, 40, 6); }
SCENARIO(samc_big, 8) { key_set<Samc<int>>(ctx, ctx.sanitized ? 600 : 4000, 3); }
SCENARIO(samc_deep, 60) { key_set<Samc<int>>(ctx, deep_keys(ctx.rng, 1200, true), 6); }
SCENARIO(samc_deep_legacy, 20) { key_set<Samc<long long, true>>(ctx, deep_keys(ctx.rng, 1200, true), 6); }
SCENARIO(samc_deepest, .6) { if (!ctx.sanitized) key_set<Samc<int>>(ctx, deep_keys(ctx.rng, 70000, true), 2); }
SCENARIO(samc_scale, .1) { if (ctx.sanitized) return; scale<Samc<int>>(ctx, [](const Samc<int>& s, const std::string& q, bool e, size_t) { if (s.accept(q) != e) fail(e ? "samc.rejects_key" : "samc.accepts_non_key", show_str(q)); }); }
SCENARIO(samc_default, 4) {
  Samc<int> s; Samc<int, true> t;
  Keys K;
  queries(ctx, K, 0, [&](std::string_view q, bool) { OK("samc.default", !s.accept(q) && !t.accept(q), show_str(q)); });
}
SCENARIO(samc_exhaustive, 1) {  // every set of strings over two bytes up to length 2, every query up to length 3
  std::vector<std::string> qs{""};
  for (size_t i = 0; i < qs.size(); i++) if (qs[i].size() < 3) for (char c : {'a', '\xfe', '\0'}) qs.push_back(qs[i] + c);
  std::vector<std::string> all;
  for (auto& q : qs) if (q.size() < 3 && q.find('\0') == std::string::npos) all.push_back(q);
  std::sort(all.begin(), all.end());
  for (u64 m = 0; m < (1ull << all.size()); m++) {
    std::vector<std::string> k;
    for (size_t i = 0; i < all.size(); i++) if (m >> i & 1) k.push_back(all[i]);
    Samc<int> s(k.begin(), k.end());
    Samc<int, true> t(k.begin(), k.end());
    for (auto& q : qs) {
      bool e = std::find(k.begin(), k.end(), q) != k.end();
      if (s.accept(q) != e || t.accept(q) != e) fail(e ? "samc.rejects_key" : "samc.accepts_non_key", show_str(q) + " against " + show_seq(k));
    }
    ctx.event("samc.queries", 2 * qs.size());
  }
  ctx.nontrivial();
  ctx.describe("all " + show(1ull << all.size()) + " key sets over two bytes up to length 2");
}
#endif

#if PART == 0 || PART == 2
template <class S> static void dict(Ctx& ctx, Keys K, size_t per_key);
template <class S> static void dict(Ctx& ctx, size_t maxn, size_t per_key) { dict<S>(ctx, make_keys(ctx.rng, maxn, false), per_key); }
template <class S> static void dict(Ctx& ctx, Keys K, size_t per_key) {
  S s = construct<S>(ctx.rng, K);
  size_t n = K.set.size();
  auto full = [&](const S& d, size_t pk, const char* how) {
    std::vector<std::string> name(n);
    std::vector<char> seen(n, 0);
    queries(ctx, K, pk, [&](std::string_view q, bool e) {
      size_t id = d.lookup(q);
      if (!e) { if (id != S::kSearchError) fail("dict.ghost", show_str(q) + " has id " + show(id) + " (" + how + ") in " + K.what); return; }
      if (id == S::kSearchError) fail("dict.lost", show_str(q) + " not found (" + how + ") in " + K.what);
      if (id >= n) fail("dict.range", show_str(q) + " has id " + show(id) + " of " + show(n) + " (" + how + ")");
      if (!seen[id]) { seen[id] = 1; name[id] = q; }
      else if (name[id] != q) fail("dict.unique", "id " + show(id) + " given to " + show_str(name[id]) + " and " + show_str(q));
    });
    for (size_t id = 0; id < n; id++) {
      OK("dict.onto", seen[id], "id " + show(id) + " unused");
      std::string a = d.access(id);
      if (a != name[id]) fail("dict.access", "id " + show(id) + " is " + show_str(a) + ", expected " + show_str(name[id]) + " (" + how + ") in " + K.what);
    }
    ctx.event("dict.ids", n);
    return name;
  };
  auto names = full(s, per_key, "built");
  S again = construct<S>(ctx.rng, K);
  for (size_t id = 0; id < n; id++) EQ("dict.deterministic", again.lookup(names[id]), id);
  std::stringstream io;
  s.Write(io);
  S back;
  if (ctx.rng.coin()) { Keys other = make_keys(ctx.rng, 20, false); back = construct<S>(ctx.rng, other); }
  back.Read(io);
  auto names2 = full(back, 1, "restored");
  OK("dict.restored_numbering", names == names2, K.what);
  if (ctx.rng.chance(1, 6)) { S d; d = s; S m(std::move(s)); s = S(); for (size_t id = 0; id < n; id++) { EQ("dict.copy", d.access(id), names[id]); EQ("dict.copy", m.lookup(names[id]), id); } }
  for (auto& k : K.list) ctx.in(k);
  ctx.event("dict.sets");
  ctx.nontrivial(n > 1);
  ctx.describe(K.what);
}
SCENARIO(dict_small, 500) { dict<SamcDict<int>>(ctx, 60, 6); }
SCENARIO(dict_small_long, 250) { dict<SamcDict<long long>>(ctx, 60, 6); }
SCENARIO(dict_narrow, 250) { dict<SamcDict<int16_t>>(ctx, 8, 8); }
SCENARIO(dict_big, 8) { dict<SamcDict<int>>(ctx, ctx.sanitized ? 600 : 4000, 3); }
SCENARIO(dict_deep, 60) { dict<SamcDict<int>>(ctx, deep_keys(ctx.rng, 1200, false), 6); }
SCENARIO(dict_deepest, .6) { if (!ctx.sanitized) dict<SamcDict<int>>(ctx, deep_keys(ctx.rng, 70000, false), 2); }
SCENARIO(dict_dense, 20) {  // thousands of leaves close together: the directories over the leaves are exercised
  Rng& r = ctx.rng;
  std::vector<std::string> k;
  unsigned a = 10 + r.below(60), b = 1 + r.below(100);
  for (unsigned i = 0; i < a; i++) for (unsigned j = 0; j < b; j++) { std::string s; s += char(1 + i); s += char(1 + j); k.push_back(s); if (r.chance(1, 5)) k.push_back(s + char(1 + r.below(250))); }
  std::sort(k.begin(), k.end());
  k.erase(std::unique(k.begin(), k.end()), k.end());
  SamcDict<int> d(k.begin(), k.end());
  std::vector<char> seen(k.size());
  for (auto& s : k) { size_t id = d.lookup(s); if (id >= k.size() || seen[id]++) fail("dict.unique", "id " + show(id)); EQ("dict.access", d.access(id), s); }
  ctx.in(a); ctx.in(b);
  ctx.event("dict.ids", k.size());
  ctx.nontrivial();
}
SCENARIO(dict_scale, .1) {
  if (ctx.sanitized) return;
  std::vector<char> seen(100000);
  scale<SamcDict<int>>(ctx, [&](const SamcDict<int>& s, const std::string& q, bool e, size_t i) {
    size_t id = s.lookup(q);
    if ((id != SamcDict<int>::kSearchError) != e) fail(e ? "dict.lost" : "dict.ghost", show_str(q));
    if (!e || i == 100000) return;
    if (id >= seen.size()) fail("dict.range", "id " + show(id));
    if (s.access(id) != q) fail("dict.access", "id " + show(id) + " is " + show_str(s.access(id)) + ", expected " + show_str(q));
    ctx.event("dict.ids");
  });
}
SCENARIO(dict_default, 4) {
  SamcDict<int> s;
  Keys K;
  queries(ctx, K, 0, [&](std::string_view q, bool) { EQ("dict.default", s.lookup(q), SamcDict<int>::kSearchError); });
}
#endif
#include "main.inc"
