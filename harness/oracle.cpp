// C15: compact factor oracle against the published on-line construction.
#include "mon.hpp"
#include "gen.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/string_util/FactorOracle.hpp"
using namespace mon;
using sim_ds::FactorOracle;

struct Ref {   // Allauzen, Crochemore, Raffinot 1999, Oracle-on-line
  std::vector<std::map<unsigned char, size_t>> d;
  size_t external = 0;
  explicit Ref(std::string_view t) : d(t.size() + 1) {
    std::vector<long> S(t.size() + 1, -1);
    for (size_t i = 0; i < t.size(); i++) {
      unsigned char c = t[i];
      d[i][c] = i + 1;
      long k = S[i];
      while (k > -1 && !d[k].count(c)) { d[k][c] = i + 1; external++; k = S[k]; }
      S[i + 1] = k == -1 ? 0 : (long)d[k][c];
    }
  }
  // length of the longest prefix it can read
  size_t read(std::string_view q) const { size_t s = 0, n = 0; for (unsigned char c : q) { auto it = d[s].find(c); if (it == d[s].end()) break; s = it->second; n++; } return n; }
};

static FactorOracle make(Rng& r, const std::string& t) {
  switch (r.below(4)) {
    case 0: return FactorOracle(t);
    case 1: return gen::over_range(r, t, [](auto b, auto e) { return FactorOracle(b, e); });
    case 2: { std::vector<uint8_t> v(t.begin(), t.end()); return FactorOracle(v.begin(), v.end()); }
    default: return FactorOracle(t.data(), t.data() + t.size());
  }
}

static void check(Ctx& ctx, const std::string& t, const FactorOracle& f, bool whole) {
  Rng& r = ctx.rng;
  Ref ref(t);
  size_t n = t.size();
  auto step = [&](size_t s, unsigned c) {
    size_t st = s;
    bool ok = f.image(st, (uint8_t)c);
    auto it = ref.d[s].find((unsigned char)c);
    bool e = it != ref.d[s].end();
    if (ok != e) fail(e ? "fo.missing_transition" : "fo.extra_transition", "state " + show(s) + " byte " + show(c) + " of a text of " + show(n));
    if (ok && st != it->second) fail("fo.wrong_target", "state " + show(s) + " byte " + show(c) + ": " + show(st) + ", expected " + show(it->second));
    if (!ok && st != s) fail("fo.state_changed", "state " + show(s) + " byte " + show(c) + " moved to " + show(st) + " without a transition");
  };
  if (whole) { for (size_t s = 0; s <= n; s++) for (unsigned c = 0; c < 256; c++) step(s, c); ctx.event("fo.steps", (n + 1) * 256); }
  else {
    for (size_t s = 0; s <= n; s++) for (auto& [c, to] : ref.d[s]) step(s, c);
    for (int q = 0; q < 20000; q++) step(r.below(n + 1), r.coin() ? (n ? (unsigned char)t[r.below(n)] : 'a') : unsigned(r.below(256)));
    ctx.event("fo.steps", n + 20000);
  }
  auto acc = [&](std::string_view q, bool factor) {
    gen::Exact e(q);
    bool got = f.accept(e.sv());
    size_t len = ref.read(q);
    if (factor) { if (!got) fail("fo.rejects_factor", show_str(q) + " of a text of " + show(n)); }
    if (got != (len == q.size())) fail("fo.accept", show_str(q) + ": got " + show(got));
    if (got && q.size() > n) fail("fo.accepts_longer", show_str(q));
    FactorOracle::Exproler x(e.sv());
    bool g2 = f.accept(x);
    EQ("fo.accept_explorer", g2, got);
    EQ("fo.explorer_pos", x.pos(), len);
    ctx.event(factor ? "fo.factors" : "fo.queries");
    if (got && !factor && q.size() > 1 && t.find(q) == std::string::npos) ctx.event("fo.accepted_non_factors");
  };
  acc("", true);
  acc(t, true);
  for (int q = 0; q < 30; q++) {
    if (n) { size_t i = r.below(n), l = 1 + r.below(r.coin() ? n - i : std::min<size_t>(n - i, 8)); acc(std::string_view(t).substr(i, l), true); }
    std::string s;
    switch (r.below(4)) {
      case 0: { size_t l = 1 + r.below(6); for (size_t z = 0; z < l; z++) s += n ? t[r.below(n)] : char(r.below(256)); break; }
      case 1: if (n) { size_t i = r.below(n); s = t.substr(i, 1 + r.below(n - i)); s[r.below(s.size())] = char(r.next()); } break;
      case 2: s = t + t.substr(0, 1 + r.below(3)); if (r.coin()) s += 'x'; break;
      default: { size_t st = 0; size_t l = 1 + r.below(n + 1); while (s.size() < l && !ref.d[st].empty()) { auto it = ref.d[st].begin(); std::advance(it, r.below(ref.d[st].size())); s += char(it->first); st = it->second; } } // a walk of the reference
    }
    acc(s, false);
  }
  ctx.event("fo.texts");
  ctx.event("fo.external_transitions", ref.external);
  ctx.in(t);
  ctx.nontrivial(ref.external > 0);
  ctx.describe("text of " + show(n) + " bytes, " + show(ref.external) + " external transitions: " + show_str(t, 60));
}

SCENARIO(fo_short, 1500) {
  std::string t = gen::text(ctx.rng, ctx.rng.below(40));
  auto f = make(ctx.rng, t);
  check(ctx, t, f, true);
}
SCENARIO(fo_blocks, 200) {  // lengths around the 256-cell blocks
  size_t n = 256 * ctx.rng.range(1, 3) - 3 + ctx.rng.below(6);
  std::string t = gen::text(ctx.rng, n);
  auto f = make(ctx.rng, t);
  check(ctx, t, f, true);
}
SCENARIO(fo_dense, 120) {  // many transitions per state: conflicts and relocation
  Rng& r = ctx.rng;
  std::string t;
  unsigned sig = r.pick<unsigned>({4, 20, 100, 256});
  size_t n = 100 + r.below(1500);
  while (t.size() < n) { if (r.chance(2, 3)) t += char(r.below(3)); else t += char(r.below(sig)); if (r.chance(1, 30) && t.size() > 10) t += t.substr(r.below(t.size() - 8), r.below(8)); }
  auto f = make(r, t);
  FactorOracle g(f);
  check(ctx, t, g, true);
}
SCENARIO(fo_long, 6) {
  std::string t = gen::text(ctx.rng, ctx.sanitized ? 5000 : 30000 + ctx.rng.below(30000));
  auto f = make(ctx.rng, t);
  check(ctx, t, f, false);
}
SCENARIO(fo_exhaustive_small, 1) {  // every text up to length 7 over three letters, every query up to length 4
  std::vector<std::string> qs{""};
  for (size_t i = 0; i < qs.size() && qs[i].size() < 4; i++) for (char c : {'a', '\0', '\xff'}) qs.push_back(qs[i] + c);
  std::vector<std::string> ts{""};
  size_t lim = ctx.sanitized ? 5 : 7;
  for (size_t i = 0; i < ts.size(); i++) {
    if (ts[i].size() < lim) for (char c : {'a', '\0', '\xff'}) ts.push_back(ts[i] + c);
    FactorOracle f(ts[i]);
    Ref ref(ts[i]);
    for (auto& q : qs) if (f.accept(q) != (ref.read(q) == q.size())) fail("fo.accept", show_str(q) + " on " + show_str(ts[i]));
    ctx.event("fo.queries", qs.size());
  }
  ctx.nontrivial();
  ctx.describe("all " + show(ts.size()) + " short texts over a, NUL, 0xff");
}
SCENARIO(fo_scale, .3) {   // more than 2^16 states
  if (ctx.sanitized) return;
  std::string t = gen::text(ctx.rng, 66000 + ctx.rng.below(100000));
  auto f = make(ctx.rng, t);
  check(ctx, t, f, false);
}
#include "main.inc"
