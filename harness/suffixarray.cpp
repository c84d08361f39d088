// C17: suffix array and LCP array, verified in linear time at every size.
#include "mon.hpp"
#include "gen.hpp"
#include "sim_ds/string_util/SuffixArray.hpp"
using namespace mon;
using sim_ds::SuffixArray;
using sim_ds::FitVector;

static void verify(Ctx& ctx, const std::string& s, const SuffixArray& a) {
  std::stringstream w1, w2;
  a.WriteSA(w1); a.WriteLCP(w2);
  FitVector sa(w1), lcp(w2);
  size_t n = s.size();
  auto at = [&] { return "text of " + show(n) + ": " + show_str(s, 120); };
  EQX("sa.size", sa.size(), n, at());
  EQX("sa.lcp_size", lcp.size(), n, at());
  std::vector<size_t> rank(n + 1, SIZE_MAX);
  for (size_t i = 0; i < n; i++) {
    u64 p = sa[i];
    if (p >= n || rank[p] != SIZE_MAX) fail("sa.permutation", "entry " + show(i) + " is " + show(p) + (p < n ? " again" : "") + " in " + at());
    rank[p] = i;
  }
  // order: first bytes, then the ranks of the remainders
  for (size_t i = 0; i + 1 < n; i++) {
    size_t p = sa[i], q = sa[i + 1];
    unsigned char x = s[p], y = s[q];
    bool ok = x < y || (x == y && (p + 1 == n || (q + 1 < n && rank[p + 1] < rank[q + 1])));
    if (!ok) fail("sa.order", "suffixes " + show(p) + " and " + show(q) + " at " + show(i) + " are out of order in " + at());
  }
  // Kasai
  std::vector<size_t> e(n, 0);
  size_t h = 0;
  for (size_t p = 0; p < n; p++) {
    if (rank[p] + 1 == n) { h = 0; continue; }
    size_t q = sa[rank[p] + 1];
    while (p + h < n && q + h < n && s[p + h] == s[q + h]) h++;
    e[rank[p]] = h;
    if (h) h--;
  }
  for (size_t i = 0; i < n; i++) if (lcp[i] != e[i]) fail("sa.lcp", "entry " + show(i) + " is " + show(lcp[i]) + ", expected " + show(e[i]) + " in " + at());
  for (int q = 0; q < 20; q++) {
    size_t i = ctx.rng.below(n + 1);
    EQX("sa.suffix", a.suffix(i), std::string_view(s).substr(i), at());
    size_t l = ctx.rng.below(n - i + 3);
    EQX("sa.suffix_n", a.suffix(i, l), std::string_view(s).substr(i, l), at());
    if (i < n) EQX("sa.char_at", a.char_at(i), (unsigned char)s[i], at());
  }
  u64 m = n ? *std::max_element(e.begin(), e.end()) : 0;
  ctx.in(s);
  ctx.event("sa.texts");
  ctx.event("sa.entries", n);
  if (m > 1) ctx.event("sa.texts_with_repeats");
  ctx.nontrivial(n > 2);
  ctx.describe("text of " + show(n) + ", longest repeat " + show(m) + ": " + show_str(s, 60));
}
static void go(Ctx& ctx, const std::string& s) {
  SuffixArray a(s);
  verify(ctx, s, a);
  if (ctx.rng.chance(1, 8)) { SuffixArray b; b = a; SuffixArray c(std::move(a)); verify(ctx, s, b); verify(ctx, s, c); }
}
SCENARIO(sa_tiny, 6000) { go(ctx, gen::text(ctx.rng, ctx.rng.below(14))); }
SCENARIO(sa_short, 3000) { go(ctx, gen::text(ctx.rng, ctx.rng.below(120))); }
SCENARIO(sa_mid, 300) { go(ctx, gen::text(ctx.rng, ctx.rng.below(3000))); }
SCENARIO(sa_long, 12) { go(ctx, gen::text(ctx.rng, ctx.sanitized ? 8000 : 20000 + ctx.rng.below(60000))); }
SCENARIO(sa_deep, 300) {  // strings grown by morphisms: several recursion levels
  Rng& r = ctx.rng;
  std::string x[3];
  for (auto& y : x) { size_t l = 1 + r.below(4); for (size_t i = 0; i < l; i++) y += char('a' + r.below(3)); }
  std::string s = "a";
  size_t lim = 1 + r.below(1500);
  for (int it = 0; it < 14 && s.size() < lim; it++) { std::string t; for (char c : s) t += x[c - 'a']; s = t; if (t.size() > 4 * lim) break; }
  if (s.size() > lim) s.resize(lim);
  std::string map = r.coin() ? std::string("abc") : std::string("\xff\0\x80", 3);
  for (auto& c : s) c = map[c - 'a'];
  if (r.chance(1, 3)) s += char(r.next());
  go(ctx, s);
}
SCENARIO(sa_exhaustive, 6) {  // every string over k bytes up to a length
  static const struct { const char* al; int k; size_t len; } cs[] = {{"ab", 2, 11}, {"\xff\0", 2, 10}, {"a\0\x80", 3, 7}, {"abcd", 4, 6}, {"\0\x01", 2, 9}, {"\x7f\x80\xff", 3, 6}};
  auto& c = cs[ctx.index % 6];
  size_t len = c.len - (ctx.sanitized ? 2 : 0);
  std::string s;
  u64 cnt = 0;
  for (size_t l = 0; l <= len; l++) {
    u64 total = 1; for (size_t i = 0; i < l; i++) total *= c.k;
    for (u64 v = 0; v < total; v++) { s.clear(); u64 x = v; for (size_t i = 0; i < l; i++) { s += c.al[x % c.k]; x /= c.k; } SuffixArray a(s); verify(ctx, s, a); cnt++; std::cout.rdbuf()->pubseekpos(0); }
  }
  ctx.event("sa.exhausted_strings", cnt);
  ctx.describe("all " + show(cnt) + " strings over " + show(c.k) + " bytes up to length " + show(len));
}
SCENARIO(sa_scale, .4) {
  if (ctx.sanitized) return;
  Rng& r = ctx.rng;
  std::string s;   // more than 2^16 different substrings between local minima
  size_t n = 300000 + r.below(100000), sig = r.pick<size_t>({20, 60, 256});
  while (s.size() < n) s += char(r.below(sig));
  go(ctx, s);
  go(ctx, gen::text(r, 500000 + r.below(500000)));
}
#include "main.inc"
