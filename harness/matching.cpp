// C16: the seven matchers against a definition-level scan.
#include "mon.hpp"
#include "gen.hpp"
#include "sim_ds/basic.hpp"
#include "sim_ds/string_util/PatternMatching.hpp"
using namespace mon;
using namespace sim_ds::pattern_matching;

using Fn2 = std::vector<size_t> (*)(std::string_view, std::string_view);
static const std::pair<const char*, Fn2> kAll[] = {
  {"Simple", PatternMatchSimple}, {"KMP", PatternMatchKMP}, {"BM", PatternMatchBM}, {"BOM", PatternMatchBOM},
  {"TurboBOM", PatternMatchTurboBOM}, {"SundayQS", PatternMatchSundayQS}, {"SundayMS", PatternMatchSundayMS}};

static std::vector<size_t> occurrences(std::string_view t, std::string_view k) {
  std::vector<size_t> e;
  for (size_t i = 0; i + k.size() <= t.size(); i++) if (!memcmp(t.data() + i, k.data(), k.size())) e.push_back(i);
  return e;
}
static void differ(const char* name, std::string_view t, std::string_view k, const std::vector<size_t>& g, const std::vector<size_t>& e) {
  fail(std::string("pm.") + name, std::string(name) + ": pattern " + show_str(k) + " in " + show_str(t, 400) + " gave " + show_seq(g) + ", expected " + show_seq(e));
}
template <class M> static void object(Ctx& ctx, const char* name, const M& m, const std::vector<std::string_view>& texts, std::string_view k) {
  for (auto t : texts) { auto e = occurrences(t, k); auto g = m.find_all(t); if (g != e) differ(name, t, k, g, e); ctx.event("pm.object_searches"); }
}

static void one(Ctx& ctx, std::string_view T, std::string_view K, bool objects) {
  gen::Exact te(T), ke(K);
  auto t = te.sv(); auto k = ke.sv();
  auto e = occurrences(t, k);
  for (auto& [n, f] : kAll) { auto g = f(t, k); if (g != e) differ(n, t, k, g, e); }
  ctx.event("pm.searches", 7);
  ctx.event("pm.occurrences", e.size());
  if (e.empty()) ctx.event("pm.absent");
  if (k.size() > t.size()) ctx.event("pm.pattern_longer");
  for (size_t i = 1; i < e.size(); i++) if (e[i] - e[i - 1] < k.size()) { ctx.event("pm.texts_with_overlaps"); break; }
  if (objects) {  // one matcher, several texts
    std::vector<std::string_view> ts{t, k, t.substr(0, t.size() / 2), std::string_view(), t};
    object(ctx, "Simple", Simple(k), ts, k);
    object(ctx, "KMP", Kmp(k), ts, k);
    object(ctx, "BM", Bm(k), ts, k);
    object(ctx, "BOM", Bom(k), ts, k);
    object(ctx, "TurboBOM", TurboBom(k), ts, k);
    object(ctx, "SundayQS", SundayQS(k), ts, k);
    object(ctx, "SundayMS", SundayMS(k), ts, k);
  }
}

static void random_case(Ctx& ctx, size_t maxk, size_t maxt, bool objects) {
  Rng& r = ctx.rng;
  std::string kd, td;
  std::string k = gen::text(r, 1 + r.below(r.coin() ? maxk : std::min<size_t>(maxk, 9)), true, &kd);
  std::string t;
  size_t n = r.below(r.coin() ? maxt : std::min<size_t>(maxt, 40)) ;
  int mode = r.below(5);
  if (mode == 0) t = gen::text(r, n, true, &td);
  else while (t.size() < n) { // pieces of the pattern, so that partial matches abound
    if (r.chance(1, 6)) t += k[r.below(k.size())];
    else if (r.chance(1, 10)) t += char(r.next());
    else if (mode == 1) { size_t i = r.below(k.size()); t += k.substr(i, 1 + r.below(k.size() - i)); }
    else if (mode == 2) t += k.substr(0, 1 + r.below(k.size()));
    else if (mode == 3) t += k.substr(r.below(k.size()));
    else t += k;
  }
  if (r.chance(1, 4) && !t.empty()) { size_t i = r.below(t.size()); k = t.substr(i, 1 + r.below(std::min(maxk, t.size() - i))); }
  ctx.in(k); ctx.in(t);
  one(ctx, t, k, objects);
  ctx.nontrivial(k.size() > 1 && t.size() > k.size());
  ctx.describe("pattern " + show_str(k, 40) + " (" + show(k.size()) + ") in " + show_str(t, 60) + " (" + show(t.size()) + ")");
}
SCENARIO(pm_short, 12000) { random_case(ctx, 12, 80, ctx.rng.chance(1, 8)); }
SCENARIO(pm_mid, 1500) { random_case(ctx, 60, 1500, ctx.rng.chance(1, 8)); }
SCENARIO(pm_long, 60) { random_case(ctx, 900, 20000, ctx.rng.chance(1, 8)); }
SCENARIO(pm_periodic, 1500) {  // highly periodic patterns and texts
  Rng& r = ctx.rng;
  std::string u; size_t p = 1 + r.below(5);
  for (size_t i = 0; i < p; i++) u += r.pick<char>({'a', 'b', '\xff', '\0'});
  std::string k, t;
  size_t kl = 1 + r.below(40);
  while (k.size() < kl) k += u;
  k.resize(kl);
  if (r.chance(1, 3)) k[r.below(kl)] = 'b';
  size_t tl = r.below(200);
  while (t.size() < tl) { t += u; if (r.chance(1, 25)) t += r.pick<char>({'a', 'b', '\xff'}); if (r.chance(1, 40)) t += k; }
  ctx.in(k); ctx.in(t);
  one(ctx, t, k, r.chance(1, 6));
  ctx.nontrivial(kl > 1 && t.size() > kl);
  ctx.describe("pattern " + show_str(k, 40) + " in " + show_str(t, 60));
}
SCENARIO(pm_exhaustive_binary, 1) {  // all texts up to length 9, all patterns up to length 4 over two bytes
  size_t lt = ctx.sanitized ? 7 : 9;
  std::vector<std::string> ks, ts{""};
  for (char x : {'a', '\xff'}) ks.push_back(std::string(1, x));
  for (size_t i = 0; i < ks.size(); i++) if (ks[i].size() < 4) for (char x : {'a', '\xff'}) ks.push_back(ks[i] + x);
  for (size_t i = 0; i < ts.size(); i++) if (ts[i].size() < lt) for (char x : {'a', '\xff'}) ts.push_back(ts[i] + x);
  for (auto& k : ks) for (auto& t : ts) {
    auto e = occurrences(t, k);
    for (auto& [n, f] : kAll) { auto g = f(t, k); if (g != e) differ(n, t, k, g, e); }
    ctx.event("pm.searches", 7);
  }
  ctx.nontrivial();
  ctx.describe(show(ks.size()) + " patterns x " + show(ts.size()) + " texts over two bytes");
}
SCENARIO(pm_scale, .4) {   // patterns and texts of more than 2^16 bytes
  if (ctx.sanitized) return;
  Rng& r = ctx.rng;
  unsigned sig = r.pick<unsigned>({3, 4, 26, 256});
  std::string k, t;
  size_t n = 65536 + r.below(6000);
  if (r.chance(1, 3)) n = 200 + r.below(1000);
  else if (r.coin()) n = r.coin() ? 65535 : 65533 + r.below(5);
  while (k.size() < n) { if (k.size() > 50 && r.chance(1, 60)) { size_t l = r.below(k.size() / 3); k += k.substr(r.below(k.size() - l), l); } else k += char(r.below(sig)); }
  k.resize(n);
  while (t.size() < 400000) {
    if (r.chance(1, 3)) { size_t i = r.below(n); t += k.substr(i, 1 + r.below(n - i)); }
    else { t += k; if (r.coin()) { size_t e = r.below(std::min<size_t>(n, 40)), at = t.size() - n + (r.coin() ? e : n - 1 - e); t[at] = char(t[at] ^ (r.coin() ? 1 : 1 + r.below(255))); } }  // all but one byte of it
    if (r.coin()) { size_t l = r.below(40); while (l--) t += char(r.chance(1, 8) ? r.below(256) : r.below(sig)); }
    if (r.chance(1, 4)) t[t.size() - 1 - r.below(std::min<size_t>(t.size(), n))] ^= 1;
  }
  one(ctx, t, k, false);
  ctx.in(k); ctx.in(t);
  ctx.nontrivial();
  ctx.describe("pattern of " + show(k.size()) + " bytes over " + show(sig) + " in a text of " + show(t.size()));
}
SCENARIO(pm_scale_borders, 8) {   // patterns of more than 2^15 or 2^16 bytes that repeat themselves, shifts as long as the pattern
  if (ctx.sanitized) return;
  Rng& r = ctx.rng;
  static const size_t lens[] = {65535, 32768, 65536, 32769, 65537, 65534, 40000, 70000, 131071};
  size_t n = lens[ctx.index % 9];
  std::string u, k;
  size_t p = r.pick<size_t>({1, 2, 3, 7, 50, n / 3, n - 1 - r.below(20), n, n});
  while (u.size() < p) u += char('b' + r.below(p == 2 ? 2 : 9));
  u[0] = 'a';
  while (k.size() < n) k += u;
  k.resize(n);
  int odd = std::max(0, int(r.below(6)) - 2);
  if (odd == 1) k[r.below(n)] = 'z'; else if (odd == 2) k[n - 1] = 'z'; else if (odd == 3) k[0] = 'z';
  std::string t;
  auto near = [&] { std::string c = k; if (r.coin()) c[r.below(n)] ^= 1; if (r.chance(1, 3)) c.resize(n - r.below(40)); return c; };
  const size_t want = p * 4 < n ? n + 8000 : 3 * n;   // short periods take the comparing matchers quadratic time
  if (r.coin()) t = k;
  if (r.chance(1, 3)) t += k.substr(n - n % p);   // a run of the period goes on
  while (t.size() < want) {
    size_t l = r.below(60);
    switch (r.below(5)) {
      case 0: t.append(l, '0'); break;                      // bytes the pattern has not
      case 1: t += k; break;
      case 2: t += near(); break;
      case 3: t += k.substr(n - l); break;
      default: t += u.substr(0, l); t += '0';
    }
  }
  if (p * 4 < n) t.resize(n + 8000);
  gen::Exact te(t), ke(k);
  auto e = occurrences(te.sv(), ke.sv());
  for (auto& [name, f] : kAll) {
    if (!strcmp(name, "SundayMS")) continue;   // takes cubic time to set up
    if ((!strcmp(name, "BOM") || !strcmp(name, "TurboBOM")) && r.coin()) continue;
    auto g = f(te.sv(), ke.sv());
    if (g != e) fail(std::string("pm.") + name, std::string(name) + ": pattern of " + show(n) + " bytes, period about " + show(p) + ", in a text of " + show(t.size()) + " gave " + show_seq(g) + ", expected " + show_seq(e));
    ctx.event("pm.searches");
    ctx.event("pm.scale_searches");
  }
  ctx.event("pm.occurrences", e.size());
  ctx.in(k); ctx.in(t);
  ctx.nontrivial();
  ctx.describe("pattern of " + show(n) + " bytes, period about " + show(p) + ", in a text of " + show(t.size()));
}
// Texts longer than 2^31 and 2^32 bytes: zeros never touched, with patterns planted around the powers of two.
struct Vast {
  char* p = nullptr; size_t n;
  explicit Vast(size_t n) : n(n) {
    void* m = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m != MAP_FAILED) p = (char*)m;
  }
  ~Vast() { if (p) munmap(p, n); }
};
SCENARIO(pm_beyond32, .85) {   // one case per matcher
  if (ctx.sanitized) return;
  arm(300);
  Rng& r = ctx.rng;
  auto& [name, f] = kAll[ctx.index % 7];
  bool every_byte = !strcmp(name, "Simple") || !strcmp(name, "KMP");   // these read all of the text
  size_t n = (every_byte && !ctx.thorough ? size_t(1) << 31 : size_t(1) << 32) + (size_t(1) << 17) + r.below(1 << 17);
  size_t m = 30000 + r.below(30000);
  std::string k;
  while (k.size() < m) k += char(1 + r.below(255));
  size_t border = 1 + r.below(m / 3);
  for (size_t i = 0; i < border; i++) k[m - border + i] = k[i];       // overlapping occurrences
  Vast v(n);
  if (!v.p) { ctx.event("pm.no_address_space"); return; }
  std::vector<size_t> at;
  auto plant = [&](size_t p) { if (p + m > n || (!at.empty() && p < at.back() + m && p != at.back() + m - border)) return; memcpy(v.p + p, k.data(), m); at.push_back(p); };
  for (size_t base : {size_t(0), (size_t(1) << 31) - m - r.below(m), size_t(1) << 31, (size_t(1) << 32) - m - r.below(m), size_t(1) << 32}) {
    size_t p = base + r.below(200);
    plant(p);
    plant(p + m - border);
    plant(p + 2 * (m - border));
  }
  plant(n - m);
  auto g = f(std::string_view(v.p, n), k);
  if (g != at) fail(std::string("pm.") + name, std::string(name) + ": pattern of " + show(m) + " bytes in a text of " + show(n) + " gave " + show_seq(g) + ", expected " + show_seq(at));
  ctx.event("pm.vast_texts");
  ctx.in(k); ctx.in(n);
  ctx.nontrivial();
  ctx.describe(std::string(name) + ": " + show(at.size()) + " occurrences in a text of " + show(n) + " bytes");
}
#include "main.inc"
