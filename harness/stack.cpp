// C34: how much stack an operation needs. Every operation runs on a painted stack of its own (with a guard page below); the lowest word it changed tells the depth.
#include "zoo.hpp"
#include "sim_ds/sort.hpp"
#include "sim_ds/calc.hpp"
#include <sys/mman.h>
#include <ucontext.h>
using namespace zoo;
using namespace sim_ds;

static const size_t kStack = 512 << 10;   // an overflow hits the page below, which ends the program
static const u64 kPaint = 0xC0FFEE5AFE57AC4Bull;
struct Arena {
  char* low;
  size_t dirty = kStack;   // bytes from the top to be painted
  ucontext_t home, away;
  std::function<void()>* job = nullptr;
  std::exception_ptr thrown;
  Arena() {
    char* p = (char*)mmap(nullptr, kStack + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) abort();
    mprotect(p, 65536, PROT_NONE);
    low = p + 65536;
  }
  static void enter();
  size_t run(std::function<void()> f);
};
static Arena& arena() { static Arena a; return a; }
void Arena::enter() {
  auto& a = arena();
  try { (*a.job)(); } catch (...) { a.thrown = std::current_exception(); }
}
__attribute__((noinline)) size_t Arena::run(std::function<void()> f) {
  u64* top = (u64*)(low + kStack);
  for (u64* p = (u64*)(low + kStack - dirty); p < top; p++) *p = kPaint;
  job = &f;
  thrown = nullptr;
  getcontext(&away);
  away.uc_stack.ss_sp = low; away.uc_stack.ss_size = kStack; away.uc_link = &home;
  makecontext(&away, &Arena::enter, 0);
  swapcontext(&home, &away);
  u64* p = (u64*)low;
  while (p < top && *p == kPaint) p++;
  size_t used = (char*)top - (char*)p;
  dirty = std::min(kStack, used + 64);
  if (thrown) std::rethrow_exception(thrown);
  return used;
}

// The most an operation used at small and at large sizes.
struct Depths {
  std::map<std::string, std::array<size_t, 2>> m;
  int at = 0;
  template <class F> void op(const std::string& k, F&& f) { size_t u = arena().run(std::ref(f)); auto& x = m[k][at]; x = std::max(x, u); }
};
static bool shown() { static bool s = getenv("STACK_SHOW"); return s; }
static void judge(Ctx& ctx, const std::string& name, Depths& d, const std::string& sizes) {
  for (auto& [k, v] : d.m) {
    if (shown()) fprintf(stderr, "STACK %s.%s %zu %zu\n", name.c_str(), k.c_str(), v[0], v[1]);
    if (v[0] && v[1] > v[0] + 6 * 1024) fail("stack." + name + "." + k, name + " " + k + " needs " + show(v[0]) + " bytes of stack at small sizes, " + show(v[1]) + " at large ones (" + sizes + ")");
    if (std::max(v[0], v[1]) > 64 * 1024) fail("stack." + name + "." + k, name + " " + k + " needs " + show(std::max(v[0], v[1])) + " bytes of stack (" + sizes + ")");
    if (v[0] && v[1]) ctx.event("sk.kinds_compared");
    ctx.event("sk.kinds");
  }
  ctx.nontrivial();
  ctx.describe(name + ", " + sizes);
}
template <class T> static void keep(const T& x) { asm volatile("" : : "g"(&x) : "memory"); }

SCENARIO(sk_zoo, 62) {
  Rng& r = ctx.rng;
  auto& s = species()[ctx.index % species().size()];
  Depths d;
  for (d.at = 0; d.at < 2; d.at++) for (int rep = 0; rep < (d.at ? 2 : 10); rep++) {
    size_t max = d.at ? 100000 + r.below(300000) : r.pick<size_t>({20, 200, 1500, 3000});
    u64 seed = r.next(), other = r.next(), ch = r.next();
    std::unique_ptr<Animal> a, b, c;
    d.op("built", [&] { a = s.make(seed, max); });
    b = s.make(other, 300);
    d.op("asked", [&] { keep(a->answers()); });
    d.op("copied", [&] { c = a->copy(); });
    d.op("assigned", [&] { b->assign(*a); });
    d.op("swapped", [&] { b->swap_with(*c); });
    if (a->changes()) for (int q = 0; q < 20; q++) d.op("changed", [&] { a->change(ch + q); });
    if (a->io()) {
      std::stringstream o;
      d.op("written", [&] { a->write(o); });
      d.op("read", [&] { b->read(o, *a); });
      o.seekg(0);
      d.op("read anew", [&] { c = a->fresh(o); });
    }
    d.op("moved", [&] { b = a->steal(); });
    d.op("destroyed", [&] { b.reset(); c.reset(); a.reset(); });
    ctx.event("sk.lives");
    ctx.in(seed); ctx.in(max);
  }
  judge(ctx, s.name, d, "up to 3000 and from 100000");
}
static u64 spread(Rng& r, int kind, size_t i, size_t n) { switch (kind) { case 0: return i; case 1: return n - i; case 2: return 3; case 3: return i % 2; case 4: return i < n / 2 ? i : n - i; default: return r.next() >> (i % 61); } }
SCENARIO(sk_vectors, 6) {
  Rng& r = ctx.rng;
  Depths d;
  for (d.at = 0; d.at < 2; d.at++) for (int rep = 0; rep < (d.at ? 1 : 8); rep++) {
    size_t n = d.at ? 6000000 + r.below(1000) : 3000 + r.below(70000);
    BitVector b(n);
    u64 den = 1 + r.below(9);
    for (size_t i = 0; i < n; i++) if (den == 1 || r.below(den) == 0) b[i] = true;
    std::unique_ptr<SuccinctBitVector<true>> s;
    std::unique_ptr<SuccinctBitVector<false>> f;
    d.op("bits.copied", [&] { BitVector c(b); keep(c); });
    d.op("bits.filled", [&] { BitVector c(n, true); c.fill(c.begin() + 1, c.end(), false); c.resize(n * 2, true); c.push_back(true); c.resize(n / 2); keep(c); });
    d.op("rank.built", [&] { s = std::make_unique<SuccinctBitVector<true>>(b); f = std::make_unique<SuccinctBitVector<false>>(b); });
    size_t ones = s->rank(n);
    d.op("rank", [&] { for (int q = 0; q < 300; q++) { size_t i = r.below(n); keep(s->rank(i)); keep(f->rank(i)); } });
    if (ones) d.op("select", [&] { for (int q = 0; q < 300; q++) keep(s->select(r.below(ones))); });
    std::stringstream o;
    d.op("rank.written", [&] { s->Write(o); });
    d.op("rank.read", [&] { s->Read(o); });
    d.op("rank.destroyed", [&] { s.reset(); f.reset(); });
    size_t m = n / 4;
    std::vector<u64> v(m);
    int kind = r.below(6);
    for (size_t i = 0; i < m; i++) v[i] = spread(r, kind, i, m);
    d.op("packed", [&] { FitVector p(v); keep(p[m / 2]); p.resize(m * 2); p.assign(m, 1); p.push_back(1); u64 h = 0; for (u64 x : p) h += x; keep(h); });
    d.op("split", [&] { std::vector<size_t> q; calc::split_positions_optimized_for_dac(v, &q); calc::bit_length_frequencies(v, &q); calc::cummulative_frequency_list(v, &q); });
    d.op("layered", [&] { DacVector p(v); u64 h = 0; for (size_t i = 0; i < m; i += 1 + m / 2000) h += p[i]; keep(h); });
    d.op("symbols", [&] { MultiBitVector<2> p; for (size_t i = m; i--;) { p.set(i, v[i] % 4); } p.build(); u64 h = 0; for (size_t i = 0; i < m; i += 77) if (v[i] % 4) h += p.rank(i); keep(h); });
    d.op("symbols3", [&] { MultiBitVector<3> p; for (size_t i = 0; i < m; i++) p.set(i, v[i] % 8); p.build(); u64 h = 0; for (size_t i = 0; i < m; i += 77) if (v[i] % 8) h += p.rank(i); keep(h); });
    d.op("records", [&] { MultipleVector p{1, 4, 8}; p.resize(m); for (size_t i = 0; i < m; i += 5) { p.block(i).set_at(1, 7); keep(p.block(i).get<2>()); keep(p.nested_element<1>(i)); } p.push_back({1, 2, 3}); });
    { std::vector<u8> w(m); unsigned sig = 1 + r.below(255); for (auto& x : w) x = r.below(sig);
      d.op("wavelet", [&] { WaveletTree p(w); u64 h = 0; for (int q = 0; q < 300; q++) { size_t i = r.below(m); h += p[i] + p.rank(p[i], i) + p.AccessAndRank(i).second; } keep(h); }); }
    ctx.in(n); ctx.in(den); ctx.in(kind);
  }
  judge(ctx, "vectors", d, "up to 73000 and 6000000 bits");
}
SCENARIO(sk_order, 6) {
  Rng& r = ctx.rng;
  Depths d;
  int kind = ctx.index % 6;
  for (d.at = 0; d.at < 2; d.at++) for (int rep = 0; rep < (d.at ? 1 : 4); rep++) {
    size_t n = d.at ? 500000 : 50 + r.below(3000);
    std::vector<u64> v(n);
    for (size_t i = 0; i < n; i++) v[i] = spread(r, kind, i, n);
    d.op("sorted", [&] { auto w = v; HeapSort(w.begin(), w.end()); keep(w); });
    d.op("min heap", [&] { Heap<true> h(v.begin(), v.end()); for (size_t i = 0; i < n / 4; i++) h.pop(); for (size_t i = 0; i < n / 4; i++) h.push(v[i]); while (h.size()) h.pop(); });
    d.op("max heap", [&] { Heap<false> h; for (u64 x : v) h.push(x); while (h.size()) h.pop(); });
    d.op("lazy", [&] { InitializableArrayFolklore<u64> a(n, 3); for (size_t i = 0; i < n; i++) a.set(i, 1); a.init(5); u64 h = 0; for (size_t i = 0; i < n; i++) h += a.get(i); keep(h); });
    ctx.in(n);
  }
  auto big = std::make_unique<InitializableArray<u64, 400000>>(1);
  auto little = std::make_unique<InitializableArray<u64, 1000>>(1);
  d.at = 0; d.op("in place", [&] { for (size_t i = 1000; i--;) (*little)[i] = i; little->init(3); for (size_t i = 0; i < 1000; i += 2) (*little)[i] = i; for (size_t i = 0; i < 1000; i++) keep(u64((*little)[i])); little->fill(8); });
  d.at = 1; d.op("in place", [&] { for (size_t i = 400000; i--;) (*big)[i] = i; big->init(3); for (size_t i = 0; i < 400000; i += 2) (*big)[i] = i; for (size_t i = 0; i < 400000; i++) keep(u64((*big)[i])); big->fill(8); });
  judge(ctx, "order", d, "up to 3000 and 500000 elements, order kind " + show(kind));
}
struct IdHash { explicit IdHash(unsigned = 64) {} u64 hash(u64 x) const { return x; } u64 ihash(u64 x) const { return x; } };   // whoever shares the low bits collides
SCENARIO(sk_tables, 4) {
  Rng& r = ctx.rng;
  Depths d;
  for (d.at = 0; d.at < 2; d.at++) for (int rep = 0; rep < (d.at ? 1 : 4); rep++) {
    size_t n = d.at ? 120000 : 50 + r.below(2000);
    unsigned kb = 20 + r.below(41);
    u64 stride = r.coin() ? 1 : r.next() | 1;
    d.op("CHT", [&] { CHT<16> t(kb); for (size_t i = 0; i < n; i++) t.set(i * stride & low_mask(kb), i & 0xffff); for (size_t i = 0; i < n; i++) keep(t.get(i * stride & low_mask(kb))); auto c = t; for (size_t i = 0; i < n; i++) t.erase(i * stride & low_mask(kb)); keep(c); });
    d.op("CHT, one run", [&] { CHT<0, 50, IdHash> t(60); t.set_value_width(9); size_t m = std::min<size_t>(n, 3500); for (size_t i = 0; i < m; i++) t.set(i << 30, i & 511); for (size_t i = 0; i < m; i += 7) keep(t.get(i << 30)); for (size_t i = 1; i < m; i += 1 + m / 40) { t.set(i, 1); keep(t.get(i)); t.erase(i); keep(t.get(i + 1)); } for (size_t i = 0; i < m; i++) t.erase(i << 30); });
    d.op("CHT, dense", [&] { CHT<8, 90, IdHash> t(40); size_t m = std::min<size_t>(n, 30000); for (size_t i = 0; i < m; i++) t.set(i, i & 255); for (size_t i = 0; i < m; i++) keep(t.get(i)); for (size_t i = 0; i < m; i += 2) t.erase(i); });
    d.op("CDRWArray", [&] { CDRWArray a(n); for (size_t i = 0; i < n; i++) a.set(i, mix(i) >> (mix(i + 9) & 63)); for (size_t i = 0; i < n; i++) keep(a.get(i)); });
    d.op("CDRWVector", [&] { CDRWVector a; for (size_t i = 0; i < n / 4; i++) a.push_back(mix(i) >> (i & 63)); a.resize(n / 8); a.shrink_to_fit(); while (a.size()) a.pop_back(); });
    ctx.in(n); ctx.in(kb); ctx.in(stride);
  }
  judge(ctx, "tables", d, "up to 2000 and 120000 keys");
}
static std::string text(Rng& r, int kind, size_t n) {
  std::string s(n, 'a');
  switch (kind) {
    case 0: break;
    case 1: for (auto& c : s) c = char('a' + r.below(2)); break;
    case 2: for (auto& c : s) c = char(r.below(256)); break;
    case 3: for (size_t i = 0; i < n; i++) s[i] = "abcab"[i % 5]; break;
    case 4: { std::string a = "a", b = "ab"; while (b.size() < n) { std::string c = b + a; a = b; b = c; } s = b.substr(0, n); break; }
    case 5: for (size_t i = 0; i < n; i++) s[i] = __builtin_popcountll(i) % 2 ? 'x' : 'y'; break;
    case 6: s[n - 1] = 'b'; break;
    case 7: for (size_t i = 0; i < n; i++) s[i] = char(i * 256 / n); break;
    case 9: for (size_t i = 0; i < n; i++) s[i] = i % (n / 6 + 1) ? 'b' : 'a'; break;    // a very long run, again and again
    case 10: for (size_t i = 0; i < n; i++) s[i] = i % (n / 6 + 1) ? 'a' : 'b'; break;
    default: for (size_t i = 0; i < n; i++) s[i] = char(255 - i * 256 / n);
  }
  return s;
}
SCENARIO(sk_texts, 22) {
  Rng& r = ctx.rng;
  Depths d;
  int kind = ctx.index % 11;
  using namespace pattern_matching;
  for (d.at = 0; d.at < 2; d.at++) for (int rep = 0; rep < (d.at ? 1 : 5); rep++) {
    size_t n = d.at ? 250000 : 30 + r.below(3000);
    if (d.at && kind == 4) n = 317811;
    std::string t = text(r, kind, n);
    std::unique_ptr<SuffixArray> s;
    d.op("suffix array", [&] { s = std::make_unique<SuffixArray>(t); });
    std::stringstream o;
    d.op("suffix array written", [&] { s->Write(o); s->WriteSA(o); s->WriteLCP(o); });
    d.op("suffix array read", [&] { s->Read(o); });
    for (int q = 0; q < 5; q++) { size_t i = r.below(n); d.op("suffix", [&] { keep(s->suffix(i).size()); keep(s->char_at(i)); }); }
    d.op("suffix array destroyed", [&] { s.reset(); });
    // patterns as long as the text allows; SundayMS sets up in cubic, Simple, BM and SundayQS search in quadratic time on such
    size_t l = d.at ? (kind == 1 || kind == 2 ? 100000 : 30000) : 1 + r.below(n);
    size_t at = r.below(n - l + 1);
    std::string k = t.substr(at, l), near = k;
    near[near.size() / 2] ^= 1;
    std::string_view v(t);
    auto part = v.substr(at > 200 ? at - 200 : 0, l + 600);
    for (auto& key : {k, near}) {
      d.op("Simple", [&] { keep(PatternMatchSimple(part, key)); });
      d.op("Kmp", [&] { keep(PatternMatchKMP(v, key)); });
      d.op("Bm", [&] { keep(PatternMatchBM(part, key)); });
      d.op("SundayQS", [&] { keep(PatternMatchSundayQS(part, key)); });
      auto shorter = key.substr(0, d.at ? (kind == 2 || kind == 7 || kind == 8 ? 3000 : 400) : 100);
      d.op("SundayMS", [&] { keep(PatternMatchSundayMS(part, shorter)); });
      auto least = key.substr(0, kind == 2 ? 5000 : 30000);
      d.op("Bom", [&] { keep(PatternMatchBOM(part, least)); });
      d.op("TurboBom", [&] { keep(PatternMatchTurboBOM(part, least)); });
    }
    std::unique_ptr<FactorOracle> f;
    auto least = t.substr(0, kind == 2 ? 5000 : 60000);
    d.op("oracle", [&] { f = std::make_unique<FactorOracle>(least); });
    d.op("oracle asked", [&] { keep(f->accept(least)); keep(f->accept(least.substr(least.size() / 2))); });
    d.op("oracle copied", [&] { auto g = *f; keep(g); f.reset(); });
    ctx.in(t); ctx.in(k);
  }
  judge(ctx, "texts", d, "up to 3000 and from 30000 bytes, text kind " + show(kind));
}
SCENARIO(sk_keys, 12) {   // many keys; very long keys; both
  Rng& r = ctx.rng;
  Depths d;
  int shape = ctx.index % 3;
  for (d.at = 0; d.at < 2; d.at++) for (int rep = 0; rep < (d.at ? 1 : 4); rep++) {
    std::set<std::string> ks;
    unsigned sig = r.pick<unsigned>({1, 2, 20, 250});
    size_t len = shape == 0 ? 10 : d.at ? 30000 : 60, n = shape == 1 ? 1 + r.below(5) : d.at ? shape == 2 ? 40 : 8000 : 60;
    if (shape == 0 && sig < 20) sig = 20;
    std::string stem; while (stem.size() < len) stem += char(1 + r.below(sig));
    if (shape) ks.insert(stem);
    while (n--) { std::string k = shape ? stem.substr(0, r.below(len)) : ""; for (u64 l = 1 + r.below(12); l--;) k += char(1 + r.below(sig)); ks.insert(k); }
    std::vector<std::string> v(ks.begin(), ks.end());
    using Tr = graph_util::Trie<u64, uint32_t>;
    std::unique_ptr<Tr> t;
    d.op("trie inserts", [&] { t = std::make_unique<Tr>(); for (auto& k : v) t->insert(k, k.size()); });
    d.op("trie asked", [&] { for (auto& k : v) keep(t->traverse(k)); });
    d.op("trie walked", [&] { u64 h = 0; t->dfs([&](auto&, size_t x) { h += x; }); t->bfs([&](auto&, size_t x) { h ^= x; }); keep(h); });
    d.op("trie copied", [&] { auto g = *t; keep(g); });
    d.op("trie destroyed", [&] { t.reset(); });
    std::unique_ptr<Samc<int>> s;
    std::unique_ptr<SamcDict<int>> c;
    d.op("set built", [&] { s = std::make_unique<Samc<int>>(v.begin(), v.end()); });
    d.op("dictionary built", [&] { c = std::make_unique<SamcDict<int>>(v.begin(), v.end()); });
    d.op("set asked", [&] { for (auto& k : v) { keep(s->accept(k)); } });
    d.op("dictionary asked", [&] { for (size_t i = 0; i < v.size(); i++) { keep(c->lookup(v[i])); keep(c->access(i)); } });
    std::stringstream o;
    d.op("set written", [&] { s->Write(o); });
    d.op("set read", [&] { s->Read(o); });
    d.op("dictionary written", [&] { c->Write(o); });
    d.op("dictionary read", [&] { c->Read(o); });
    d.op("set destroyed", [&] { s.reset(); c.reset(); });
    for (auto& k : v) ctx.in(k);
  }
  judge(ctx, "keys", d, shape == 0 ? "up to 60 and 8000 keys" : "keys of up to 72 and 30000 bytes");
}
#include "main.inc"
