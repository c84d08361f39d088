// C30: steps (basic-block edges executed, plus words touched by memset/memcpy/memmove/memcmp/bcmp/memchr/strlen) per operation.
#include "mon.hpp"
#include "gen.hpp"
#include "sim_ds/SuccinctBitVector.hpp"
#include "sim_ds/FitVector.hpp"
#include "sim_ds/DacVector.hpp"
#include "sim_ds/MultiBitVector.hpp"
#include "sim_ds/MultipleVector.hpp"
#include "sim_ds/WaveletTree.hpp"
#include "sim_ds/Heap.hpp"
#include "sim_ds/sort.hpp"
#include "sim_ds/InitializableArray.hpp"
#include "sim_ds/CHT.hpp"
#include "sim_ds/CDRWArray.hpp"
#include "sim_ds/string_util/SuffixArray.hpp"
#include "sim_ds/string_util/FactorOracle.hpp"
#include "sim_ds/string_util/PatternMatching.hpp"
#include "sim_ds/string_util/Samc.hpp"

#define UNCOUNTED __attribute__((no_sanitize("coverage")))
static uint64_t steps;
extern "C" {
UNCOUNTED void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { for (; a < b; a++) *a = 1; }
UNCOUNTED void __sanitizer_cov_trace_pc_guard(uint32_t*) { steps++; }
void* __real_memset(void*, int, size_t); void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); int __real_memcmp(const void*, const void*, size_t); void* __real_memchr(const void*, int, size_t); int __real_bcmp(const void*, const void*, size_t); size_t __real_strlen(const char*);
UNCOUNTED void* __wrap_memset(void* p, int c, size_t n) { steps += n / 8; return __real_memset(p, c, n); }
UNCOUNTED void* __wrap_memcpy(void* p, const void* q, size_t n) { steps += n / 8; return __real_memcpy(p, q, n); }
UNCOUNTED void* __wrap_memmove(void* p, const void* q, size_t n) { steps += n / 8; return __real_memmove(p, q, n); }
UNCOUNTED int __wrap_memcmp(const void* p, const void* q, size_t n) { steps += n / 8; return __real_memcmp(p, q, n); }
UNCOUNTED int __wrap_bcmp(const void* p, const void* q, size_t n) { steps += n / 8; return __real_bcmp(p, q, n); }
UNCOUNTED size_t __wrap_strlen(const char* p) { size_t n = __real_strlen(p); steps += n / 8; return n; }
UNCOUNTED void* __wrap_memchr(const void* p, int c, size_t n) { void* r = __real_memchr(p, c, n); steps += (r ? (const char*)r - (const char*)p : n) / 8; return r; }
}
using namespace mon;
using namespace sim_ds;

// the operation must not be inlined into the uncounted caller, or its edges would not count
template <class F> __attribute__((noinline)) static void run(F& f) { f(); }
template <class F> UNCOUNTED __attribute__((noinline)) static u64 count(F&& f) { u64 a = steps; run(f); return steps - a; }
template <class T> UNCOUNTED static void keep(const T& x) { asm volatile("" : : "g"(&x) : "memory"); }

// the worst operation of each kind at two sizes
struct Worst {
  std::map<std::string, std::array<u64, 2>> m;
  int at = 0;
  void see(const char* k, u64 s) { auto& x = m[k][at]; x = std::max(x, s); }
  template <class F> void op(const char* k, F&& f) { see(k, count(f)); }
};
static bool shown() { static bool s = getenv("STEPS_SHOW"); return s; }
// independent of the size
static void constant(Ctx& ctx, const std::string& name, Worst& w, size_t small, size_t large) {
  for (auto& [k, v] : w.m) {
    if (shown()) fprintf(stderr, "CONST %s.%s %llu %llu\n", name.c_str(), k.c_str(), (unsigned long long)v[0], (unsigned long long)v[1]);
    if (v[1] > 3 * v[0] + 120) fail("steps." + name + "." + k, name + " " + k + ": at most " + show(v[0]) + " steps at size " + show(small) + ", but " + show(v[1]) + " at size " + show(large));
    ctx.event("st.kinds_compared");
  }
  ctx.nontrivial();
}
// within a factor of the growth of `work` (a size, or n log n)
static void proportional(Ctx& ctx, const std::string& name, u64 s0, double work0, u64 s1, double work1, double factor, const std::string& how) {
  if (shown()) fprintf(stderr, "PROP %s %g %g per unit: %s\n", name.c_str(), s0 / work0, s1 / work1, how.c_str());
  if (double(s1) / work1 > factor * (double(s0) / work0) + 20) fail("steps." + name, name + ": " + show(s0) + " steps for work " + show((u64)work0) + ", but " + show(s1) + " for " + show((u64)work1) + " (" + how + ")");
  ctx.event("st.runs_compared");
  ctx.event("st.steps", s0 + s1);
  ctx.nontrivial();
}
static const size_t S = 1000, L = 260000;
static size_t size_at(int k, Rng& r) { return (k ? L : S) + r.below(70); }

SCENARIO(st_bits, 24) {
  Rng& r = ctx.rng;
  Worst w;
  for (w.at = 0; w.at < 2; w.at++) for (int rep = 0; rep < (w.at ? 1 : 6); rep++) {
    auto b = gen::bits(r, size_at(w.at, r));
    BitVector v(b);
    const SuccinctBitVector<true> s(v);
    const SuccinctBitVector<false> f(v);
    size_t n = b.size(), ones = s.rank(n);
    for (int q = 0; q < 1500; q++) {
      size_t i = r.below(n), j = r.below(n); bool z = r.coin();
      w.op("read", [&] { keep(bool(v[i])); });
      w.op("write", [&] { v[i] = z; });
      w.op("iterator jump", [&] { auto it = v.begin() + i; it += (long)j - (long)i; keep(it - v.begin()); });
      w.op("sbv read", [&] { keep(s[i]); });
      w.op("rank", [&] { keep(s.rank(i)); });
      w.op("rank_0", [&] { keep(f.rank_0(j)); });
    }
    w.op("rank end", [&] { keep(s.rank(n)); });
    (void)ones;
  }
  constant(ctx, "bits", w, S, L);
  ctx.in(r.next());
}
SCENARIO(st_select, 24) {
  Rng& r = ctx.rng;
  u64 worst = 0;
  std::string how;
  auto b = gen::bits(r, size_at(1, r) * (1 + 7 * r.coin()), &how);
  if (r.below(4) == 0) { std::fill(b.begin(), b.end(), false); for (size_t i = 0; i < 511; i++) b[i] = true; for (size_t i = 0; i < 700; i++) b[b.size() - 1 - i * (1 + r.below(3))] = true; how = "a long gap"; }
  const SuccinctBitVector<true> s{BitVector(b)};
  size_t ones = std::count(b.begin(), b.end(), true);
  for (int q = 0; q < 3000 && ones; q++) { size_t k = r.below(ones); worst = std::max(worst, count([&] { keep(s.select(k)); })); }
  if (shown()) fprintf(stderr, "SELECT %llu %s\n", (unsigned long long)worst, how.c_str());
  // a logarithm of the size is 18 to 21
  OK("steps.select", worst <= 40 * 18 + 100, show(worst) + " steps in " + how);
  ctx.event("st.kinds_compared");
  ctx.nontrivial(ones > 600);
  ctx.in(ones); ctx.in(r.next());
  ctx.describe(how + ", worst select " + show(worst) + " steps");
}
SCENARIO(st_packed, 24) {
  Rng& r = ctx.rng;
  Worst w;
  unsigned wd = r.range(1, 64);
  unsigned top = 1 + r.below(255);
  std::vector<size_t> es; for (int k = 2 + r.below(4); k--;) es.push_back(1 + r.below(8));
  for (w.at = 0; w.at < 2; w.at++) {
    size_t n = size_at(w.at, r) / (w.at ? 4 : 1);
    FitVector v(wd); v.resize(n);
    std::vector<u64> l(n); for (auto& x : l) x = r.value(1 + r.below(wd));
    DacVector d(l);
    // layers may differ in number between the sizes: steps per layer
    u64 layers = std::max<u64>(1, d.num_layers());
    MultiBitVector<3> m; for (size_t i = 0; i < n; i++) m.set(i, r.below(8)); m.build();
    std::vector<u8> t(n); for (auto& x : t) x = r.below(top + 1); t[0] = top;
    const WaveletTree wt(t);
    MultipleVector mv; mv.set_element_sizes(es); mv.resize(n);
    for (int q = 0; q < 1500; q++) {
      size_t i = r.below(n), j = r.below(n); u64 x = r.value(wd);
      w.op("fit read", [&] { keep(u64(v[i])); });
      w.op("fit write", [&] { v[i] = x; });
      w.op("fit iterator jump", [&] { auto it = v.begin() + i; it += (long)j - (long)i; keep(it - v.begin()); });
      w.see("dac read per layer", count([&] { keep(d[i]); }) / layers);
      w.op("symbol read", [&] { keep(m[i]); });
      if (m[i]) w.op("symbol rank", [&] { keep(m.rank(i)); });
      w.op("wavelet read", [&] { keep(wt[i]); });
      w.op("wavelet rank", [&] { keep(wt.rank(i)); });
      w.op("wavelet symbol rank", [&] { keep(wt.rank(u8(x), j)); });
      w.op("record read", [&] { keep(mv.nested_element<1>(i)); });
      w.op("record write", [&] { mv.block(i).set_at(0, 1); });
    }
  }
  constant(ctx, "packed", w, S, L / 4);
  ctx.in(r.next());
}
SCENARIO(st_appends, 12) {   // constant on average
  Rng& r = ctx.rng;
  size_t n[2] = {2000 + r.below(50), 200000 + r.below(5000)};
  std::map<std::string, std::array<u64, 2>> s;
  size_t step = 1 + r.below(3);
  for (int k = 0; k < 2; k++) {
    size_t N = n[k], C = N / 8;
    auto at = [&](const char* nm, auto&& f) { s[nm][k] = count(f); };
    at("BitVector append", [&] { BitVector v; for (size_t i = 0; i < N; i++) v.push_back(i & 1); keep(v); });
    at("FitVector append", [&] { FitVector v(17); for (size_t i = 0; i < N; i++) v.push_back(i & 99); keep(v); });
    at("MultipleVector append", [&] { MultipleVector v; std::vector<size_t> e{3, 5}; v.set_element_sizes(e); for (size_t i = 0; i < N; i++) v.push_back({i, i}); keep(v); });
    at("MultiBitVector set", [&] { MultiBitVector<2> v; for (size_t i = 0; i < N; i++) v.set(i, i & 3); v.build(); keep(v); });
    at("CDRWVector append", [&] { CDRWVector v; for (size_t i = 0; i < C; i++) v.push_back(i & 99); keep(v); });
    // growing, and giving back, a few elements at a time
    at("BitVector resize by a few", [&] { BitVector v; for (size_t i = 0; i < N; i += step) v.resize(i); for (size_t i = N; i > step; i -= step) v.resize(i); keep(v); });
    at("BitVector resize by a few ones", [&] { BitVector v; for (size_t i = 0; i < N; i += step) v.resize(i, true); keep(v); });
    at("FitVector resize by a few", [&] { FitVector v(13); for (size_t i = 0; i < N; i += step) v.resize(i); for (size_t i = N; i > step; i -= step) v.resize(i); keep(v); });
    at("FitVector resize by a few values", [&] { FitVector v(13); for (size_t i = 0; i < N; i += step) v.resize(i, 5); keep(v); });
    at("MultipleVector resize by a few", [&] { MultipleVector v; std::vector<size_t> e{3, 5}; v.set_element_sizes(e); for (size_t i = 0; i < N; i += step) v.resize(i); for (size_t i = N; i > step; i -= step) v.resize(i, {1, 2}); keep(v); });
    at("MultipleVector emplace_back", [&] { MultipleVector v; std::vector<size_t> e{3, 5}; v.set_element_sizes(e); for (size_t i = 0; i < N; i++) v.emplace_back(); keep(v); });
    at("CDRWVector resize by a few", [&] { CDRWVector v; for (size_t i = 0; i < C; i += step) v.resize(i); keep(v); });
    at("CDRWVector reserve by a few", [&] { CDRWVector v; for (size_t i = 0; i < C; i += step) { v.reserve(i); if (v.size() < i) v.push_back(i); } keep(v); });
    at("CDRWVector append and remove", [&] { CDRWVector v; for (size_t i = 0; i < C; i++) v.push_back(i & 99); for (size_t i = 1; i < C; i++) { v.pop_back(); if (i % 3 == 0) { v.pop_back(); v.push_back(i); } if (v.empty()) break; } keep(v); });
    // hovering around the sizes where storage moves
    at("CDRWVector hovering", [&] { CDRWVector v; size_t m = C / 8; for (size_t i = 0; i < m; i++) v.push_back(i & 99); while (!v.empty()) { size_t c = v.capacity(); v.pop_back(); if (v.capacity() != c) for (size_t q = 0; q < m / 12; q++) { for (int h = 0; h < 3; h++) v.push_back(q); for (int h = 0; h < 3; h++) v.pop_back(); } } for (size_t i = 0; i < m; i++) { size_t c = v.capacity(); v.push_back(i); if (v.capacity() != c) for (size_t q = 0; q < m / 12; q++) { for (int h = 0; h < 3; h++) v.pop_back(); for (int h = 0; h < 3; h++) v.push_back(q); } } keep(v); });
  }
  for (auto& [nm, v] : s) proportional(ctx, nm, v[0], n[0], v[1], n[1], 3, show(n[0]) + " and " + show(n[1]) + " appends");
  ctx.in(n[1]);
}
template <class T, size_t N> static void lazy(Worst& w, Rng& r) {
  auto mem = std::make_unique<std::array<char, sizeof(InitializableArray<T, N>) + 64>>();
  for (auto& c : *mem) c = r.next();
  using A = InitializableArray<T, N>;
  A* a = (A*)(((uintptr_t)mem->data() + 63) / 64 * 64);
  w.op("in-place construction", [&] { new (a) A(T(5)); });
  for (int q = 0; q < 2000; q++) {
    size_t i = r.below(N); T x = r.below(N);
    w.op("in-place set", [&] { a->set(i, x); });
    w.op("in-place get", [&] { keep(a->get(i)); });
    size_t j = r.below(N);
    w.op("in-place reference", [&] { (*a)[j] = x; keep(T((*a)[j])); });
    w.op("in-place iterator jump", [&] { auto it = a->begin() + i; it += (long)j - (long)i; keep(it - a->begin()); });
    if (q % 500 == 99) w.op("in-place init", [&] { a->init(x); });
  }
  // filled in part or whole, in several orders, then initialised
  for (int how = 0; how < 6; how++) {
    size_t m = how == 5 ? r.below(N) + 1 : N;
    for (size_t q = 0; q < m; q++) {
      size_t i = how == 0 ? q : how == 1 ? N - 1 - q : how == 2 ? q * 2 % N : how == 3 ? (q * 7919 + 13) % N : how == 4 ? q / 2 : (N - m) + q;
      T x = how & 1 ? T(i) : T(r.next());
      if (how == 4 && q % 2 == 0 && i) { w.op("in-place set", [&] { a->set(i - 1, x); }); continue; }
      w.op("in-place set", [&] { a->set(i, x); });
    }
    for (int q = 0; q < 50; q++) { size_t i = r.below(N); w.op("in-place get", [&] { keep(a->get(i)); }); }
    if (how & 1) w.op("in-place fill", [&] { a->fill(T(r.s)); });
    else w.op("in-place init", [&] { a->init(T(r.s)); });
    w.op("in-place init again", [&] { a->init(T(how)); });
    for (int q = 0; q < 50; q++) { size_t i = r.below(N); w.op("in-place get", [&] { keep(a->get(i)); }); }
  }
}
SCENARIO(st_lazy, 12) {
  Rng& r = ctx.rng;
  Worst w;
  w.at = 0; lazy<u64, 64>(w, r); lazy<u64, 301>(w, r);
  w.at = 1; lazy<u64, 65536>(w, r); lazy<u64, 65537>(w, r);
  for (w.at = 0; w.at < 2; w.at++) {
    size_t n = w.at ? 200000 : 100;
    InitializableArrayFolklore<u64> f(n, 7);
    u64 sum = 0;
    for (int q = 0; q < 2000; q++) {
      size_t i = r.below(n);
      sum += count([&] { f.set(i, q); });
      if (q % 100 == 0) w.see("100 sets", sum), sum = 0;   // its stack of written cells may move now and then
      w.op("get", [&] { keep(f.get(r.s % n)); });
      if (q % 500 == 99) w.op("init", [&] { f.init(q); });
    }
    for (int how = 0; how < 3; how++) {
      for (size_t i = 0; i < n; i++) f.set(how == 1 ? n - 1 - i : how == 2 ? i * 7919 % n : i, i);
      w.op("get", [&] { keep(f.get(r.s % n)); });
      if (how & 1) w.op("fill", [&] { f.fill(how); }); else w.op("init", [&] { f.init(how); });
      w.op("get", [&] { keep(f.get(r.s % n)); });
    }
  }
  constant(ctx, "lazy", w, 300, 65536);
  ctx.in(r.next());
}
SCENARIO(st_heap, 16) {
  Rng& r = ctx.rng;
  int kind = r.below(4);
  auto val = [&](size_t i) -> u64 { switch (kind) { case 0: return i; case 1: return ~i; case 2: return 7; default: return r.next(); } };
  for (size_t n : {S, L / 4}) {
    double lg = std::log2(n) + 1;
    std::vector<u64> v(n); for (size_t i = 0; i < n; i++) v[i] = val(i);
    u64 build, push = 0, pop = 0;
    std::vector<Heap<true>> hs;
    build = count([&] { hs.emplace_back(v); });
    auto& h = hs[0];
    for (int q = 0; q < 2000; q++) { u64 x = val(n + q); push = std::max(push, count([&] { h.push(x); })); if (q % 3 == 0) pop = std::max(pop, count([&] { h.pop(); })); }
    // pushes may move the storage once in a while: their total counts that, the worst one is allowed it
    if (shown()) fprintf(stderr, "HEAP n %zu build/n %g push %llu pop %llu\n", n, double(build) / n, (unsigned long long)push, (unsigned long long)pop);
    OK("steps.heap_pop", pop <= 60 * lg + 100, show(pop) + " steps at size " + show(n));
    OK("steps.heap_push", push <= 60 * lg + 100 + 4 * (n + 2000), show(push) + " steps at size " + show(n));
    OK("steps.heap_build", build <= 100.0 * n + 1000, show(build) + " steps at size " + show(n));
    u64 total = count([&] { for (int q = 0; q < 2000; q++) h.push(val(q)); });
    OK("steps.heap_pushes", total <= 2000 * (60 * lg + 100) + 8 * n, show(total) + " steps for 2000 pushes at size " + show(n));
    ctx.event("st.kinds_compared", 4);
    ctx.event("st.steps", total + build);
  }
  ctx.nontrivial();
  ctx.in(r.next()); ctx.in(kind);
}
SCENARIO(st_heap_build, 8) {   // linear, not n log n: the step count per element hardly grows
  Rng& r = ctx.rng;
  int kind = ctx.index % 4;
  size_t n[2] = {512, 1 << 19};
  double per[2];
  for (int k = 0; k < 2; k++) {
    std::vector<u64> v(n[k]);
    for (size_t i = 0; i < n[k]; i++) switch (kind) { case 0: v[i] = n[k] - i; break; case 1: v[i] = r.next(); break; case 2: v[i] = i; break; default: v[i] = i % 2 ? i : n[k] - i; }
    u64 low = count([&] { Heap<true> h(v.begin(), v.end()); keep(h); });
    u64 high = count([&] { Heap<false> h(v.begin(), v.end()); keep(h); });
    per[k] = double(std::max(low, high)) / n[k];
  }
  if (shown()) fprintf(stderr, "BUILD kind %d %g %g\n", kind, per[0], per[1]);
  if (per[1] > 1.35 * per[0] + 3) fail("steps.heap_linear", show((u64)per[0]) + " steps per element of " + show(n[0]) + ", but " + show((u64)per[1]) + " of " + show(n[1]) + " (order " + show(kind) + ")");
  ctx.event("st.runs_compared", 2);
  ctx.nontrivial();
  ctx.in(r.next()); ctx.in(kind);
}
SCENARIO(st_sort, 16) {
  Rng& r = ctx.rng;
  int kind = r.below(6);
  u64 s[2]; size_t n[2] = {S, L / 4};
  for (int k = 0; k < 2; k++) {
    std::vector<u64> v(n[k]);
    for (size_t i = 0; i < n[k]; i++) switch (kind) { case 0: v[i] = i; break; case 1: v[i] = n[k] - i; break; case 2: v[i] = 3; break; case 3: v[i] = i % 2; break; case 4: v[i] = i < n[k] / 2 ? i : n[k] - i; break; default: v[i] = r.next(); }
    s[k] = count([&] { HeapSort(v.begin(), v.end()); });
    OK("steps.sort_done", std::is_sorted(v.begin(), v.end()), "order kind " + show(kind));
  }
  proportional(ctx, "HeapSort", s[0], n[0] * std::log2(n[0]), s[1], n[1] * std::log2(n[1]), 3, "order kind " + show(kind));
  ctx.in(kind); ctx.in(r.next());
}
SCENARIO(st_hash, 12) {
  Rng& r = ctx.rng;
  size_t n[2] = {1000, 60000};
  u64 st[3][2];
  unsigned kb = 20 + r.below(41);
  for (int k = 0; k < 2; k++) {
    std::vector<u64> ks(n[k]); for (auto& x : ks) x = r.next() & low_mask(kb);
    CHT<16> t(kb);
    st[0][k] = count([&] { for (u64 x : ks) t.set(x, x & 0xffff); });
    st[1][k] = count([&] { for (u64 x : ks) { keep(t.get(x)); keep(t.get(x ^ 1)); } });
    st[2][k] = count([&] { for (u64 x : ks) t.erase(x); });
  }
  const char* nm[] = {"CHT set", "CHT get", "CHT erase"};
  for (int q = 0; q < 3; q++) proportional(ctx, nm[q], st[q][0], n[0], st[q][1], n[1], 4, "random keys of " + show(kb) + " bits");
  CDRWArray* a[2]; u64 g[2][2];
  for (int k = 0; k < 2; k++) {
    size_t m = k ? 40000 : 1000;
    a[k] = new CDRWArray(m);
    g[0][k] = count([&] { for (size_t i = 0; i < m; i++) a[k]->set(i, mix(i) >> (mix(i + 9) & 63)); });
    g[1][k] = count([&] { for (size_t i = 0; i < m; i++) keep(a[k]->get(mix(i) % m)); });
    delete a[k];
  }
  proportional(ctx, "CDRWArray set", g[0][0], 1000, g[0][1], 40000, 5, "values of random lengths");
  proportional(ctx, "CDRWArray get", g[1][0], 1000, g[1][1], 40000, 5, "values of random lengths");
  ctx.in(r.next());
}
static std::string long_text(Rng& r, int kind, size_t n) {
  std::string s(n, 'a');
  switch (kind) {
    case 0: break;
    case 1: for (auto& c : s) c = char('a' + r.below(2)); break;
    case 2: for (auto& c : s) c = char(r.below(256)); break;
    case 3: for (size_t i = 0; i < n; i++) s[i] = "abcab"[i % 5]; break;
    case 4: { std::string a = "a", b = "ab"; while (b.size() < n) { std::string c = b + a; a = b; b = c; } s = b.substr(0, n); break; }
    case 5: for (size_t i = 0; i < n; i++) s[i] = __builtin_popcountll(i) % 2 ? 'x' : 'y'; break;
    case 6: s[n - 1] = 'b'; break;
    case 7: s[0] = 'b'; break;
    case 8: for (size_t i = 0; i < n; i++) s[i] = char(i * 256 / n); break;         // increasing
    default: for (size_t i = 0; i < n; i++) s[i] = char(255 - i * 256 / n);          // decreasing
  }
  return s;
}
SCENARIO(st_suffix, 20) {
  Rng& r = ctx.rng;
  int kind = ctx.index % 10;
  u64 s[2]; size_t n[2] = {2000, ctx.index < 10 ? size_t(180000) : 60000};   // repeats longer than 2^16 too
  for (int k = 0; k < 2; k++) { std::string t = long_text(r, kind, n[k]); s[k] = count([&] { SuffixArray a(t); keep(a); }); }
  // the LCP statistics sort the lengths once: a factor log n
  proportional(ctx, "SuffixArray", s[0], n[0] * std::log2(n[0]), s[1], n[1] * std::log2(n[1]), 3, "text kind " + show(kind));
  ctx.in(kind); ctx.in(r.next());
}
SCENARIO(st_oracle, 20) {
  Rng& r = ctx.rng;
  int kind = ctx.index % 10;
  u64 s[2], w[2] = {0, 0}; size_t n[2] = {1000, 20000};
  if (kind == 2) n[1] = 6000;
  for (int k = 0; k < 2; k++) {
    std::string t = long_text(r, kind, n[k]);
    s[k] = count([&] { FactorOracle a(t); keep(a); });
    FactorOracle a(t);
    for (int q = 0; q < 2000; q++) { size_t st = r.below(n[k] + 1), from = st; u8 c = r.coin() ? u8(t[r.below(n[k])]) : u8(r.next()); w[k] = std::max(w[k], count([&] { keep(a.image(st, c)); })); (void)from; }
  }
  // placing the transitions of states over all bytes is a search of no promised length
  if (kind != 2) proportional(ctx, "FactorOracle", s[0], n[0] * 1.0, s[1], n[1] * 1.0, 4, "text kind " + show(kind));
  OK("steps.oracle_step", w[1] <= 3 * w[0] + 120, "one step of the oracle takes up to " + show(w[0]) + " and " + show(w[1]) + " steps");
  ctx.in(kind); ctx.in(r.next());
}
SCENARIO(st_kmp, 20) {
  Rng& r = ctx.rng;
  int kind = ctx.index % 10;
  u64 s[2]; size_t n[2] = {2000, 100000}, m[2] = {40, ctx.index < 10 ? size_t(2000) : 50000};   // setting up must be linear in the pattern, too
  for (int k = 0; k < 2; k++) {
    std::string t = long_text(r, kind, n[k]), p = t.substr(n[k] / 3, m[k]);
    if (r.coin()) p.back() ^= 1;
    s[k] = count([&] { pattern_matching::Kmp x(p); keep(x.find_all(t)); });
  }
  proportional(ctx, "Kmp", s[0], n[0] + m[0], s[1], n[1] + m[1], 3, "text kind " + show(kind));
  ctx.in(kind); ctx.in(r.next());
}
SCENARIO(st_keys, 12) {   // a lookup costs the length of the query, whatever the number of keys
  Rng& r = ctx.rng;
  Worst w;
  unsigned sig = 2 + r.below(60);
  for (w.at = 0; w.at < 2; w.at++) {
    std::set<std::string> ks;
    for (size_t n = w.at ? 8000 : 100; n--;) { std::string k; for (u64 l = 1 + r.below(12); l--;) k += char('!' + r.below(sig)); ks.insert(k); }
    std::vector<std::string> v(ks.begin(), ks.end());
    const Samc<int> s(v.begin(), v.end());
    const SamcDict<int> d(v.begin(), v.end());
    graph_util::Trie<u64, uint32_t> t;
    for (int q = 0; q < 600; q++) {
      std::string k = v[r.below(v.size())];
      if (r.coin()) k[r.below(k.size())] = char('!' + r.below(sig));
      w.op("accept", [&] { keep(s.accept(k)); });
      w.op("lookup", [&] { keep(d.lookup(k)); });
      size_t id = r.below(v.size());
      w.op("access", [&] { keep(d.access(id)); });
    }
  }
  constant(ctx, "keys", w, 100, 8000);
  ctx.in(r.next());
}
SCENARIO(st_builds, 12) {   // building, copying, writing, reading and walking are linear in the contents
  Rng& r = ctx.rng;
  size_t n[2] = {2000 + r.below(50), 150000 + r.below(5000)};
  std::map<std::string, std::array<u64, 2>> s;
  int density = 1 + r.below(30), alphabet = r.pick<int>({2, 5, 40, 256}), spread = r.below(64);
  for (int k = 0; k < 2; k++) {
    size_t N = n[k], C = N / 8;
    std::vector<bool> b(N); std::vector<u64> v(N); std::vector<uint8_t> a(N);
    for (size_t i = 0; i < N; i++) { b[i] = r.chance(density, 32); v[i] = r.next() >> r.range(spread, 63); a[i] = r.below(alphabet); }
    v[N / 2] = ~0ull >> spread; a[N / 3] = alphabet - 1;
    auto at = [&](const std::string& nm, auto&& f) { s[nm][k] = count(f); };
    auto all = [&](const std::string& nm, auto& x, auto&& fresh) {
      typedef std::decay_t<decltype(x)> T;
      at(nm + " copy", [&] { T y(x); keep(y); });
      at(nm + " assignment", [&] { T y(fresh()); y = x; keep(y); });
      std::stringstream st;
      at(nm + " write", [&] { x.Write(st); });
      at(nm + " read", [&] { T y(fresh()); y.Read(st); keep(y); });
    };
    BitVector bv(b);
    at("BitVector build", [&] { BitVector x(b); keep(x); });
    all("BitVector", bv, [] { return BitVector(3); });
    SuccinctBitVector<true> sb(bv);
    at("succinct build", [&] { SuccinctBitVector<true> x(bv); keep(x); });
    at("succinct build without select", [&] { SuccinctBitVector<false> x(bv); keep(x); });
    all("succinct", sb, [] { return SuccinctBitVector<true>(BitVector(3)); });
    at("FitVector build", [&] { FitVector x(v); keep(x); });
    FitVector fv(v);
    at("FitVector copy", [&] { FitVector y(fv); keep(y); });
    at("FitVector fill", [&] { fv.assign(N, 1); keep(fv); });
    at("FitVector iteration", [&] { u64 t = 0; for (auto x : fv) t += x; keep(t); });
    at("DacVector build", [&] { DacVector x(v); keep(x); });
    at("DacVector build by a list", [&] { DacVector x(v, std::vector<size_t>{7, 9, 48}); keep(x); });
    DacVector dv(v, std::vector<size_t>{7, 9, 48});
    all("DacVector", dv, [] { return DacVector(std::vector<u64>{1, 500}); });
    at("DacVector iteration", [&] { u64 t = 0; for (auto i = dv.begin(); i != dv.end(); ++i) t += *i; keep(t); });
    at("WaveletTree build", [&] { WaveletTree x(a); keep(x); });
    WaveletTree wt(a);
    all("WaveletTree", wt, [] { return WaveletTree(std::vector<uint8_t>{1, 2}); });
    MultiBitVector<2> mb;
    for (size_t i = 0; i < N; i++) mb.set(i, a[i] & 3);
    at("MultiBitVector build", [&] { mb.build(); keep(mb); });
    all("MultiBitVector", mb, [] { MultiBitVector<2> m; m.set(0, 1); return m; });
    MultipleVector mv; { std::vector<size_t> e{3, 5}; mv.set_element_sizes(e); }
    for (size_t i = 0; i < N; i++) mv.push_back({i, i});
    at("MultipleVector copy", [&] { MultipleVector x(mv); keep(x); });
    at("CDRWArray build", [&] { CDRWArray x(v.begin(), v.begin() + C); keep(x); });
    CDRWVector cv; for (size_t i = 0; i < C; i++) cv.push_back(v[i]);
    at("CDRWVector copy", [&] { CDRWVector x(cv); keep(x); });
    CHT<32> ch(30); for (size_t i = 0; i < C; i++) ch.set(r.next() >> 34, i);
    at("CHT copy", [&] { CHT<32> x(ch); keep(x); });
    at("CHT reserve", [&] { ch.reserve(4 * C); keep(ch); });
    // keys of equal length, many of them updated
    std::vector<std::string> key(C);
    for (auto& q : key) { q.resize(6); for (auto& c : q) c = 'a' + r.below(12); }
    graph_util::Trie<u64, uint32_t> t;
    at("Trie insertion", [&] { for (size_t i = 0; i < C; i++) keep(*t.insert(key[i], i)); });
    at("Trie insertion again", [&] { for (size_t i = 0; i < C; i++) keep(*t.insert(key[i], i + 7)); });
    at("Trie lookup", [&] { for (size_t i = 0; i < C; i++) { keep(t.traverse(key[i])); } });
    at("Trie depth-first walk", [&] { u64 z = 0; t.dfs([&](auto& node, size_t d) { z += d + node.terminal(); }); keep(z); });
    at("Trie breadth-first walk", [&] { u64 z = 0; t.bfs([&](auto& node, size_t d) { z += d + node.terminal(); }); keep(z); });
    at("Trie copy", [&] { auto x = t; keep(x); });
    std::string text(N, 'a'); for (auto& c : text) c = 'a' + r.below(1 + alphabet % 26);
    at("Bm preparation", [&] { pattern_matching::Bm x(text); keep(x); });
    at("Kmp preparation", [&] { pattern_matching::Kmp x(text); keep(x); });
    at("short pattern search", [&] { for (auto m : pattern_matching::Simple("abc").find_all(text)) keep(m); keep(pattern_matching::Bm("bca").find_all(text)); keep(pattern_matching::SundayQS("ab").find_all(text)); keep(pattern_matching::SundayMS("acb").find_all(text)); keep(pattern_matching::Bom("cab").find_all(text)); keep(pattern_matching::TurboBom("aab").find_all(text)); });
  }
  for (auto& [nm, v] : s) proportional(ctx, nm, v[0], n[0], v[1], n[1], 3, show(n[0]) + " and " + show(n[1]) + " elements");
  ctx.in(n[1]);
}
#include "main.inc"
