// C11: constant-time initialisable arrays against a plain array that really is filled.
#include "mon.hpp"
#include "gen.hpp"
#include "sim_ds/InitializableArray.hpp"
using namespace mon;

template <class T> static bool same(const T& a, const T& b) {
  if constexpr (std::is_floating_point_v<T> && sizeof(T) <= 8) return memcmp(&a, &b, sizeof(T)) == 0;
  else return a == b;
}
template <class T> static std::string shw(const T& v) {
  if constexpr (std::is_floating_point_v<T>) { char b[64]; snprintf(b, sizeof b, "%La", (long double)v); return b; }
  else if constexpr (sizeof(T) > 8) return show((u64)v);
  else return show(v);
}

// values that look like chain pointers inside the array are preferred
template <class T> static T value(Rng& r, size_t size) {
  u64 x;
  switch (r.below(6)) {
    case 0: case 1: x = r.below(size + 2); break;
    case 2: x = 2 * r.below(size / 2 + 1); break;
    case 3: x = r.value(64); break;
    case 4: x = ~u64(0) - r.below(3); break;
    default: x = size + r.below(4);
  }
  if constexpr (std::is_floating_point_v<T>) {
    if (sizeof(T) > 8) return T((long long)x);
    T t; memcpy(&t, &x, std::min(sizeof t, sizeof x));     // bit patterns, NaNs included
    return t;
  } else return T(x);
}

// what the memory held before: noise, constants, or a net of chain pointers
template <class A> static void soil(Rng& r, unsigned char* m, size_t cells) {
  using T = typename A::value_type;
  size_t n = sizeof(A);
  switch (r.below(5)) {
    case 0: memset(m, 0, n); break;
    case 1: memset(m, int(r.below(256)), n); break;
    case 2: for (size_t i = 0; i < n; i++) m[i] = (unsigned char)r.next(); break;
    case 3: for (size_t i = 0; i < n; i++) m[i] = (unsigned char)r.below(4); break;
    default: {
      // header first, then the cells: every cell gets a plausible even index; pairs point at each other
      for (size_t i = 0; i < n; i++) m[i] = 0;
      size_t blocks = cells / 2;
      size_t off = n - cells * sizeof(T);
      off -= off % alignof(T);
      auto put = [&](size_t cell, u64 v) { if (off + cell * sizeof(T) + sizeof(T) <= n) memcpy(m + off + cell * sizeof(T), &v, std::min(sizeof v, sizeof(T))); };
      for (size_t b = 0; b < blocks; b++) {
        if (r.coin()) { size_t k = r.below(blocks); put(2 * b, 2 * k); put(2 * k, 2 * b); }
        else put(2 * b, 2 * r.below(blocks));
        put(2 * b + 1, r.below(cells + 1));
      }
    }
  }
}

// thin type-erased view, so that one history serves every size
template <class T> struct View {
  size_t N = 0;
  virtual ~View() {}
  virtual T get(size_t i) const = 0;
  virtual T idx(size_t i) = 0;
  virtual T cidx(size_t i) const = 0;
  virtual size_t size() const = 0;
  virtual void set(size_t i, T v) = 0;
  virtual void set_idx(size_t i, T v) = 0;
  virtual void copy(size_t i, size_t j) = 0;
  virtual void init(T v) = 0;
  virtual void fill(const T* v) = 0;
  virtual void iter_set(size_t i, T v, int how) = 0;
  virtual void std_fill(T v) = 0;
  virtual std::vector<T> walk(int how) = 0;
  virtual void laws(Ctx& ctx, const std::vector<T>& m) = 0;
};
template <class T, size_t Sz> struct ViewOf : View<T> {
  using A = sim_ds::InitializableArray<T, Sz>;
  A* a; const A* c; void* mem = nullptr;
  ViewOf(Rng& r, const T* v) {
    this->N = Sz;
    if (posix_memalign(&mem, std::max(alignof(A), sizeof(void*)), sizeof(A))) fail("ia.memory", "allocation failed");
    soil<A>(r, (unsigned char*)mem, Sz + Sz % 2);
    c = a = v ? new (mem) A(*v) : new (mem) A;
  }
  ~ViewOf() { free(mem); }
  T get(size_t i) const override { return c->get(i); }
  T idx(size_t i) override { return (*a)[i]; }
  T cidx(size_t i) const override { return (*c)[i]; }
  size_t size() const override { return c->size(); }
  void set(size_t i, T v) override { a->set(i, v); }
  void set_idx(size_t i, T v) override { (*a)[i] = v; }
  void copy(size_t i, size_t j) override { (*a)[i] = (*c)[j]; }
  void init(T v) override { a->init(v); }
  void fill(const T* v) override { if (v) a->fill(*v); else a->fill(); }
  void iter_set(size_t i, T v, int how) override {
    if (how == 0) { auto it = a->begin(); it += i; *it = v; it -= i; OK("ia.iter", it == a->begin(), "jump back"); return; }
    auto it = a->end() - (ptrdiff_t)(Sz - i);
    it[0] = v;
    EQ("ia.iter_distance", it - a->begin(), (ptrdiff_t)i);
    OK("ia.iter_order", (a->begin() < a->end()) && (it <= it) && (it >= a->begin()) && !(it > a->end()) && (it != a->end()), "order");
  }
  void std_fill(T v) override { std::fill(a->begin(), a->end(), v); }
  std::vector<T> walk(int how) override {
    std::vector<T> o;
    if (how == 0) { size_t k = 0; for (auto it = c->begin(); it != c->end() && k <= Sz; k++) { o.push_back(*it); if (k % 2) it++; else ++it; } EQ("ia.iter_count", size_t(c->cend() - c->cbegin()), Sz); }
    else { auto it = a->end(); size_t k = Sz; while (it != a->begin() && k) { if (k % 2) it--; else --it; k--; o.push_back(*it); } std::reverse(o.begin(), o.end()); }
    return o;
  }
  struct Item { T v; Item(T x) : v(x) {} bool operator==(const Item& o) const { return same(v, o.v); } };
  void laws(Ctx& ctx, const std::vector<T>& m) override {
    gen::iter_walk<typename A::iterator, Item>(ctx, "ia", Sz, [&](size_t k) { return a->begin() + (ptrdiff_t)k; }, [&](size_t k) { return m[k]; }, 6);
    gen::iter_walk<typename A::const_iterator, Item>(ctx, "ia", Sz, [&](size_t k) { return c->begin() + (ptrdiff_t)k; }, [&](size_t k) { return m[k]; }, 6);
  }
};

template <class T> static void inplace(Ctx& ctx, int ops, std::unique_ptr<View<T>> (*make)(Rng&, const T*), size_t N) {
  Rng& r = ctx.rng;
  T v0 = value<T>(r, N);
  bool dflt = r.chance(1, 6);
  auto box = make(r, dflt ? nullptr : &v0);
  View<T>& a = *box;
  if (dflt) v0 = T();
  std::vector<T> m(N, v0);
  u64 inits = 0, sets = 0;
  std::string trace;
  auto cmp = [&](int how) {
    for (size_t i = 0; i < N; i++) {
      T g = how == 0 ? a.get(i) : how == 1 ? a.cidx(i) : a.idx(i);
      if (!same(g, m[i])) fail("ia.content", std::string("index ") + show(i) + " of " + show(N) + " x " + show(sizeof(T)) + " bytes via way " + show(how) + ": got " + shw(g) + ", expected " + shw(m[i]) + " after" + trace);
    }
    ctx.event("ia.full_compares");
    ctx.event("ia.reads", N);
  };
  EQ("ia.size", a.size(), N);
  cmp(0);
  if (N > 60000 && r.coin()) {  // nearly every cell written once, in one order or another
    int order = r.below(3);
    size_t step = order == 2 ? 2 * r.below(N / 2) + 1 : 1;
    while (std::gcd(step, N) != 1) step += 2;
    for (size_t k = 0, at = order == 1 ? N - 1 : 0; k < N - r.below(3); k++) {
      T v = value<T>(r, N); a.set(at, v); m[at] = v; sets++;
      at = order == 1 ? (at ? at - 1 : N - 1) : (at + step) % N;
    }
    trace += " dense";
    cmp(0);
    ctx.event("ia.dense_fills");
  }
  for (int q = 0; q < ops; q++) {
    int op = r.below(14);
    ctx.in(op);
    size_t i = r.below(N);
    T v = value<T>(r, N);
    if (r.chance(1, 5)) v = m[r.below(N)];
    std::string note;
    switch (op) {
      case 0: if (r.coin()) break; a.init(v); std::fill(m.begin(), m.end(), v); inits++; note = " init"; break;
      case 1: if (r.coin()) break; if (r.coin()) { a.fill(&v); } else { a.fill(nullptr); v = T(); } std::fill(m.begin(), m.end(), v); inits++; note = " fill"; break;
      case 2: a.set_idx(i, v); m[i] = v; note = " []" + show(i); sets++; break;
      case 3: { size_t j = r.below(N); a.copy(i, j); m[i] = m[j]; note = " copy" + show(j) + "->" + show(i); sets++; break; }
      case 4: case 5: a.iter_set(i, v, op - 4); m[i] = v; note = " it" + show(i); sets++; break;
      case 6: if (r.chance(1, N > 1000 ? 40 : 4)) { a.std_fill(v); std::fill(m.begin(), m.end(), v); note = " std::fill"; sets += N; } break;
      case 7: case 8: if (N < 1000 || r.chance(1, 10)) {
        auto w = a.walk(op - 7);
        EQ("ia.iter_count", w.size(), N);
        for (size_t k = 0; k < N; k++) if (!same(w[k], m[k])) fail("ia.iter_content", "walk at " + show(k) + " got " + shw(w[k]) + " expected " + shw(m[k]) + trace);
        a.laws(ctx, m);
        ctx.event("ia.iter_walks");
      } break;
      default: a.set(i, v); m[i] = v; note = " set" + show(i); sets++;
    }
    if (!note.empty()) { trace += note; if (trace.size() > 300) trace.erase(0, 150); }
    ctx.event("ia.ops");
    if (N <= 64 || q % 64 == 7) cmp(q % 3);
    else for (int z = 0; z < 8; z++) { size_t j = r.below(N); if (!same(a.get(j), m[j])) fail("ia.content", "index " + show(j) + " after" + trace); }
  }
  cmp(0);
  ctx.in(inits); ctx.in(sets);
  ctx.event("ia.inits", inits);
  ctx.event("ia.sets", sets);
  ctx.nontrivial(sets > 3 && N > 2);
  ctx.describe("in-place " + show(N) + " cells of " + show(sizeof(T)) + " bytes:" + trace);
}

template <class T, size_t N> static std::unique_ptr<View<T>> mk(Rng& r, const T* v) { return std::make_unique<ViewOf<T, N>>(r, v); }
template <class T, size_t... Ns> static void pick(Ctx& ctx, int ops) {
  using F = std::unique_ptr<View<T>> (*)(Rng&, const T*);
  static const F fs[] = {&mk<T, Ns>...};
  static const size_t ns[] = {Ns...};
  size_t k = ctx.rng.below(sizeof...(Ns));
  inplace<T>(ctx, ops, fs[k], ns[k]);
}

#ifndef PART
#define PART 0
#endif
#if PART == 0 || PART == 1
SCENARIO(ia_u8, 1000) { pick<uint8_t, 1, 2, 3, 4, 6, 7, 8, 16, 31>(ctx, 10 + ctx.rng.below(60)); }
SCENARIO(ia_i8, 500) { pick<int8_t, 1, 3, 4, 5, 6, 10>(ctx, 10 + ctx.rng.below(60)); }
SCENARIO(ia_full8, 150) { pick<uint8_t, 255, 256>(ctx, 200 + ctx.rng.below(400)); }  // as many cells as the element type can index
SCENARIO(ia_fulli8, 150) { pick<int8_t, 127, 128>(ctx, 200 + ctx.rng.below(400)); }
#endif
#if PART == 0 || PART == 2
SCENARIO(ia_u16, 600) { pick<uint16_t, 2, 3, 4, 6, 10, 33>(ctx, 10 + ctx.rng.below(60)); }
SCENARIO(ia_i32, 600) { pick<int32_t, 1, 3, 4, 7, 8, 20>(ctx, 10 + ctx.rng.below(60)); }
SCENARIO(ia_k16, 60) { pick<uint16_t, 1000, 4099>(ctx, 200 + ctx.rng.below(400)); }
SCENARIO(ia_long, 6) { pick<uint16_t, 65535, 65536>(ctx, 2000); }
SCENARIO(ia_longer, 3) { pick<uint32_t, 65541, 140001>(ctx, 1500); }
#endif
#if PART == 0 || PART == 3
SCENARIO(ia_u64, 600) { pick<uint64_t, 2, 3, 4, 6, 10, 40>(ctx, 10 + ctx.rng.below(60)); }
SCENARIO(ia_f, 500) { pick<float, 2, 3, 4, 8, 14>(ctx, 10 + ctx.rng.below(60)); }
SCENARIO(ia_d, 500) { pick<double, 2, 4, 5, 14, 50>(ctx, 10 + ctx.rng.below(60)); }
SCENARIO(ia_k64, 60) { pick<int64_t, 300, 1023>(ctx, 200 + ctx.rng.below(400)); }
SCENARIO(ia_longer64, 1) { pick<uint64_t, 65539>(ctx, 1500); }
#endif
#if PART == 0 || PART == 4
SCENARIO(ia_ld, 200) { pick<long double, 3, 8, 17>(ctx, 20 + ctx.rng.below(80)); }
SCENARIO(ia_u128, 200) { pick<unsigned __int128, 2, 7, 16>(ctx, 20 + ctx.rng.below(80)); }
#endif

template <class T, class Mk> static void folklore(Ctx& ctx, size_t maxn, int ops, Mk mk) {
  Rng& r = ctx.rng;
  using A = sim_ds::InitializableArrayFolklore<T>;
  size_t n = r.size(maxn);
  ctx.in(n);
  std::vector<T> m;
  A a;
  switch (r.below(4)) {
    case 0: { for (size_t i = 0; i < n; i++) m.push_back(mk(r)); a = gen::over_range(r, m, [](auto b, auto e) { return A(b, e); }); break; }
    case 1: a = A(n); m.assign(n, T()); break;
    default: { T v = mk(r); a = A(n, v); m.assign(n, v); }
  }
  u64 inits = 0;
  const A& c = a;
  auto cmp = [&] {
    EQ("iaf.size", c.size(), n);
    for (size_t i = 0; i < n; i++) if (!(c.get(i) == m[i])) fail("iaf.content", "index " + show(i) + " of " + show(n) + " after " + show(inits) + " initialisations: got " + show(c.get(i)) + ", expected " + show(m[i]));
    ctx.event("iaf.full_compares");
  };
  cmp();
  for (int q = 0; q < ops; q++) {
    T v = mk(r);
    int op = r.below(n > 100 ? 60 : 10);
    if (op == 0) { a.init(v); m.assign(n, v); inits++; }
    else if (op == 1) { if (r.coin()) a.fill(v); else { a.fill(); v = T(); } m.assign(n, v); inits++; }
    else if (op == 2) { a.init(); m.assign(n, T()); inits++; }
    else if (n) { size_t i = r.coin() ? r.below(n) : r.below(std::min<size_t>(n, 4)); a.set(i, v); m[i] = v; ctx.in(i); }
    ctx.event("iaf.ops");
    if (q % (n > 100 ? 20 : 3) == 0) cmp();
    else if (n) { size_t j = r.below(n); if (!(c.get(j) == m[j])) fail("iaf.content", "index " + show(j) + " after a step"); }
  }
  cmp();
  ctx.event("iaf.inits", inits);
  ctx.nontrivial(n > 1 && inits > 0);
  ctx.describe("folklore n " + show(n) + " initialisations " + show(inits));
}
#if PART == 0 || PART == 4
SCENARIO(ia_folklore, 2000) {
  switch (ctx.rng.below(4)) {
    case 0: folklore<int>(ctx, 60, 80, [](Rng& r) { return int(r.below(5)) - 2; }); break;
    case 1: folklore<u64>(ctx, 600, 200, [](Rng& r) { return r.value(64); }); break;
    case 2: folklore<std::string>(ctx, 30, 60, [](Rng& r) { return std::string(r.below(40), char('a' + r.below(26))); }); break;
    default: folklore<double>(ctx, 60, 80, [](Rng& r) { return double(r.below(9)); });
  }
}
SCENARIO(ia_folklore_long, 2) { folklore<u64>(ctx, 200000, 1500, [](Rng& r) { return r.value(64); }); }
#endif

#if PART == 5
// More than 2^32 cells, in memory that is mapped and never touched but where the array reads and writes.
SCENARIO(ia_beyond32, 8) {
  if (ctx.sanitized) return;
  Rng& r = ctx.rng;
  constexpr size_t N = 5000000011ull;
  using A = sim_ds::InitializableArray<u64, N>;
  void* mem = mmap(nullptr, sizeof(A), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (mem == MAP_FAILED) { ctx.event("ia.no_address_space"); ctx.event("ia.vast_arrays"); return; }
  struct Un { void* m; ~Un() { munmap(m, sizeof(A)); } } un{mem};
  const size_t p31 = size_t(1) << 31, p32 = size_t(1) << 32;
  std::vector<size_t> hot;
  for (size_t b : {size_t(0), p31, p32, p31 / 2, p32 / 2, N - 12, size_t(4) * r.below(N / 5), size_t(4) * r.below(N / 5)})
    for (long d = b ? -10 : 0; d < 12; d++) if (b + d < N) hot.push_back(b + d);
  for (int k = 0; k < 40; k++) { size_t i = r.below(N); hot.push_back(i); if (i > p32) hot.push_back(i - p32); }
  for (size_t k = 0; k < 60; k++) hot.push_back(k);
  // planted cells: what the memory held before
  char* cells = (char*)mem + sizeof(A) - (N + N % 2) * sizeof(u64);
  if (r.chance(3, 4)) for (size_t i : hot) {
    size_t b = i / 2 * 2;
    u64 to = hot[r.below(hot.size())] / 2 * 2;
    if (r.coin()) { memcpy(cells + b * 8, &to, 8); if (r.coin()) memcpy(cells + to * 8, &b, 8); }
    else { u64 x = u32(to); memcpy(cells + b * 8, &x, 8); }
  }
  u64 v0 = r.value(64);
  A* a = new (mem) A(v0);
  const A& c = *a;
  std::unordered_map<size_t, u64> m;
  u64 sets = 0, inits = 0;
  auto expect = [&](size_t i) { auto it = m.find(i); return it == m.end() ? v0 : it->second; };
  auto cmp = [&](size_t i, int how) {
    u64 g = how == 0 ? c.get(i) : how == 1 ? (u64)c[i] : how == 2 ? (u64)(*a)[i] : (u64)*(c.begin() + (ptrdiff_t)i);
    if (g != expect(i)) fail("ia.content", "index " + show(i) + " of " + show(N) + " x 8 bytes via way " + show(how) + ": got " + show(g) + ", expected " + show(expect(i)) + " after " + show(sets) + " writes, " + show(inits) + " initialisations");
    ctx.event("ia.reads");
  };
  EQ("ia.size", c.size(), N);
  EQ("ia.iter_count", size_t(c.end() - c.begin()), N);
  EQ("ia.iter_count", size_t(a->end() - a->begin()), N);
  int ops = 3000;
  for (int q = 0; q < ops; q++) {
    size_t i = r.choose(hot);
    u64 v;
    switch (r.below(4)) { case 0: v = r.value(64); break; case 1: v = hot[r.below(hot.size())] / 2 * 2; break; case 2: v = i / 2 * 2 + (r.coin() ? p32 : 0); break; default: v = v0; }
    switch (r.below(ops / 4)) { case 0: v0 = v; m.clear(); inits++; if (r.coin()) a->init(v); else a->fill(v); break; default:
      if (r.chance(1, 8)) { i = r.below(N); hot[r.below(hot.size())] = i; }
      switch (r.below(4)) {
        case 0: (*a)[i] = v; break;
        case 1: *(a->begin() + (ptrdiff_t)i) = v; break;
        case 2: (a->end() - (ptrdiff_t)(N - i))[0] = v; break;
        default: a->set(i, v);
      }
      m[i] = v; sets++;
    }
    ctx.event("ia.ops");
    cmp(i, q % 4); cmp(r.choose(hot), 0); cmp(i ^ 1, 0); if (i > p32) cmp(i - p32, 1);
    if (q % 256 == 255) for (size_t j : hot) cmp(j, q / 256 % 4);
  }
  for (auto& kv : m) cmp(kv.first, 0);
  for (size_t j : hot) cmp(j, 0);
  ctx.event("ia.vast_arrays");
  ctx.in(sets); ctx.in(hot.back()); ctx.in(v0);
  ctx.nontrivial(sets > 3);
  ctx.describe(show(N) + " cells of 8 bytes, " + show(sets) + " writes at " + show(hot.size()) + " places, " + show(inits) + " initialisations");
}
#endif
#include "main.inc"
