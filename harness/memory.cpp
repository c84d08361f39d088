// C32: who holds memory, how much, and what happens when it is refused. Every allocation of the program is counted.
#if PART == 1
#define ZOO_GROUPS 1
#elif PART == 2
#define ZOO_GROUPS 2
#elif PART == 3
#define ZOO_GROUPS 4
#elif PART == 4
#define ZOO_GROUPS 8
#elif PART == 5
#define ZOO_GROUPS 16
#endif
#include "zoo.hpp"
#include "sim_ds/sort.hpp"
#include <sys/mman.h>
#include <cerrno>
#include <new>

// ---- the monitor
static long live_bytes, live_blocks, allocations;
static long fail_at = -1;      // the allocation to be refused (0: the next)
static bool fail_on, failed;   // all that follow too; one was refused
static bool refuse() {
  allocations++;
  if (fail_at < 0) return false;
  if (fail_at > 0) { fail_at--; return false; }
  if (!fail_on) fail_at = -1;
  failed = true;
  return true;
}
// Blocks are counted by a table of their addresses, so that what was taken or is given back elsewhere (inside libc, libstdc++) does not disturb the count.
struct Table {   // open addressing, its memory from mmap
  struct Slot { uintptr_t p; size_t n; };
  Slot* s = nullptr; size_t cap = 0, used = 0;   // used: also the erased ones (p == 1)
  static size_t h(uintptr_t p) { return (p >> 4) * 0x9E3779B97F4A7C15ull >> 20; }
  void grow() {
    Slot* o = s; size_t oc = cap, live = 0;
    for (size_t i = 0; i < oc; i++) live += o[i].p > 1;
    cap = std::max<size_t>(1 << 12, 1); while (cap < live * 4) cap *= 2;
    s = (Slot*)mmap(nullptr, cap * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (s == MAP_FAILED) abort();
    used = 0;
    for (size_t i = 0; i < oc; i++) if (o[i].p > 1) put(o[i].p, o[i].n);
    if (o) munmap(o, oc * sizeof(Slot));
  }
  void put(uintptr_t p, size_t n) {
    if ((used + 1) * 2 > cap) grow();
    size_t i = h(p) & (cap - 1);
    while (s[i].p > 1) i = (i + 1) & (cap - 1);
    used += s[i].p == 0;
    s[i] = {p, n};
  }
  bool take(uintptr_t p, size_t* n) {
    if (!cap) return false;
    for (size_t i = h(p) & (cap - 1); s[i].p; i = (i + 1) & (cap - 1)) if (s[i].p == p) { *n = s[i].n; s[i] = {1, 0}; return true; }
    return false;
  }
};
static Table table;
static void* noted(void* p, size_t n) { if (p) { live_bytes += n; live_blocks++; table.put(uintptr_t(p), n); } return p; }
static void gone(void* p) { size_t n; if (p && table.take(uintptr_t(p), &n)) { live_bytes -= n; live_blocks--; } }
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*); void* __real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void**, size_t, size_t); void* __real_memalign(size_t, size_t);
void* __wrap_malloc(size_t n) { return refuse() ? nullptr : noted(__real_malloc(n), n); }
void* __wrap_calloc(size_t a, size_t b) { return refuse() ? nullptr : noted(__real_calloc(a, b), a * b); }
void* __wrap_realloc(void* p, size_t n) {
  if (refuse()) return nullptr;
  size_t o = 0; bool was = p && table.take(uintptr_t(p), &o);
  if (was) { live_bytes -= o; live_blocks--; }
  void* q = __real_realloc(p, n);
  if (q) return noted(q, n);
  if (was && n) noted(p, o);
  return q;
}
void __wrap_free(void* p) { gone(p); __real_free(p); }
void* __wrap_memalign(size_t a, size_t n) { return refuse() ? nullptr : noted(__real_memalign(a, n), n); }
int __wrap_posix_memalign(void** p, size_t a, size_t n) {
  if (refuse()) return ENOMEM;
  int e = __real_posix_memalign(p, a, n);
  if (!e) noted(*p, n);
  return e;
}
void* __wrap_aligned_alloc(size_t a, size_t n) { return refuse() ? nullptr : noted(__real_aligned_alloc(a, n), n); }
}
static void* get(size_t n, size_t a = 0) {
  if (refuse()) return nullptr;
  return noted(a ? __real_aligned_alloc(a, (n + a - 1) / a * a) : __real_malloc(n ? n : 1), n);
}
static void* must(void* p) { if (!p) throw std::bad_alloc(); return p; }
static void drop(void* p) { gone(p); __real_free(p); }
void* operator new(size_t n) { return must(get(n)); }
void* operator new[](size_t n) { return must(get(n)); }
void* operator new(size_t n, std::align_val_t a) { return must(get(n, size_t(a))); }
void* operator new[](size_t n, std::align_val_t a) { return must(get(n, size_t(a))); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return get(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return get(n, size_t(a)); }
void operator delete(void* p) noexcept { drop(p); }
void operator delete[](void* p) noexcept { drop(p); }
void operator delete(void* p, size_t) noexcept { drop(p); }
void operator delete[](void* p, size_t) noexcept { drop(p); }
void operator delete(void* p, std::align_val_t) noexcept { drop(p); }
void operator delete[](void* p, std::align_val_t) noexcept { drop(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { drop(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { drop(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { drop(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { drop(p); }

using namespace zoo;
using A = std::unique_ptr<Animal>;
struct Held { long bytes = live_bytes, blocks = live_blocks; };
static std::string show_held(const Held& a, const Held& b) { return show(b.blocks - a.blocks) + " blocks, " + show(b.bytes - a.bytes) + " bytes"; }
static bool more(const Held& a, const Held& b) { return b.blocks > a.blocks || b.bytes > a.bytes; }
static const Species& pick(Ctx& ctx) { auto& s = species(); auto& x = s[ctx.index % s.size()]; ctx.in(x.name); return x; }

// a whole life: everything that can be done with an object, then its end
static void life(const Species& s, u64 seed) {
  Rng r(seed);
  auto a = s.make(r.next(), r.pick<size_t>({10, 100, 600, 3000}));
  for (u64 q = r.below(5); q--;) a->change(r.next());
  V e = a->answers();
  auto b = s.make(r.next(), 300);
  for (int q = 0; q < 6; q++) switch (r.below(8)) {
    case 0: b->assign(*a); break;
    case 1: b = a->copy(); break;
    case 2: { auto c = a->steal(); a->assign(*c); a->assign_self(); break; }
    case 3: { auto c = a->copy(); b->take(*c); if (r.coin()) c->assign(*b); break; }
    case 4: a->swap_with(*b); break;
    case 5: if (a->io()) { std::istringstream is(a->bytes()); b->read(is, *a); } break;
    case 6: if (a->io()) { std::istringstream is(a->bytes()); b = a->fresh(is); } break;
    default: b->change(r.next());
  }
  e = b->answers();
}
SCENARIO(me_balance, 600) {   // what is destroyed gives everything back
  auto& s = pick(ctx);
  u64 seed = ctx.rng.next();
  life(s, seed);   // whatever is set up once is set up now
  Held h;
  long n = allocations;
  life(s, seed);
  Held g;
  ctx.event("me.allocations", allocations - n);
  if (more(h, g)) fail(std::string("mem.leak:") + s.name, std::string(s.name) + ": " + show_held(h, g) + " are still held when every object is gone");
  ctx.event("me.lives");
  ctx.in(seed); ctx.nontrivial();
  ctx.describe(s.name);
}
SCENARIO(me_queries, 200) {   // asking takes no lasting memory, and neither does assigning the same again and again
  Rng& r = ctx.rng;
  auto& s = pick(ctx);
  auto a = s.make(r.next(), r.pick<size_t>({50, 600, 2000})), b = s.make(r.next(), 600);
  (void)a->answers(); (void)b->answers(); (void)a->bytes();
  auto round = [&] { (void)a->answers(); if (a->io()) (void)a->bytes(); };
  round();
  Held h;
  for (int q = 0; q < 4; q++) round();
  Held g;
  if (more(h, g)) fail(std::string("mem.queries:") + s.name, std::string(s.name) + ": " + show_held(h, g) + " more held after four rounds of queries");
  auto again = [&] { auto c = s.make(7, 100); c->assign(*a); c->assign(*b); c->assign(*a); b->assign(*a); a->assign_self(); if (a->io()) { std::istringstream is(a->bytes()); b->read(is, *a); } };
  again(); again();
  Held h2;
  for (int q = 0; q < 4; q++) again();
  Held g2;
  if (more(h2, g2)) fail(std::string("mem.again:") + s.name, std::string(s.name) + ": " + show_held(h2, g2) + " more held after being assigned the same again");
  ctx.event("me.rounds", 8);
  ctx.in(h.bytes); ctx.in(s.name); ctx.nontrivial();
  ctx.describe(s.name);
}
// ---- refused memory
struct Op { const char* what; std::function<A(const A& subject, const A& other)> f; };   // a result, if the operation makes one
SCENARIO(me_refused, 600) {
  Rng& r = ctx.rng;
  auto& s = pick(ctx);
  size_t max = r.pick<size_t>({10, 60, 300, 300, 1500});
  u64 sa = r.next(), sb = r.next(), ch = r.next(), extra = r.below(3);
  auto build = [&](u64 seed) { auto a = s.make(seed, max); for (u64 q = extra; q--;) a->change(seed + q); return a; };
  std::string bytes;
  { auto o = build(sb); bytes = o->bytes(); }
  std::istringstream is(bytes);   // (its buffer is made before memory runs out)
  std::vector<Op> ops = {
    {"constructed", [&](const A&, const A&) { return s.make(sa, max); }},
    {"copied", [&](const A&, const A& o) { return o->copy(); }},
    {"assigned", [&](const A& a, const A& o) { a->assign(*o); return A(); }},
    {"changed", [&](const A& a, const A&) { a->change(ch); return A(); }},
    {"assigned to itself", [&](const A& a, const A&) { a->assign_self(); return A(); }},
    {"read", [&](const A& a, const A& o) { a->read(is, *o); return A(); }},
    {"read anew", [&](const A&, const A& o) { return o->fresh(is); }},
  };
  size_t which = r.below(s.io ? 7 : 5);
  auto& op = ops[which];
  // undisturbed: the answers, and how many allocations there are
  V want, want_other;
  long n;
  {
    auto a = build(sa), o = build(sb);
    want_other = o->answers();
    is.clear(); is.seekg(0);
    long from = allocations;
    A x = op.f(a, o);
    n = allocations - from;
    want = (x ? x : a)->answers();
  }
  int refusals = 0, faults = 0;
  for (int q = 0; q < (ctx.sanitized ? 10 : 24) && q < n; q++) {
    long k = n <= 24 ? q : long(r.below(n));
    bool on = r.coin();
    Held h;
    bool done = false;
    {
      auto a = build(sa), o = build(sb);
      A x;
      is.clear(); is.seekg(0);
      failed = false; fail_at = k; fail_on = on;
      try { x = op.f(a, o); done = true; }
      catch (const std::bad_alloc&) {}
      catch (...) { fail_at = -1; fail("mem.other_exception:" + std::string(s.name), std::string(s.name) + " " + op.what + " while memory is refused: another exception than std::bad_alloc"); }
      fail_at = -1;
      std::string how = std::string(op.what) + " with allocation " + show(k) + " of " + show(n) + (on ? " and all later ones" : "") + " refused";
      if (done) same("mem.completed", x ? *x : *a, want, how + " and completed");   // whoever can do without must do it right
      else refusals++;
      same("mem.bystander", *o, want_other, how + ": the object read from");
      if (!x && r.coin()) {
        a->assign(*o);
        same("mem.assigned_after", *a, want_other, how + ", then assigned another object");
        if (a->changes()) { auto t = build(sb); t->change(ch); a->change(ch); same("mem.changed_after", *a, t->answers(), how + ", then assigned another object and changed"); }
      }
      faults++;
    }
    Held g;
    if (more(h, g)) fail(std::string("mem.leak_refused:") + s.name, std::string(s.name) + " " + op.what + " with allocation " + show(k) + " of " + show(n) + (on ? " and all later ones" : "") + " refused: " + show_held(h, g) + " still held when every object is gone");
  }
  ctx.event("me.refusals", refusals);
  ctx.event("me.faults", faults);
  ctx.in(sa); ctx.in(sb); ctx.in(which); ctx.nontrivial(refusals > 0);
  ctx.describe(std::string(s.name) + " " + op.what + ", " + show(n) + " allocations");
}
#if PART == 5
template <class X> static u64 digest(const X& x) { u64 h = x.size(); for (auto i : x) h = h * 31 + u64(i); return h; }
SCENARIO(me_functions, 200) {   // the functions that make no object
  Rng& r = ctx.rng;
  std::string t = gen::text(r, r.below(300) + 1), k = t.substr(r.below(t.size()), 1 + r.below(20));
  auto ints = gen::ints(r, r.below(200), 64);
  namespace pm = pattern_matching;
  struct F { const char* name; std::function<u64()> f; };
  std::vector<F> fs = {
    {"PatternMatchBOM", [&] { return digest(pm::PatternMatchBOM(t, k)); }},
    {"PatternMatchTurboBOM", [&] { return digest(pm::PatternMatchTurboBOM(t, k)); }},
    {"PatternMatchKMP", [&] { return digest(pm::PatternMatchKMP(t, k)); }},
    {"PatternMatchBM", [&] { return digest(pm::PatternMatchBM(t, k)); }},
    {"PatternMatchSundayQS", [&] { return digest(pm::PatternMatchSundayQS(t, k)); }},
    {"PatternMatchSundayMS", [&] { return digest(pm::PatternMatchSundayMS(t, k)); }},
    {"split_positions_optimized_for_dac", [&] { std::vector<size_t> o; calc::split_positions_optimized_for_dac(ints, &o); u64 h = o.size(); for (auto x : o) h = h * 31 + x; return h; }},
    {"HeapSort", [&] { auto v = ints; HeapSort(v.begin(), v.end()); u64 h = 1; for (auto x : v) h = h * 31 + x; return h; }},
    {"FitVector of a list", [&] { FitVector v(ints); u64 h = v.size(); for (size_t i = 0; i < v.size(); i++) h = h * 31 + v[i]; return h; }},
  };
  auto& f = fs[ctx.index % fs.size()];
  long from = allocations;
  u64 want = f.f();
  long n = allocations - from;
  int refusals = 0, faults = 0;
  for (int q = 0; q < 24 && q < n; q++) {
    long a = n <= 24 ? q : long(r.below(n));
    fail_on = r.coin();
    Held h;
    bool done = false;
    u64 got = 0;
    fail_at = a;
    try { got = f.f(); done = true; }
    catch (const std::bad_alloc&) {}
    catch (...) { fail_at = -1; fail(std::string("mem.other_exception:") + f.name, std::string(f.name) + " while memory is refused: another exception than std::bad_alloc"); }
    fail_at = -1;
    Held g;
    faults++;
    refusals += !done;
    std::string how = std::string(f.name) + " with allocation " + show(a) + " of " + show(n) + " refused";
    if (done && got != want) fail(std::string("mem.completed:") + f.name, how + " returned " + show(got) + ", undisturbed " + show(want));
    if (more(h, g)) fail(std::string("mem.leak_refused:") + f.name, how + ": " + show_held(h, g) + " still held");
    u64 then = f.f();
    if (then != want) fail(std::string("mem.after:") + f.name, how + ", then called again: " + show(then) + ", undisturbed " + show(want));
  }
  ctx.event("me.refusals", refusals);
  ctx.event("me.faults", faults);
  ctx.in(t); ctx.in(k); for (u64 x : ints) ctx.in(x);
  ctx.in(f.name); ctx.nontrivial(refusals > 0);
  ctx.describe(std::string(f.name) + ", " + show(n) + " allocations");
}
#endif
// ---- held over long histories of bounded content
template <class F> static void churn(Ctx& ctx, const char* name, long before, long steps, F step) {
  long one = 0, two = 0;   // the most held in the first and in the last sixth
  for (long i = 0; i < steps; i++) { step(i); one = std::max(one, live_bytes - before); }
  for (long i = steps; i < 5 * steps; i++) step(i);
  for (long i = 5 * steps; i < 6 * steps; i++) { step(i); two = std::max(two, live_bytes - before); }
  ctx.event("me.churned", 6 * steps);
  if (std::getenv("MEM_SHOW")) fprintf(stderr, "%s %ld %ld\n", name, one, two);
  ctx.describe(std::string(name) + ", " + show(6 * steps) + " steps");
  ctx.in(name);
  if (two > 2 * one + 4096) fail(std::string("mem.churn:") + name, std::string(name) + ": it held up to " + show(one) + " bytes during " + show(steps) + " changes and " + show(two) + " at the end of " + show(6 * steps) + ", with content of the same size");
}
SCENARIO(me_churn, 60) {
  Rng& r = ctx.rng;
  long steps = ctx.sanitized ? 1500 : 6000;
  size_t n = 40 + r.below(400);
  ctx.in(n); ctx.nontrivial();
  long before = live_bytes;   // the object itself comes later
#if PART == 1
  switch (ctx.index % 3) {
    case 0: { BitVector v(n); churn(ctx, "BitVector", before, steps, [&](long) { switch (r.below(4)) { case 0: if (v.size() < 2 * n) v.push_back(r.coin()); break; case 1: resize2(v, {r.below(2 * n), r.coin()}); break; case 2: v.resize(n); break; default: v.fill(v.begin(), v.end(), r.coin()); } }); break; }
    case 1: { FitVector v(1 + r.below(64)); churn(ctx, "FitVector", before, steps, [&](long) { switch (r.below(4)) { case 0: if (v.size() < 2 * n) v.push_back(1); break; case 1: v.resize(r.below(2 * n)); break; case 2: v.assign(r.below(n), 1); break; default: v.resize(n); } }); break; }
    default: { BitVector b(n); SuccinctBitVector<true> v(b); DacVector d(std::vector<u64>(n, 77)); churn(ctx, "built again", before, steps / 4, [&](long) { BitVector c(n, r.coin()); v = SuccinctBitVector<true>(c); d = DacVector(gen::ints(r, n, 20)); }); break; }
  }
#elif PART == 2
  switch (ctx.index % 3) {
    case 0: { MultiBitVector<2> v; churn(ctx, "MultiBitVector", before, steps / 4, [&](long) { for (int q = 0; q < 9; q++) set2(v, {r.below(n), r.below(4)}); v.build(); }); break; }
    case 1: { MultipleVector v({1, 4, 8}); churn(ctx, "MultipleVector", before, steps, [&](long) { switch (r.below(3)) { case 0: if (v.size() < 2 * n) v.push_back({1, 2, 3}); break; case 1: v.resize(r.below(2 * n)); break; default: if (r.chance(1, 20)) v.set_element_sizes(std::vector<size_t>{1, 4, 8}); } }); break; }
    default: { WaveletTree v(std::vector<u8>(n, 1)); churn(ctx, "WaveletTree", before, steps / 20, [&](long) { std::vector<u8> t(n); for (auto& x : t) x = r.below(16); v = WaveletTree(t); }); break; }
  }
#elif PART == 3
  { std::string t(n, 'a'); std::ostringstream sink; churn(ctx, "built again", before, steps / 40, [&](long) { for (auto& c : t) c = 'a' + r.below(3); SuffixArray s(t); std::vector<std::string> k = {"ab", t.substr(0, 5), "zz"}; std::sort(k.begin(), k.end()); k.erase(std::unique(k.begin(), k.end()), k.end()); Samc<int> x(k.begin(), k.end()); SamcDict<int> y(k.begin(), k.end()); }); }
#elif PART == 4
  switch (ctx.index % 6) {
    case 0: { MinHeap h; churn(ctx, "Heap", before, steps, [&](long) { if (h.size() < n) h.push(r.next()); else for (size_t q = r.below(n); q--;) h.pop(); }); break; }
    case 1: { InitializableArrayFolklore a(n, 3); churn(ctx, "InitializableArrayFolklore", before, steps, [&](long) { if (r.chance(1, 30)) a.init(r.next()); else set2(a, {r.below(n), r.next()}); }); break; }
    case 2: { CHT<16> t(16); churn(ctx, "CHT", before, steps, [&](long i) { t.set((i * 7919) & 0xFFFF, 1); if (i >= long(n)) t.erase(((i - long(n)) * 7919) & 0xFFFF); (void)t.get(r.below(65536)); }); break; }
    case 3: { CHT<0> t(20); t.set_value_width(9); churn(ctx, "CHT, one key", before, steps, [&](long) { t.set(5, 1); t.erase(5); t.erase(6); }); break; }
    case 4: { CDRWArray a(n); churn(ctx, "CDRWArray", before, steps / 2, [&](long) { set2(a, {r.below(n), r.value(64)}); }); break; }
    default: { CDRWVector v; churn(ctx, "CDRWVector", before, steps / 20, [&](long) { switch (r.below(4)) { case 0: v.push_back(r.value(64)); break; case 1: v.pop_back(); break; case 2: v.resize(r.below(n)); break; default: if (r.coin()) v.shrink_to_fit(); else v.clear(); } if (v.size() > n) v.resize(n); }); }
  }
#else
  switch (ctx.index % 3) {
    case 0: { graph_util::Trie<std::string> t; churn(ctx, "Trie", before, steps, [&](long) { t.insert(show(r.below(n)), std::string(30, 'x')); t.traverse(show(r.below(n))); }); break; }
    case 1: { std::string t(n, 'a'); churn(ctx, "matchers", before, steps / 10, [&](long) { for (auto& c : t) c = 'a' + r.below(2); auto k = std::string_view(t).substr(r.below(n - 10), 1 + r.below(8)); (void)pattern_matching::PatternMatchBOM(t, k); (void)pattern_matching::PatternMatchTurboBOM(t, k); (void)pattern_matching::PatternMatchKMP(t, k); (void)pattern_matching::PatternMatchBM(t, k); (void)pattern_matching::PatternMatchSundayQS(t, k); (void)pattern_matching::PatternMatchSundayMS(t, k); }); break; }
    default: { FactorOracle o(std::string("abc")); churn(ctx, "FactorOracle", before, steps / 10, [&](long) { std::string t(n, 'a'); for (auto& c : t) c = 'a' + r.below(3); o = FactorOracle(t); }); }
  }
#endif
}
// ---- what a copy takes is what is reported
#if PART <= 3
template <class T> static void honest(Ctx& ctx, const char* name, const T& t, double slack) {
  for (int q = 0; q < 2; q++) {
    Held h;
    std::unique_ptr<T> c;
    if (q == 0) c = std::make_unique<T>(t);
    else { c = std::make_unique<T>(t); auto d = std::make_unique<T>(*c); c = std::move(d); }
    Held g;
    double took = g.bytes - h.bytes, said = t.size_in_bytes();
    if (std::getenv("MEM_SHOW")) fprintf(stderr, "%s took %g said %g\n", name, took, said);
    if (took > said * 1.05 + slack) fail(std::string("mem.reported:") + name, std::string(name) + ": a copy holds " + show(size_t(took)) + " bytes, " + show(size_t(said)) + " are reported");
    ctx.event("me.copies_weighed");
  }
}
// ---- what is built or read holds at most about twice (the growth of vectors) what its copy does
template <class F> static void lean(Ctx& ctx, const char* name, double slack, F&& build) {
  Held h;
  auto t = build();   // a unique_ptr to it
  Held g;
  typedef std::decay_t<decltype(*t)> T;
  std::unique_ptr<T> c = std::make_unique<T>(*t);
  Held i;
  double took = g.bytes - h.bytes, copy = i.bytes - g.bytes;
  if (std::getenv("MEM_SHOW")) fprintf(stderr, "LEAN %s took %g copy %g\n", name, took, copy);
  if (took > copy * 2.2 + slack) fail(std::string("mem.built:") + name, std::string(name) + " holds " + show(size_t(took)) + " bytes when built, its copy " + show(size_t(copy)));
  ctx.event("me.built_weighed");
}
SCENARIO(me_built, 40) {
  Rng& r = ctx.rng;
  size_t n = r.below(ctx.sanitized ? 20000 : 200000);
  ctx.in(n); ctx.nontrivial(n > 1000);
  ctx.describe(show(n) + " elements");
  auto mk = [](auto&& x) { return std::make_unique<std::decay_t<decltype(x)>>(std::move(x)); };
  auto again = [&](auto& x, auto fresh) { std::stringstream st; x.Write(st); auto y = mk(std::move(fresh)); y->Read(st); return y; };
#if PART == 1
  auto bits = gen::bits(r, n);
  lean(ctx, "BitVector", 512, [&] { return mk(BitVector(bits)); });
  lean(ctx, "BitVector appended", 512, [&] { auto b = mk(BitVector()); for (bool x : bits) b->push_back(x); return b; });
  BitVector b(bits);
  lean(ctx, "SuccinctBitVector<false>", 512, [&] { return mk(SuccinctBitVector<false>(b)); });
  lean(ctx, "SuccinctBitVector<true>", 512, [&] { return mk(SuccinctBitVector<true>(b)); });
  { SuccinctBitVector<true> t(b); lean(ctx, "SuccinctBitVector<true> read", 512, [&] { return again(t, SuccinctBitVector<true>()); }); }
  auto l = gen::ints(r, n / 8, 64);
  lean(ctx, "FitVector", 512, [&] { return mk(FitVector(l)); });
  lean(ctx, "FitVector sized", 512, [&] { return mk(FitVector(13, l.size(), 5)); });
  lean(ctx, "DacVector", 64 * 400, [&] { return mk(DacVector(l)); });
  // lists whose upper layers few elements reach
  for (auto& x : l) if (!r.chance(1, 50)) x &= 15;
  lean(ctx, "DacVector", 64 * 400, [&] { return mk(DacVector(l)); });
  std::vector<size_t> u; for (size_t w = 64; w;) { size_t k = 1 + r.below(std::min<size_t>(w, 24)); u.push_back(k); w -= k; }
  lean(ctx, "DacVector by a list", 64 * 400, [&] { return mk(DacVector(l, u)); });
  { DacVector d(l, u); lean(ctx, "DacVector read", 64 * 400, [&] { return again(d, DacVector()); }); }
#elif PART == 2
  lean(ctx, "MultipleVector", 512, [&] { auto v = mk(MultipleVector({1, 3, 8})); for (size_t q = n / 8; q--;) v->push_back({1, 2, 3}); return v; });
  std::vector<u8> s(n / 4 + 1); u64 k = 1 + r.below(255); for (auto& x : s) x = r.chance(1, 9) ? r.below(k) : 0;
  lean(ctx, "WaveletTree", 256 * 400, [&] { return mk(WaveletTree(s)); });
  { WaveletTree w(s); lean(ctx, "WaveletTree read", 256 * 400, [&] { return again(w, WaveletTree(std::vector<u8>{1})); }); }
  lean(ctx, "MultiBitVector", 512, [&] { auto x = mk(MultiBitVector<2>()); for (size_t i = 0; i < n / 8; i++) x->set(i, r.below(4)); x->build(); return x; });
  lean(ctx, "MultiBitVector", 512, [&] { auto x = mk(MultiBitVector<3>()); for (size_t i = 0; i < n / 8; i++) x->set(i, r.below(8)); x->build(); return x; });
#else
  n = r.below(300);
  std::set<std::string> s; while (n--) { std::string k; for (size_t q = r.below(30); q--;) k += char('a' + r.below(4)); s.insert(k); }
  std::vector<std::string> k(s.begin(), s.end());
  lean(ctx, "Samc", 2048, [&] { return mk(Samc<int>(k.begin(), k.end())); });
  lean(ctx, "SamcDict", 2048, [&] { return mk(SamcDict<int>(k.begin(), k.end())); });
  { SamcDict<int> d(k.begin(), k.end()); lean(ctx, "SamcDict read", 2048, [&] { return again(d, SamcDict<int>()); }); }
  lean(ctx, "Trie", 2048, [&] { auto t = mk(graph_util::Trie<u64>()); for (auto& x : k) t->insert(x, 7); return t; });
  std::string text(r.below(20000), 'a'); for (auto& c : text) c = 'a' + r.below(1 + n % 26);
  lean(ctx, "SuffixArray", 1024, [&] { return mk(SuffixArray(text)); });
  lean(ctx, "FactorOracle", 4096, [&] { return mk(FactorOracle(text.begin(), text.end())); });
#endif
}
SCENARIO(me_reported, 60) {
  Rng& r = ctx.rng;
  size_t n = r.below(ctx.sanitized ? 20000 : 200000);
  ctx.in(n); ctx.nontrivial(n > 1000);
  ctx.describe(show(n) + " elements");
  size_t m = r.coin() ? n : r.below(n + 1);   // through a larger size
#if PART == 1
  BitVector b(gen::bits(r, n));
  b.resize(m);
  honest(ctx, "BitVector", b, 512);
  SuccinctBitVector<false> f(b); honest(ctx, "SuccinctBitVector<false>", f, 512);
  SuccinctBitVector<true> t(b); honest(ctx, "SuccinctBitVector<true>", t, 512);
  auto l = gen::ints(r, n / 8, 64);
  FitVector v(l); v.resize(m / 8); honest(ctx, "FitVector", v, 512);
  l.resize(m / 8);
  DacVector d(l); honest(ctx, "DacVector", d, 64 * 400);
#elif PART == 2
  MultipleVector v({1, 3, 8}); v.resize(n / 8); for (size_t q = r.below(1000); q--;) v.push_back({1, 2, 3}); v.resize(m / 8); honest(ctx, "MultipleVector", v, 512);
  std::vector<u8> s(n / 4 + 1); u64 k = 1 + r.below(255); for (auto& x : s) x = r.below(k);
  WaveletTree w(s); honest(ctx, "WaveletTree", w, 256 * 400);
  MultiBitVector<2> x; for (size_t i = 0; i < n / 8; i++) x.set(i, r.below(4)); x.build(); honest(ctx, "MultiBitVector", x, 512);
#else
  n = r.below(300);
  std::set<std::string> s; while (n--) { std::string k; for (size_t q = r.below(30); q--;) k += char('a' + r.below(4)); s.insert(k); }
  std::vector<std::string> k(s.begin(), s.end());
  Samc<int> a(k.begin(), k.end()); honest(ctx, "Samc", a, 512);
  SamcDict<int> b(k.begin(), k.end()); honest(ctx, "SamcDict", b, 1024);
#endif
}
#endif
#include "main.inc"
