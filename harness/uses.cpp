// C25: every structure through its whole life; allocations balance, and (under memcheck) no decision or output
// depends on an uninitialised value.
#if PART == 1
#define ZOO_GROUPS 1
#elif PART == 2
#define ZOO_GROUPS 2
#elif PART == 3
#define ZOO_GROUPS 4
#else
#define ZOO_GROUPS 24
#endif
#ifdef MEMCHECK
#define ZOO_NO_LAZY   // the lazily initialised arrays read memory nobody wrote, by design: decided under C11
#endif
#include "zoo.hpp"

static std::atomic<long> live{0};
static std::atomic<uint64_t> allocations{0};
#ifndef MEMCHECK   // every allocation of the process, aligned ones included
extern "C" {
void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); void __libc_free(void*);
static void* got(void* p) { if (p) { live++; allocations++; } return p; }
void* malloc(size_t n) { return got(__libc_malloc(n)); }
void* calloc(size_t n, size_t m) { return got(__libc_calloc(n, m)); }
void* realloc(void* p, size_t n) { if (!p) return malloc(n); return __libc_realloc(p, n); }
void* memalign(size_t a, size_t n) { return got(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return got(__libc_memalign(a, n)); }
int posix_memalign(void** p, size_t a, size_t n) { *p = got(__libc_memalign(a, n)); return *p ? 0 : 12; }
void free(void* p) { if (p) live--; __libc_free(p); }
}
#endif

using namespace zoo;
static u64 look(const Animal& a) {
  u64 h = 0;
  for (u64 x : a.answers()) { h = gen::digest(h, x); if (x & 1) h++; }   // decides on every answer
  if (a.io()) for (unsigned char c : a.bytes()) { if (c & 1) h += 3; if (c > 99) h ^= c; }
  return h;
}
static u64 life(const Species& s, u64 seed, size_t max) {
  Rng r(seed);
  auto a = s.make(r.next(), max);
  u64 h = look(*a);
  for (int q = 0; q < 4; q++) {
    switch (r.below(6)) {
      case 0: { auto b = a->copy(); h ^= look(*b); b->change(r.next()); h ^= look(*b); break; }
      case 1: { auto b = s.make(r.next(), max / 2 + 1); b->assign(*a); h ^= look(*b); break; }
      case 2: { auto b = a->steal(); a = std::move(b); h ^= look(*a); break; }
      case 3: a->change(r.next()); h ^= look(*a); break;
      case 4: { auto b = s.make(r.next(), max); b->swap_with(*a); h ^= look(*b); break; }
      default: if (a->io()) { std::istringstream is(a->bytes()); auto b = a->fresh(is); h ^= look(*b); auto c = s.make(r.next(), 40); std::istringstream is2(a->bytes()); c->read(is2, *a); h ^= look(*c); }
    }
  }
  h ^= look(*a);
  return h;
}
SCENARIO(use_balance, 200) {
  Rng& r = ctx.rng;
  auto& s = species()[ctx.index % species().size()];
  u64 seed = r.next();
  size_t max = r.pick<size_t>({60, 300, 300, 2000});
#ifdef MEMCHECK
  max = r.pick<size_t>({60, 150, 300});
#endif
  u64 h = life(s, seed, max);       // also lets one-time initialisations happen
#ifndef MEMCHECK
  long before = live;
  u64 h2 = life(s, seed, max);
  long after = live;
  EQX("leak", after - before, 0l, std::string("allocations left by ") + s.name);
  EQX("leak.repeat", h2, h, std::string("a second identical life of ") + s.name);
  ctx.event("use.balanced_lives");
  ctx.event("use.allocations", allocations); allocations = 0;
#else
  ctx.event("use.memchecked_lives");
#endif
  volatile u64 sink = h;
  (void)sink;
  ctx.in(s.name); ctx.in(seed);
  ctx.nontrivial();
  ctx.describe(std::string(s.name) + " of seed " + show(seed));
}
#include "main.inc"
