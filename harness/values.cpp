// C31: copies, moves, assignments and swaps of every structure.
#if PART == 1
#define ZOO_GROUPS 1
#elif PART == 2
#define ZOO_GROUPS 2
#elif PART == 3
#define ZOO_GROUPS 4
#elif PART == 4
#define ZOO_GROUPS 8
#elif PART == 5
#define ZOO_GROUPS 16
#endif
#include "zoo.hpp"
using namespace zoo;

static const Species& pick(Ctx& ctx) { auto& s = species(); auto& x = s[ctx.index % s.size()]; ctx.in(x.name); return x; }
static size_t max_size(Rng& r) { return r.pick<size_t>({10, 200, 600, 2000, 2000, 6000}); }
using A = std::unique_ptr<Animal>;
static A grown(const Species& s, Rng& r) { auto a = s.make(r.next(), max_size(r)); while (r.chance(1, 3)) a->change(r.next()); return a; }
static void dirty(Rng& r) { for (int z = 0; z < 20; z++) { size_t n = 16ull << r.below(8); auto p = std::make_unique<char[]>(n); memset(p.get(), int(r.below(256)), n); asm volatile("" : : "r"(p.get()) : "memory"); } }
static void bytes_same(const char* key, const Animal& x, const std::string& b) { if (x.io() && x.bytes() != b) fail(std::string(key) + ":" + x.name(), std::string(x.name()) + " writes other bytes than its source"); }

SCENARIO(vs_copy, 2400) {
  Rng& r = ctx.rng;
  auto& s = pick(ctx);
  auto a = grown(s, r);
  V e = a->answers();
  std::string b = a->io() ? a->bytes() : "";
  A c;
  bool self = false;
  switch (r.below(4)) {
    case 0: c = a->copy(); break;
    case 1: c = grown(s, r); c->assign(*a); break;              // onto an object holding something else
    case 2: { A t = a->copy(); c = t->copy(); break; }          // a copy of a copy whose original is gone
    default: a->assign_self(); self = true; same("vs.self_assigned", *a, e, "assigned to itself"); c = a->copy();
  }
  (void)self;
  same("vs.copy", *c, e, "copied");
  bytes_same("vs.copy_bytes", *c, b);
  same("vs.source_after_copy", *a, e, "after having been copied");
  u64 seed = r.next();
  if (a->changes() && r.chance(3, 4)) {
    // one changes, the other does not
    Animal &x = r.coin() ? *a : *c, &y = &x == &*a ? *c : *a;
    x.change(seed);
    same("vs.independent", y, e, &y == &*a ? "after its copy changed" : "after its source changed");
    bytes_same("vs.independent_bytes", y, b);
    V e2 = x.answers();
    y.change(seed);
    same("vs.same_change", y, e2, "after the change its twin went through");
    same("vs.changed_twin", x, e2, "after the same change of its twin");
    e = y.answers();
    ctx.event("vs.changed_twins");
  }
  // the source goes away, its memory is used again
  V ec = c->answers();
  a.reset();
  dirty(r);
  auto other = grown(s, r);
  same("vs.outlives", *c, ec, "after its source was destroyed");
  A d = c->copy();
  c.reset();
  dirty(r);
  same("vs.outlives", *d, ec, "after its source was destroyed");
  ctx.event("vs.copies", 2);
  ctx.event("vs.answers", e.size());
  for (u64 x : e) ctx.in(x);
  ctx.nontrivial(e.size() > 20);
  ctx.describe(std::string(s.name) + ", " + show(e.size()) + " answers");
}
SCENARIO(vs_move, 1800) {
  Rng& r = ctx.rng;
  auto& s = pick(ctx);
  auto a = grown(s, r);
  V e = a->answers();
  std::string b = a->io() ? a->bytes() : "";
  A c;
  switch (r.below(3)) {
    case 0: c = a->steal(); break;
    case 1: c = grown(s, r); c->take(*a); break;
    default: { c = a->steal(); A t = c->steal(); c->take(*t); break; }   // back into a moved-from object
  }
  same("vs.move", *c, e, "moved");
  bytes_same("vs.move_bytes", *c, b);
  // what was moved from can be given something again
  auto o = grown(s, r);
  V eo = o->answers();
  u64 seed = r.next();
  switch (r.below(3)) {
    case 0: a->assign(*o); same("vs.refilled", *a, eo, "moved from, then assigned"); break;
    case 1: { A t = o->copy(); a->take(*t); same("vs.refilled", *a, eo, "moved from, then moved into"); break; }
    default: a.reset();
  }
  same("vs.move_later", *c, e, "after its moved-from source was used again");
  if (a && c->changes()) {
    a->change(seed); o->change(seed);
    same("vs.refilled_changes", *a, o->answers(), "moved from, assigned, then changed");
    same("vs.move_later", *c, e, "after its moved-from source was changed");
  }
  if (c->changes()) {
    auto twin = s.make(1, 50);
    twin->assign(*c);
    c->change(seed); twin->change(seed);
    same("vs.moved_changes", *c, twin->answers(), "moved, then changed");
  }
  ctx.event("vs.moves");
  ctx.event("vs.answers", e.size());
  for (u64 x : e) ctx.in(x);
  ctx.nontrivial(e.size() > 20);
  ctx.describe(std::string(s.name) + ", " + show(e.size()) + " answers");
}
SCENARIO(vs_swap, 900) {
  Rng& r = ctx.rng;
  auto& s = pick(ctx);
  auto a = grown(s, r), c = grown(s, r);
  V ea = a->answers(), ec = c->answers();
  a->swap_with(*c);
  same("vs.swap", *a, ec, "swapped");
  same("vs.swap", *c, ea, "swapped");
  if (a->changes()) { a->change(r.next()); same("vs.swap_independent", *c, ea, "after the object it was swapped with changed"); a = c->copy(); a->change(r.next()); }
  a->swap_with(*c);
  same("vs.swap_back", *a, ea, "swapped back");
  ctx.event("vs.swaps");
  for (u64 x : ea) ctx.in(x);
  for (u64 x : ec) ctx.in(x);
  ctx.nontrivial(ea.size() > 20 && ea != ec);
  ctx.describe(std::string(s.name));
}
SCENARIO(vs_herd, 300) {   // a random walk over several objects of one kind, each watched against a model of what it should answer
  Rng& r = ctx.rng;
  auto& s = pick(ctx);
  struct M { A a; V e; bool empty; };
  std::vector<M> h;
  for (int k = 0; k < 3; k++) { auto a = s.make(r.next(), 300); V e = a->answers(); h.push_back({std::move(a), e, false}); }
  std::string log;
  for (int q = 0; q < 24; q++) {
    size_t i = r.below(h.size()), j = r.below(h.size());
    log += " " + show(i) + "," + show(j);
    switch (r.below(6)) {
      case 0: if (!h[j].empty) { if (i != j) h[i].a->assign(*h[j].a); else h[i].a->assign_self(); h[i].e = h[j].e; h[i].empty = false; log += "="; } break;
      case 1: if (!h[j].empty && i != j) { h[i].a->take(*h[j].a); h[i].e = h[j].e; h[i].empty = false; h[j].empty = true; log += "<-"; } break;
      case 2: if (i != j) { h[i].a->swap_with(*h[j].a); std::swap(h[i].e, h[j].e); std::swap(h[i].empty, h[j].empty); log += "<>"; } break;
      case 3: if (!h[i].empty) { h[i].a->change(r.next()); h[i].e = h[i].a->answers(); log += "!"; } break;
      case 4: if (!h[j].empty) { h[i].a = h[j].a->copy(); h[i].e = h[j].e; h[i].empty = false; log += "copy"; } break;
      default: h[i].a = s.make(r.next(), 300); h[i].e = h[i].a->answers(); h[i].empty = false; log += "new";
    }
    for (size_t k = 0; k < h.size(); k++) if (!h[k].empty) same("vs.herd", *h[k].a, h[k].e, "object " + show(k) + " of three after" + log);
    ctx.event("vs.herd_steps");
  }
  ctx.in(log);
  ctx.nontrivial();
  ctx.describe(std::string(s.name) + log);
}
#include "main.inc"
