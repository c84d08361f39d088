// Programs of many translation units: objects built in one unit are asked, changed, copied, written and
// destroyed in others.  "linked": all units in one executable.  "loaded": every unit is a shared object that
// keeps its own copy of the library's code, so units that disagree about a type or an answer are seen.
#include "mon.hpp"
#include "tu/tu.hpp"
#include <dlfcn.h>
using namespace mon;

extern "C" int tu_linked(TuUnit** out) __attribute__((weak));

namespace {
const std::vector<TuUnit>& linked() {
  static std::vector<TuUnit> v = [] { std::vector<TuUnit> r; TuUnit* u = nullptr; int n = tu_linked ? tu_linked(&u) : 0; for (int i = 0; i < n; i++) r.push_back(u[i]); return r; }();
  return v;
}
std::string libdir() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n < 0 ? 0 : n] = 0; return std::string(b) + ".units"; }
const std::vector<TuUnit>& loaded() {
  static std::vector<TuUnit> v = [] {
    std::vector<TuUnit> r;
    std::ifstream f(libdir() + "/list");
    for (std::string name; f >> name;) {
      void* h = dlopen((libdir() + "/" + name + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
      if (!h) throw Violation("load", std::string("unit does not load: ") + dlerror());
      auto fn = reinterpret_cast<TuUnit (*)()>(dlsym(h, name.c_str()));
      if (!fn) throw Violation("load", "unit without entry " + name);
      r.push_back(fn());
    }
    return r;
  }();
  return v;
}
struct Offer { const TuUnit* u; const TuKind* k; };
std::map<std::string, std::vector<Offer>> by_kind(const std::vector<TuUnit>& us) {
  std::map<std::string, std::vector<Offer>> m;
  for (auto& u : us) for (int i = 0; i < u.n; i++) m[u.kinds[i].name].push_back({&u, &u.kinds[i]});
  return m;
}
void exchange(Ctx& ctx, const std::vector<TuUnit>& us, const char* mode) {
  static std::map<std::string, std::map<std::string, std::vector<Offer>>> cache;
  auto& all = cache[mode];
  if (all.empty()) all = by_kind(us);
  if (all.empty()) throw Violation("none", "no unit could be built");
  Rng& r = ctx.rng;
  // every kind in turn, units at random
  size_t at = ctx.index % all.size();
  auto it = std::next(all.begin(), at);
  auto& off = it->second;
  std::string nm = it->first;
  if (off.size() < 2) { ctx.event("tu.kind_in_one_unit"); return; }
  auto& A = off[r.below(off.size())];
  u64 seed = r.next();
  ctx.in(nm); ctx.in(seed); ctx.nontrivial();
  auto bad = [&](const char* what, const Offer& b) {
    throw Violation(std::string("differs:") + what, std::string(mode) + ": " + nm + " " + what + ": unit [" + A.u->what + "] and unit [" + b.u->what + "] disagree (object seed " + std::to_string(seed) + ")");
  };
  void* base = A.k->build(seed);
  u64 q = r.next(), ans = A.k->ask(base, q);
  std::string bytes = A.k->bytes(base);
  ctx.describe(nm + " built in [" + A.u->what + "], asked in others");
  for (int turn = 0; turn < 4; turn++) {
    auto& B = off[r.below(off.size())];
    ctx.in(hash_str(B.u->what));
    if (B.k->size != A.k->size) bad("size", B);
    if (B.k->ask(base, q) != ans) bad("answers about the same object", B);
    void* own = B.k->build(seed);
    if (B.k->ask(own, q) != ans) bad("answers", B);
    if (B.k->bytes(base) != bytes || B.k->bytes(own) != bytes) bad("bytes", B);
    void* cp = B.k->copy(base);                       // copied there, asked here
    if (A.k->ask(cp, q) != ans) bad("copy", B);
    ctx.event("tu.objects_exchanged", 3);
    auto& C = off[r.below(off.size())];
    if (A.k->change) {
      u64 cs = r.next();
      B.k->change(cp, cs); A.k->change(own, cs);
      u64 x = C.k->ask(cp, q);
      if (C.k->ask(own, q) != x || A.k->ask(cp, q) != x) bad("changed object", B);
      if (B.k->bytes(cp) != A.k->bytes(own)) bad("bytes of changed object", B);
      C.k->change(cp, cs ^ 1); B.k->change(own, cs ^ 1);
      if (A.k->ask(cp, q) != A.k->ask(own, q)) bad("object changed in three units", B);
      ctx.event("tu.changed_across_units", 2);
    }
    if (A.k->read && !bytes.empty()) {
      void* rd = B.k->read(bytes);
      if (C.k->ask(rd, q) != ans) bad("object read", B);
      C.k->drop(rd);
      ctx.event("tu.read_across_units");
    }
    C.k->assign(own, base);
    if (B.k->ask(own, q) != ans) bad("assigned object", B);
    C.k->drop(own); A.k->drop(cp);
    if (A.k->ask(base, q) != ans) bad("object after the others were used", B);
    ctx.event("tu.answers_compared", 8);
  }
  off[r.below(off.size())].k->drop(base);
}
}  // namespace

SCENARIO(linked_exchange, 3000) { if (linked().empty()) throw Violation("none", "no linked program"); exchange(ctx, linked(), "linked"); ctx.event("tu.linked_cases"); }
SCENARIO(loaded_exchange, 4000) { exchange(ctx, loaded(), "loaded"); ctx.event("tu.loaded_cases"); }
#include "main.inc"
