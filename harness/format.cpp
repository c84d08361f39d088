// C33: streams are exchanged with the library as it was when the properties were written (harness/frozen).
#define ZOO_GROUPS 7
#define ZOO_NO_SIZES
#include "zoo.hpp"
#include "frozen.hpp"
using namespace zoo;

static std::unique_ptr<Animal> build(const FrozenObject& o) {
  auto a = species()[o.species].make(o.seed, o.max);
  for (u64 c : o.changes) a->change(c);
  return a;
}
static FrozenObject object(Ctx& ctx, size_t s) {
  Rng& r = ctx.rng;
  FrozenObject o{s, r.next(), r.pick<size_t>({10, 70, 300, 300, 1500, 8000}), {}};
  for (u64 q = r.below(3); q--;) o.changes.push_back(r.next());
  ctx.in(s); ctx.in(o.seed); ctx.in(o.max); ctx.in(o.changes.size());
  return o;
}
static std::unique_ptr<Animal> read(const FrozenObject& o, std::istream& is, bool used) {
  auto a = build(o);
  if (!used) return a->fresh(is);
  auto b = species()[o.species].make(o.seed + 1, 200);
  b->read(is, *a);
  return b;
}
static V later(Rng& r) { V v; for (u64 q = r.below(3); q--;) v.push_back(r.next()); return v; }
static const Species& sort_of(Ctx& ctx, size_t* s) {
  auto& z = species();
  if (z.size() != frozen_count()) abort();
  *s = ctx.index % z.size();
  if (std::string(z[*s].name) != frozen_name(*s)) abort();
  return z[*s];
}
static void at_end(const char* key, const char* name, std::istream& is, size_t n, const std::string& what) {
  if (size_t(is.tellg()) != n) fail(std::string(key) + ":" + name, std::string(name) + " " + what + ": reading stops at byte " + show(size_t(is.tellg())) + " of " + show(n));
}
SCENARIO(fo_from_old, 700) {   // written by the frozen version, read by this one
  Rng& r = ctx.rng;
  size_t s;
  auto& z = sort_of(ctx, &s);
  auto o = object(ctx, s);
  std::stringstream io;
  frozen_write(o, io);
  size_t n = io.str().size();
  bool used = r.coin();
  auto x = read(o, io, used);
  at_end("format.old_end", z.name, io, n, "written by the pinned version");
  same("format.old", *x, frozen_answers(o, {}), "written by the pinned version and read");
  V l = later(r);
  if (x->changes() && !l.empty()) {
    for (u64 c : l) x->change(c);
    same("format.old_changed", *x, frozen_answers(o, l), "written by the pinned version, read and changed");
    ctx.event("fo.changed");
  }
  ctx.event("fo.old_streams"); ctx.event("fo.bytes", n);
  ctx.nontrivial(n > 60);
  ctx.describe(std::string(z.name) + ", " + show(n) + " bytes");
}
SCENARIO(fo_to_old, 700) {   // written by this version, read by the frozen one
  Rng& r = ctx.rng;
  size_t s;
  auto& z = sort_of(ctx, &s);
  auto o = object(ctx, s);
  auto a = build(o);
  std::stringstream io;
  a->write(io);
  size_t n = io.str().size();
  V exp = a->answers(), l = later(r);
  bool used = r.coin();
  V got = frozen_read(o, io, used, {});
  at_end("format.new_end", z.name, io, n, "written, and read by the pinned version");
  if (got != exp) fail(std::string("format.new:") + z.name, std::string(z.name) + " written, and read by the pinned version: " + diff(got, exp));
  if (a->changes() && !l.empty()) {
    std::istringstream again(io.str());
    got = frozen_read(o, again, used, l);
    for (u64 c : l) a->change(c);
    exp = a->answers();
    if (got != exp) fail(std::string("format.new_changed:") + z.name, std::string(z.name) + " written, read by the pinned version and changed: " + diff(got, exp));
    ctx.event("fo.changed");
  }
  ctx.event("fo.new_streams"); ctx.event("fo.bytes", n);
  ctx.nontrivial(n > 60);
  ctx.describe(std::string(z.name) + ", " + show(n) + " bytes");
}
SCENARIO(fo_files, 120) {   // several objects of several kinds behind each other, the two versions taking turns
  Rng& r = ctx.rng;
  std::vector<FrozenObject> os;
  for (u64 q = 2 + r.below(5); q--;) { os.push_back(object(ctx, r.below(species().size()))); os.back().max = std::min<size_t>(os.back().max, 300); }
  std::stringstream io;
  for (auto& o : os) if (r.coin()) frozen_write(o, io); else build(o)->write(io);
  size_t n = io.str().size();
  for (auto& o : os) {
    V exp = frozen_answers(o, {}), got;
    std::string who;
    if (r.coin()) { got = frozen_read(o, io, r.coin(), {}); who = "the pinned version"; } else { got = read(o, io, r.coin())->answers(); who = "this version"; }
    if (got != exp) fail(std::string("format.file:") + frozen_name(o.species), std::string(frozen_name(o.species)) + " in a file of " + show(os.size()) + " objects, read by " + who + ": " + diff(got, exp));
  }
  at_end("format.file_end", "file", io, n, "of " + show(os.size()) + " objects");
  ctx.event("fo.files");
  ctx.nontrivial();
  ctx.describe(show(os.size()) + " objects, " + show(n) + " bytes");
}
SCENARIO(fo_large, 8) {   // sizes for which narrow fields of a format do not suffice
  Rng& r = ctx.rng;
  size_t s;
  auto& z = sort_of(ctx, &s);
  FrozenObject o{s, r.next(), size_t(70000 + r.below(400000)), {}};
  std::stringstream io;
  auto a = build(o);
  V exp = a->answers();
  bool old = r.coin();
  if (old) frozen_write(o, io); else a->write(io);
  size_t n = io.str().size();
  V got = old ? read(o, io, r.coin())->answers() : frozen_read(o, io, r.coin(), {});
  at_end("format.large_end", z.name, io, n, old ? "written by the pinned version" : "written, and read by the pinned version");
  if (got != exp) fail(std::string("format.large:") + z.name, std::string(z.name) + (old ? " written by the pinned version: " : " written, and read by the pinned version: ") + diff(got, exp));
  ctx.in(o.seed); ctx.in(s);
  ctx.event("fo.large"); ctx.event("fo.bytes", n);
  ctx.nontrivial(n > 5000);
  ctx.describe(std::string(z.name) + ", " + show(n) + " bytes");
}
#include "main.inc"
