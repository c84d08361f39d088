// The library as frozen under harness/frozen (compiled with -Dsim_ds=frozen_ds -Dzoo=frozen_zoo), behind plain functions: for C33.
#define ZOO_GROUPS 7
#define ZOO_NO_SIZES
#include "zoo.hpp"
#include "frozen.hpp"
using namespace frozen_zoo;
size_t frozen_count() { return species().size(); }
const char* frozen_name(size_t s) { return species()[s].name; }
static std::unique_ptr<Animal> build(const FrozenObject& o) {
  auto a = species()[o.species].make(o.seed, o.max);
  for (u64 c : o.changes) a->change(c);
  return a;
}
void frozen_write(const FrozenObject& o, std::ostream& os) { build(o)->write(os); }
std::vector<u64> frozen_answers(const FrozenObject& o, const std::vector<u64>& later) {
  auto a = build(o);
  for (u64 c : later) a->change(c);
  return a->answers();
}
std::vector<u64> frozen_read(const FrozenObject& like, std::istream& is, bool used, const std::vector<u64>& later) {
  auto a = build(like);
  std::unique_ptr<Animal> b;
  if (used) { b = species()[like.species].make(like.seed + 1, 200); b->read(is, *a); }
  else b = a->fresh(is);
  for (u64 c : later) b->change(c);
  return b->answers();
}
