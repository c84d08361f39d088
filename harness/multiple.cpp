// C07: MultipleVector (records of byte-wide fields) against a table of values.
#include "mon.hpp"
#include "gen.hpp"
#include "sim_ds/MultipleVector.hpp"
using namespace mon;
using sim_ds::MultipleVector;
using Row = std::vector<u64>;

static u64 trunc(u64 v, size_t bytes) { return bytes >= 8 ? v : v & ((1ull << (8 * bytes)) - 1); }

template <int Id> static u64 get_static(const MultipleVector& c, MultipleVector& m, size_t i, int how) {
  switch (how) {
    case 0: return m.block(i).get<Id>();
    case 1: return c.block(i).get<Id>();
    default: return c.nested_element<Id>(i);
  }
}
static u64 get_id(const MultipleVector& c, MultipleVector& m, size_t i, size_t id, int how) {
  switch (id) {
    case 0: return get_static<0>(c, m, i, how);
    case 1: return get_static<1>(c, m, i, how);
    case 2: return get_static<2>(c, m, i, how);
    case 3: return get_static<3>(c, m, i, how);
    case 4: return get_static<4>(c, m, i, how);
    default: return get_static<5>(c, m, i, how);
  }
}
template <int Id> static void set_static(MultipleVector& m, size_t i, u64 v, size_t width, int how) {
  if (how == 0 || width == 0) m.block(i).set<Id>(v);
  else if (how == 2 && width <= 1) m.block(i).restricted_set<Id, uint8_t>((uint8_t)v);
  else if (how == 2 && width <= 2) m.block(i).restricted_set<Id, uint16_t>((uint16_t)v);
  else if (how == 2 && width <= 4) m.block(i).restricted_set<Id, uint32_t>((uint32_t)v);
  else if (how == 2) m.block(i).restricted_set<Id, uint64_t>(v);
  else m.set_nested_element<Id>(i, trunc(v, width)); // documented: the value fits the field
}
static void set_id(MultipleVector& m, size_t i, size_t id, u64 v, size_t width, int how) {
  switch (id) {
    case 0: set_static<0>(m, i, v, width, how); break;
    case 1: set_static<1>(m, i, v, width, how); break;
    case 2: set_static<2>(m, i, v, width, how); break;
    case 3: set_static<3>(m, i, v, width, how); break;
    case 4: set_static<4>(m, i, v, width, how); break;
    default: set_static<5>(m, i, v, width, how);
  }
}

template <class T> static void restricted(Ctx& ctx, MultipleVector& m, size_t id, size_t i, u64 e) {
  const MultipleVector& c = m;
  u64 x = trunc(e, sizeof(T)), a, b;
  switch (id) {
    case 0: a = m.block(i).restricted_get<0, T>(); b = c.block(i).restricted_get<0, T>(); break;
    case 1: a = m.block(i).restricted_get<1, T>(); b = c.block(i).restricted_get<1, T>(); break;
    case 2: a = m.block(i).restricted_get<2, T>(); b = c.block(i).restricted_get<2, T>(); break;
    default: return;
  }
  EQX("mv.restricted_get", a, x, "field " + show(id) + " of " + show(e));
  EQX("mv.restricted_get", b, x, "const, field " + show(id) + " of " + show(e));
  ctx.event("mv.restricted");
}

static void compare(Ctx& ctx, MultipleVector& m, const std::vector<Row>& t, const std::vector<size_t>& w) {
  const MultipleVector& c = m;
  size_t bs = std::accumulate(w.begin(), w.end(), size_t(0));
  EQ("mv.size", c.size(), t.size());
  EQ("mv.block_size", c.block_size(), bs);
  for (size_t k = 0; k < w.size(); k++) EQ("mv.element_size", c.element_size(k), w[k]);
  for (size_t i = 0; i < t.size(); i++)
    for (size_t k = 0; k < w.size(); k++) {
      u64 e = t[i][k];
      u64 g = m.block(i).get_at(k);
      if (g != e) fail("mv.content", "record " + show(i) + " field " + show(k) + " of widths " + show_seq(w) + ": got " + show(g) + ", expected " + show(e));
      if (k < 6) for (int how = 0; how < 3; how++) {
        u64 h = get_id(c, m, i, k, how);
        if (h != e) fail("mv.content_static", "record " + show(i) + " field " + show(k) + " way " + show(how) + " of widths " + show_seq(w) + ": got " + show(h) + ", expected " + show(e));
      }
    }
  ctx.event("mv.full_compares");
}

static MultipleVector make(Rng& r, const std::vector<size_t>& w) {
  // the literal constructor where the layout matches one, else the run-time layout
  if (w == std::vector<size_t>{1, 2, 3, 4}) return MultipleVector{1, 2, 3, 4};
  if (w == std::vector<size_t>{8, 8}) return MultipleVector({size_t(8), size_t(8)});
  MultipleVector m;
  if (r.coin()) { m.set_element_sizes(std::vector<size_t>{3, 1}); } // an older layout, replaced
  if (r.coin()) m.set_element_sizes(w);
  else m.set_element_sizes(std::vector<int>(w.begin(), w.end()));
  return m;
}

static void history(Ctx& ctx, size_t maxn, int ops) {
  Rng& r = ctx.rng;
  std::vector<size_t> w;
  switch (r.below(8)) {
    case 0: w = {1, 2, 3, 4}; break;
    case 1: w = {8, 8}; break;
    case 2: w = {1}; break;
    default: { int k = 1 + r.below(6); while (k--) w.push_back(r.chance(1, 10) ? 0 : 1 + r.below(8)); if (std::accumulate(w.begin(), w.end(), size_t(0)) == 0) w.push_back(1 + r.below(8)); }
  }
  for (size_t x : w) ctx.in(x);
  MultipleVector m = make(r, w);
  std::vector<Row> t;
  auto val = [&] { return r.value(r.chance(1, 3) ? 64 : r.below(65)); };
  auto row = [&](size_t cnt) { Row x(w.size(), 0); for (size_t k = 0; k < cnt; k++) x[k] = val(); return x; };
  auto store = [&](Row& dst, const Row& src, size_t cnt) { for (size_t k = 0; k < cnt; k++) dst[k] = trunc(src[k], w[k]); };
  std::string trace = "widths " + show_seq(w);
  for (int q = 0; q < ops; q++) {
    int op = r.below(11);
    ctx.in(op);
    size_t s = t.size();
    if (trace.size() < 200) trace += " op" + show(op);
    switch (op) {
      case 0: case 1: {
        Row x = row(w.size());
        switch (w.size()) {
          case 1: m.push_back({x[0]}); break;
          case 2: m.push_back({x[0], x[1]}); break;
          case 3: m.push_back({x[0], x[1], x[2]}); break;
          case 4: m.push_back({x[0], x[1], x[2], x[3]}); break;
          case 5: m.push_back({x[0], x[1], x[2], x[3], x[4]}); break;
          default: m.push_back({x[0], x[1], x[2], x[3], x[4], x[5]});
        }
        t.emplace_back(w.size(), 0);
        store(t.back(), x, std::min<size_t>(6, w.size()));
        break;
      }
      case 2: { size_t n = r.size(maxn); m.resize(n); t.resize(n, Row(w.size(), 0)); ctx.in(n); break; }
      case 3: {
        size_t n = r.coin() ? s + r.below(20) : r.size(maxn);
        Row x = row(w.size());
        size_t k = w.size();
        if (k >= 2) m.resize(n, {x[0], x[1]}); else m.resize(n, {x[0]});
        size_t given = std::min<size_t>(k, 2);
        Row f(w.size(), 0);
        store(f, x, given);
        t.resize(n, f);
        ctx.in(n);
        break;
      }
      case 4: m.emplace_back(); t.emplace_back(w.size(), 0); break;
      case 5: if (s) {
        size_t i = r.below(s);
        Row x = row(w.size());
        size_t k = w.size();
        if (k >= 3) m.block(i) = {x[0], x[1], x[2]}; else if (k == 2) m.block(i) = {x[0], x[1]}; else m.block(i) = {x[0]};
        store(t[i], x, std::min<size_t>(k, 3));
        break;
      } break;
      case 6: case 7: for (int z = 0; z < 6 && s; z++) {
        size_t i = r.below(s), k = r.below(w.size());
        u64 v = val();
        if (r.coin() && k < 6) set_id(m, i, k, v, w[k], r.below(3));
        else switch (r.below(7)) {
          case 0: m.block(i).set_at(k, v); break;
          case 4: { int x = (int)v; m.block(i).set_at(k, x); v = (u64)(long long)x; break; }   // negative values keep their sign in wider fields
          case 5: { long long x = (long long)v; m.block(i).set_at(k, x); break; }
          case 6: { short x = (short)v; m.block(i).set_at(k, x); v = (u64)(long long)x; break; }
          case 1: v = (uint32_t)v; m.block(i).set_at(k, (uint32_t)v); break;
          case 2: v = (uint8_t)v; m.block(i).set_at(k, (uint8_t)v); break;
          default: v = (uint16_t)v; m.block(i).set_at(k, (uint16_t)v);
        }
        t[i][k] = trunc(v, w[k]);
      } break;
      case 8: {
        size_t room = r.below(2 * maxn);
        m.reserve(room);
        if (room > s && s) {   // growth within the room moves nothing
          size_t i = r.below(s), k = r.below(w.size());
          auto b = m.block(i);
          size_t n = r.coin() ? s + 1 : s + r.below(room - s + 1);
          if (n == s + 1 && r.coin()) m.emplace_back(); else m.resize(n);
          t.resize(n, Row(w.size(), 0));
          u64 v = val();
          b.set_at(k, v);
          t[i][k] = trunc(v, w[k]);
          EQX("mv.reserved", u64(m.block(i).get_at(k)), t[i][k], "written through a record held while growing from " + show(s) + " to " + show(n) + " with " + show(room) + " reserved");
          ctx.event("mv.reserves");
        }
        break;
      }
      case 9: for (int z = 0; z < 8 && s; z++) {
        size_t i = r.below(s), k = r.below(std::min<size_t>(3, w.size()));
        restricted<uint8_t>(ctx, m, k, i, t[i][k]);
        restricted<uint16_t>(ctx, m, k, i, t[i][k]);
        restricted<uint32_t>(ctx, m, k, i, t[i][k]);
        restricted<uint64_t>(ctx, m, k, i, t[i][k]);
      } break;
      default: { MultipleVector c(m); auto ct = t; c.emplace_back(); ct.emplace_back(w.size(), 0); compare(ctx, c, ct, w); if (r.coin()) { m = c; t = ct; } }
    }
    ctx.event("mv.ops");
    if (q % 3 == 2 || op == 2 || op == 3) compare(ctx, m, t, w);
  }
  compare(ctx, m, t, w);
  ctx.nontrivial(t.size() > 1 || ops > 8);
  ctx.describe(trace + " records " + show(t.size()));
}

SCENARIO(mv_history, 6000) { history(ctx, 40, 24); }
SCENARIO(mv_long, 200) { history(ctx, 1000, 20); }
// Records of very many fields, of more bytes than one or two bytes can count.
template <size_t... I> static void push_wide(MultipleVector& m, const Row& x, std::index_sequence<I...>) { m.push_back({x[I]...}); }
template <size_t... I> static void resize_wide(MultipleVector& m, size_t n, const Row& x, std::index_sequence<I...>) { m.resize(n, {x[I]...}); }
template <size_t... I> static void assign_wide(MultipleVector& m, size_t i, const Row& x, std::index_sequence<I...>) { m.block(i) = {x[I]...}; }
template <int Id> static void static_wide(Ctx& ctx, MultipleVector& m, size_t i, Row& t, const std::vector<size_t>& w) {
  const MultipleVector& c = m;
  for (int how = 0; how < 3; how++) EQX("mv.content_static", get_static<Id>(c, m, i, how), t[Id], "record " + show(i) + " field " + show(Id) + " way " + show(how));
  u64 v = ctx.rng.next();
  set_static<Id>(m, i, v, w[Id], ctx.rng.below(3));
  t[Id] = trunc(v, w[Id]);
  for (int how = 0; how < 3; how++) EQX("mv.content_static", get_static<Id>(c, m, i, how), t[Id], "record " + show(i) + " field " + show(Id) + " way " + show(how));
}
SCENARIO(mv_wide_records, 40) {
  Rng& r = ctx.rng;
  using All = std::make_index_sequence<300>;
  size_t k = r.pick<size_t>({300, 300, 301, 513, 1000, 9000, 70000});
  if (ctx.sanitized && k > 9000) k = 9000;
  std::vector<size_t> w(k);
  size_t wide = r.pick<size_t>({1, 2, 8, 9});
  for (auto& x : w) x = wide == 9 ? r.below(9) : wide;
  MultipleVector m;
  m.set_element_sizes(w);
  std::vector<Row> t;
  size_t bs = std::accumulate(w.begin(), w.end(), size_t(0));
  auto row = [&] { Row x(300); for (auto& v : x) v = r.value(64); return x; };
  auto kept = [&](const Row& x) { Row y(k, 0); for (size_t q = 0; q < 300; q++) y[q] = trunc(x[q], w[q]); return y; };
  for (int q = 0; q < 14; q++) {
    size_t s = t.size();
    switch (r.below(7)) {
      case 0: { Row x = row(); push_wide(m, x, All()); t.push_back(kept(x)); break; }
      case 1: { size_t n = r.below(12); m.resize(n); t.resize(n, Row(k, 0)); break; }
      case 2: { size_t n = r.below(12); Row x = row(); resize_wide(m, n, x, All()); t.resize(n, kept(x)); break; }
      case 3: if (s) { size_t i = r.below(s); Row x = row(), y = kept(x); assign_wide(m, i, x, All()); std::copy(y.begin(), y.begin() + 300, t[i].begin()); } break;
      case 4: if (s) { size_t i = r.below(s); static_wide<63>(ctx, m, i, t[i], w); static_wide<127>(ctx, m, i, t[i], w); static_wide<128>(ctx, m, i, t[i], w); static_wide<255>(ctx, m, i, t[i], w); static_wide<256>(ctx, m, i, t[i], w); static_wide<299>(ctx, m, i, t[i], w); } break;
      case 5: m.emplace_back(); t.emplace_back(k, 0); break;
      default: for (int z = 0; z < 40 && s; z++) { size_t i = r.below(s), f = r.coin() ? r.below(k) : k - 1 - r.below(3); u64 v = r.value(64); m.block(i).set_at(f, v); t[i][f] = trunc(v, w[f]); }
    }
    EQ("mv.size", m.size(), t.size());
    EQ("mv.block_size", m.block_size(), bs);
    for (size_t i = 0; i < t.size(); i++) for (size_t f = 0; f < k; f++) {
      u64 g = m.block(i).get_at(f);
      if (g != t[i][f]) fail("mv.content", "record " + show(i) + " field " + show(f) + " of " + show(k) + " fields: got " + show(g) + ", expected " + show(t[i][f]));
    }
    ctx.event("mv.ops");
  }
  for (size_t f = 0; f < k; f++) EQ("mv.element_size", m.element_size(f), w[f]);
  ctx.in(k); ctx.in(bs); ctx.in(t.size());
  ctx.nontrivial(t.size() > 1);
  ctx.describe(show(t.size()) + " records of " + show(k) + " fields, " + show(bs) + " bytes");
}
SCENARIO(mv_scale, 1) { history(ctx, ctx.sanitized ? 3000 : 150000, 10); }   // more than 2^16 records
SCENARIO(mv_beyond32, .1) {   // more than 2^32 bytes of records
  if (ctx.sanitized) return;
  arm(300);
  Rng& r = ctx.rng;
  std::vector<size_t> w{size_t(1 + r.below(8)), size_t(1 + r.below(8)), size_t(1 + r.below(8))};
  size_t bs = w[0] + w[1] + w[2], n = ((size_t(1) << 32) + 1000 + r.below(1 << 20)) / bs;
  MultipleVector m;
  m.set_element_sizes(w);
  m.resize(n);
  std::map<size_t, Row> t;
  std::vector<size_t> hot;
  for (size_t base : {size_t(0), (size_t(1) << 31) / bs, (size_t(1) << 32) / bs, n - 8, r.below(n - 8)}) for (long d = base > 8 ? -8 : 0; d < 8; d++) if (base + d < n) hot.push_back(base + d);
  auto row = [&](size_t i) -> Row& { auto it = t.find(i); return it == t.end() ? t[i] = Row(3, 0) : it->second; };
  const MultipleVector& c = m;
  auto cmp = [&] {
    EQ("mv.size", c.size(), n);
    for (size_t i : hot) { auto& x = row(i); for (size_t k = 0; k < 3; k++) {
      u64 g = m.block(i).get_at(k);
      if (g != x[k]) fail("mv.content", "record " + show(i) + " of " + show(n) + " field " + show(k) + " of widths " + show_seq(w) + ": got " + show(g) + ", expected " + show(x[k]));
      for (int how = 0; how < 3; how++) { u64 h = get_id(c, m, i, k, how); if (h != x[k]) fail("mv.content_static", "record " + show(i) + " of " + show(n) + " field " + show(k) + " way " + show(how) + " of widths " + show_seq(w) + ": got " + show(h) + ", expected " + show(x[k])); }
    } }
  };
  cmp();
  for (int q = 0; q < 400; q++) {
    size_t i = r.choose(hot), k = r.below(3);
    u64 v = r.value(64);
    if (r.coin()) m.block(i).set_at(k, v); else set_id(m, i, k, v, w[k], r.below(3));
    row(i)[k] = trunc(v, w[k]);
    if (q % 20 == 0) cmp();
  }
  cmp();
  ctx.event("mv.vast");
  ctx.in(n); ctx.in(bs);
  ctx.nontrivial();
  ctx.describe(show(n) + " records of widths " + show_seq(w));
}
#include "main.inc"
