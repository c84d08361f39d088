// One object of every structure behind one interface: build, query everything, change, copy, move, write, read.
#ifndef VERIF_ZOO_HPP
#define VERIF_ZOO_HPP
#include "mon.hpp"
#include "gen.hpp"
#include "sim_ds/FitVector.hpp"
#include "sim_ds/BitVector.hpp"
#include "sim_ds/SuccinctBitVector.hpp"
#include "sim_ds/MultiBitVector.hpp"
#include "sim_ds/MultipleVector.hpp"
#include "sim_ds/WaveletTree.hpp"
#include "sim_ds/DacVector.hpp"
#include "sim_ds/Heap.hpp"
#include "sim_ds/InitializableArray.hpp"
#include "sim_ds/BijectiveHash.hpp"
#include "sim_ds/CHT.hpp"
#include "sim_ds/CDRWArray.hpp"
#include "sim_ds/string_util/SuffixArray.hpp"
#include "sim_ds/string_util/FactorOracle.hpp"
#include "sim_ds/string_util/PatternMatching.hpp"
#include "sim_ds/string_util/graph_util.hpp"
#include "sim_ds/string_util/Samc.hpp"

namespace zoo {
using namespace mon;
using namespace sim_ds;
using V = std::vector<u64>;
struct Aux { std::vector<std::string> qs; std::vector<u64> ks; size_t n = 0; };

// ---- traits: build, answers (every read-only query), change (not for static structures), reading
inline void put(V& o, u64 x) { o.push_back(x); }
#ifdef ZOO_NO_SIZES
template <class T> void put_size(V&, const T&) {}
#else
template <class T> void put_size(V& o, const T& t) { o.push_back(t.size_in_bytes()); }
#endif
// braces order the random choices, whatever the compiler
template <class T> void set2(T& t, std::pair<u64, u64> p) { t.set(p.first, p.second); }
template <class T> void resize2(T& t, std::pair<u64, u64> p) { t.resize(p.first, p.second); }
inline u64 hs(std::string_view s) { return hash_str(s); }

struct TBitVector {
  using T = BitVector;
  static constexpr const char* name = "BitVector";
  static T build(Rng& r, Aux&, size_t max) {
    auto b = gen::bits(r, r.size(max));
    T t;
    switch (r.below(4)) {
      case 0: t = T(b); break;
      case 1: for (bool x : b) t.push_back(x); break;
      case 2: t = T(b.size() + r.below(200), true); t.resize(b.size()); for (size_t i = 0; i < b.size(); i++) t[i] = b[i]; break;  // shrunk
      default: t.resize(b.size(), r.coin()); for (size_t i = 0; i < b.size(); i++) t[i] = b[i]; if (r.coin()) { size_t k = r.below(b.size() + 1); t.resize(k); t.resize(k + r.below(100), true); }
    }
    return t;
  }
  static void answers(const T& t, const Aux&, V& o) {
    put(o, t.size()); put(o, t.empty());
    u64 w = 0; for (size_t i = 0; i < t.size(); i++) { w = w << 1 | bool(t[i]); if (i % 64 == 63) put(o, w); }
    put(o, w);
    size_t c = 0; for (auto x : t) c += bool(x);
    put(o, c);
    if (t.size()) { put(o, bool(t.front())); put(o, bool(t.back())); put(o, bool(t.at(t.size() / 2))); put(o, t.data()[0] & low_mask(std::min<size_t>(64, t.size()))); }
    put_size(o, t);
  }
  static void change(T& t, Aux&, Rng& r) {
    for (int q = 0; q < 6; q++) switch (r.below(5)) {
      case 0: for (u64 k = r.below(100); k--;) t.push_back(r.coin()); break;
      case 1: resize2(t, {r.below(t.size() + 80), r.coin()}); break;
      case 2: if (t.size()) t[r.below(t.size())] = r.coin(); break;
      case 3: if (t.size()) { size_t a = r.below(t.size() + 1), b = r.below(t.size() + 1); t.fill(t.begin() + std::min(a, b), t.begin() + std::max(a, b), r.coin()); } break;
      default: for (size_t i = r.below(7); i < t.size(); i += 7) t[i] = !bool(t[i]);
    }
  }
  static void read(T& t, std::istream& is) { t.Read(is); }
  static T fresh(std::istream& is) { T t; t.Read(is); return t; }
  static void write(const T& t, std::ostream& os) { t.Write(os); }
};
template <bool S> struct TSbv {
  using T = SuccinctBitVector<S>;
  static constexpr const char* name = S ? "SuccinctBitVector<true>" : "SuccinctBitVector<false>";
  static T build(Rng& r, Aux& a, size_t max) {
    if (r.chance(1, 12)) return T();
    if (r.chance(1, 12)) return T({true, false, true, true});
    BitVector b = TBitVector::build(r, a, max);
    if (r.coin()) return T(b);
    return T(std::move(b));
  }
  static void answers(const T& t, const Aux&, V& o) {
    size_t n = t.size(), ones = 0;
    put(o, n);
    size_t step = n > 4000 ? 1 + n / 4000 : 1;
    for (size_t i = 0; i <= n; i += step) { put(o, t.rank(i)); put(o, t.rank_0(i)); if (i < n) put(o, t[i]); }
    if (n) ones = t.rank_1(n);
    put(o, ones);
    if constexpr (S) { size_t st = ones > 3000 ? 1 + ones / 3000 : 1; for (size_t k = 0; k < ones; k += st) put(o, t.select(k)); }
    put_size(o, t);
  }
  static void read(T& t, std::istream& is) { t.Read(is); }
  static T fresh(std::istream& is) { return T(is); }
  static void write(const T& t, std::ostream& os) { t.Write(os); }
};
struct TFit {
  using T = FitVector;
  static constexpr const char* name = "FitVector";
  static T build(Rng& r, Aux&, size_t max) {
    if (r.chance(1, 4)) return T(gen::ints(r, r.size(max / 8 + 8), 64));
    unsigned w = r.below(65);
    T t(w);
    size_t n = r.size(max / 8 + 8);
    for (size_t i = 0; i < n; i++) t.push_back(r.value(w));
    if (r.chance(1, 3)) { t.resize(r.below(n + 1)); t.resize(t.size() + r.below(40)); }
    return t;
  }
  static void answers(const T& t, const Aux&, V& o) {
    put(o, t.size()); put(o, t.unit_width()); put(o, t.empty());
    for (size_t i = 0; i < t.size(); i++) put(o, t[i]);
    u64 s = 0; for (u64 x : t) s = s * 31 + x; put(o, s);
    if (t.size()) { put(o, t.front()); put(o, t.back()); put(o, t.at(t.size() / 2)); }
    put_size(o, t);
  }
  static void change(T& t, Aux&, Rng& r) {
    unsigned w = t.unit_width();
    for (int q = 0; q < 6; q++) switch (r.below(4)) {
      case 0: for (u64 k = r.below(30); k--;) t.push_back(r.value(w)); break;
      case 1: t.resize(r.below(t.size() + 30)); break;
      case 2: for (int z = 0; z < 5 && t.size(); z++) t[r.below(t.size())] = r.value(w); break;
      default: if (t.size()) { size_t i = r.below(t.size()); std::fill(t.begin() + i, t.end(), r.value(w)); };
    }
  }
  static void read(T& t, std::istream& is) { t = T(is); }
  static T fresh(std::istream& is) { return T(is); }
  static void write(const T& t, std::ostream& os) { t.Write(os); }
};
struct TDac {
  using T = DacVector;
  static constexpr const char* name = "DacVector";
  static T build(Rng& r, Aux&, size_t max) {
    if (r.chance(1, 12)) return T();
    auto v = gen::ints(r, r.size(max / 8 + 8), 64);
    if (r.coin()) return T(v);
    u64 m = v.empty() ? 0 : *std::max_element(v.begin(), v.end());
    unsigned need = m ? 64 - __builtin_clzll(m) : 1, got = 0;
    std::vector<size_t> units;
    while (got < need) { unsigned u = 1 + r.below(std::min(16u, need - got)); units.push_back(u); got += u; }
    return T(v, units);
  }
  static void answers(const T& t, const Aux&, V& o) {
    put(o, t.size()); put(o, t.num_layers()); put(o, t.empty());
    for (size_t i = 0; i < t.size(); i++) { put(o, t[i]); put(o, t.depth(i)); }
    u64 s = 0; for (auto it = t.begin(); it != t.end(); ++it) s = s * 31 + *it; put(o, s);
    if (t.size()) { put(o, t.front()); put(o, t.back()); put(o, t.at(t.size() - 1)); }
    put_size(o, t);
  }
  static void read(T& t, std::istream& is) { t.Read(is); }
  static T fresh(std::istream& is) { return T(is); }
  static void write(const T& t, std::ostream& os) { t.Write(os); }
};
template <unsigned K> struct TMulti {
  using T = MultiBitVector<K>;
  static constexpr const char* name = K == 1 ? "MultiBitVector<1>" : K == 2 ? "MultiBitVector<2>" : "MultiBitVector<3>";
  static T build(Rng& r, Aux& a, size_t max) {
    T t;
    a.n = r.chance(1, 12) ? 0 : r.size(max / 4 + 8);
    u64 top = 1 + r.below(1u << K);
    for (size_t i = 0; i < a.n; i++) t.set(i, r.below(top));
    if (a.n && r.chance(1, 4)) { t.build(); for (int q = 0; q < 20; q++) set2(t, {r.below(a.n), r.below(top)}); }
    t.build();
    return t;
  }
  static void answers(const T& t, const Aux& a, V& o) {
    for (size_t i = 0; i < a.n; i++) { put(o, t[i]); if (t[i]) put(o, t.rank(i)); }
    put_size(o, t);
  }
  static void change(T& t, Aux& a, Rng& r) {
    for (int q = 0; q < 20 && a.n; q++) set2(t, {r.below(a.n), r.below(1u << K)});
    size_t more = r.below(40);
    for (size_t i = 0; i < more; i++) t.set(a.n++, r.below(1u << K));
    t.build();
  }
  static void read(T& t, std::istream& is) { t.Read(is); }
  static T fresh(std::istream& is) { T t; t.Read(is); return t; }
  static void write(const T& t, std::ostream& os) { t.Write(os); }
};
struct TRecords {
  using T = MultipleVector;
  static constexpr const char* name = "MultipleVector";
  static T build(Rng& r, Aux& a, size_t max) {
    T t;
    std::vector<size_t> w;
    int k = 2 + r.below(4);
    while (k--) w.push_back(1 + r.below(8));
    t.set_element_sizes(w);
    a.n = w.size();
    size_t n = r.below(max / 16 + 4);
    if (r.coin()) t.resize(n, {r.next(), r.next()});
    else for (size_t i = 0; i < n; i++) t.push_back({r.next(), r.next()});
    return t;
  }
  static void answers(const T& t, const Aux& a, V& o) {
    put(o, t.size()); put(o, t.block_size());
    for (size_t k = 0; k < a.n; k++) put(o, t.element_size(k));
    for (size_t i = 0; i < t.size(); i++) { put(o, t.nested_element<0>(i)); put(o, t.nested_element<1>(i)); put(o, t.block(i).get<0>()); put(o, t.block(i).get<1>()); if (a.n > 2) put(o, t.block(i).get<2>()); if (a.n > 3) put(o, t.nested_element<3>(i)); }
    put_size(o, t);
  }
  static void change(T& t, Aux& a, Rng& r) {
    for (int q = 0; q < 6; q++) switch (r.below(4)) {
      case 0: t.push_back({r.next(), r.next()}); break;
      case 1: t.resize(r.below(t.size() + 9)); break;
      case 2: if (t.size()) { size_t b = r.below(t.size()), i = r.below(a.n); t.block(b).set_at(i, r.next()); } break;
      default: if (t.size()) t.block(r.below(t.size())) = {r.next(), r.next()};
    }
  }
  static void read(T& t, std::istream& is) { t.LoadFrom(is); }
  static T fresh(std::istream& is) { T t; t.LoadFrom(is); return t; }
  static void write(const T& t, std::ostream& os) { t.StoreTo(os); }
};
struct TWavelet {
  using T = WaveletTree;
  static constexpr const char* name = "WaveletTree";
  static T build(Rng& r, Aux&, size_t max) {
    std::vector<u8> v(r.chance(1, 10) ? 0 : r.size(max / 2 + 8));
    unsigned sig = r.pick<unsigned>({1, 2, 3, 16, 17, 100, 256});
    u8 a = r.below(sig);
    for (auto& x : v) x = r.below(4) ? r.below(sig) : a;
    return T(v);
  }
  static void answers(const T& t, const Aux&, V& o) {
    size_t n = t.size();
    put(o, n);
    size_t st = n > 2000 ? 1 + n / 2000 : 1;
    for (size_t i = 0; i < n; i += st) { put(o, t[i]); put(o, t.rank(i)); auto p = t.AccessAndRank(i); put(o, p.first); put(o, p.second); put(o, t.rank(u8(i * 7), i)); }
    for (int c = 0; c < 256; c++) put(o, t.rank((u8)c, n));
    put_size(o, t);
  }
  static void read(T& t, std::istream& is) { t.Read(is); }
  static T fresh(std::istream& is) { T t(std::vector<u8>{}); t.Read(is); return t; }
  static void write(const T& t, std::ostream& os) { t.Write(os); }
};
struct TSuffix {
  using T = SuffixArray;
  static constexpr const char* name = "SuffixArray";
  static T build(Rng& r, Aux& a, size_t max) {
    if (r.chance(1, 12)) { a.n = 0; return T(); }
    std::string s = gen::text(r, r.below(max / 16 + 20));
    a.n = s.size();
    return T(s);
  }
  static void answers(const T& t, const Aux& a, V& o) {
    std::stringstream x, y;
    t.WriteSA(x); t.WriteLCP(y);
    put(o, hs(x.str())); put(o, hs(y.str()));
    FitVector s(x), l(y);
    put(o, s.size()); put(o, l.size());
    for (u64 v : s) put(o, v);
    for (u64 v : l) put(o, v);
    for (size_t i = 0; i < a.n; i++) { put(o, t.char_at(i)); if (i % 17 == 0) { put(o, hs(t.suffix(i))); put(o, hs(t.suffix(i, 5))); } }
  }
  static void read(T& t, std::istream& is) { t.Read(is); }
  static T fresh(std::istream& is) { T t; t.Read(is); return t; }
  static void write(const T& t, std::ostream& os) { t.Write(os); }
};
inline std::vector<std::string> keys(Rng& r, Aux& a, size_t max) {
  std::set<std::string> s;
  size_t n = r.chance(1, 12) ? 0 : r.below(max / 32 + 12);
  unsigned sig = r.pick<unsigned>({2, 5, 26, 254});
  while (n--) { std::string k; size_t l = r.below(9); while (l--) k += char(1 + r.below(sig)); s.insert(k); a.qs.push_back(k); k += char(r.next()); a.qs.push_back(k); k[0] = char(r.next()); a.qs.push_back(k); }
  a.qs.push_back(""); a.qs.push_back(std::string(1, '\0'));
  a.n = s.size();
  return {s.begin(), s.end()};
}
template <class S> struct TKeySet {
  using T = S;
  static constexpr const char* name = std::is_same_v<S, Samc<int>> ? "Samc<int>" : "Samc<long long, legacy>";
  static T build(Rng& r, Aux& a, size_t max) { if (r.chance(1, 14)) { a.qs = {"", "a"}; return T(); } auto k = keys(r, a, max); return T(k.begin(), k.end()); }
  static void answers(const T& t, const Aux& a, V& o) { for (auto& q : a.qs) put(o, t.accept(q)); put_size(o, t); }
  static void read(T& t, std::istream& is) { t.Read(is); }
  static T fresh(std::istream& is) { T t; t.Read(is); return t; }
  static void write(const T& t, std::ostream& os) { t.Write(os); }
};
struct TDict {
  using T = SamcDict<int>;
  static constexpr const char* name = "SamcDict<int>";
  static T build(Rng& r, Aux& a, size_t max) { if (r.chance(1, 14)) { a.qs = {"", "a"}; return T(); } auto k = keys(r, a, max); return T(k.begin(), k.end()); }
  static void answers(const T& t, const Aux& a, V& o) { for (auto& q : a.qs) put(o, t.lookup(q)); for (size_t i = 0; i < a.n; i++) put(o, hs(t.access(i))); put_size(o, t); }
  static void read(T& t, std::istream& is) { t.Read(is); }
  static T fresh(std::istream& is) { T t; t.Read(is); return t; }
  static void write(const T& t, std::ostream& os) { t.Write(os); }
};
// without serialisation
template <bool A> struct THeap {
  using T = Heap<A>;
  static constexpr const char* name = A ? "Heap<true>" : "Heap<false>";
  static T build(Rng& r, Aux&, size_t max) { V v(r.below(max / 16 + 8)); for (auto& x : v) x = r.value(64); return T(v); }
  static void answers(const T& t, const Aux&, V& o) { put(o, t.size()); if (t.size()) put(o, t.front()); for (size_t i = 1; i <= t.size(); i++) put(o, t.value(i)); }
  static void change(T& t, Aux&, Rng& r) { for (int q = 0; q < 20; q++) if (r.coin() || !t.size()) t.push(r.value(64)); else t.pop(); }
};
struct TFolklore {
  using T = InitializableArrayFolklore<u64>;
  static constexpr const char* name = "InitializableArrayFolklore";
  static T build(Rng& r, Aux&, size_t max) { size_t n = r.below(max / 16 + 8); T t(n, r.next()); if (t.size()) for (int q = 0; q < 20; q++) set2(t, {r.below(t.size()), r.next()}); return t; }
  static void answers(const T& t, const Aux&, V& o) { put(o, t.size()); for (size_t i = 0; i < t.size(); i++) put(o, t.get(i)); }
  static void change(T& t, Aux&, Rng& r) { if (r.coin()) t.init(r.next()); if (t.size()) for (int q = 0; q < 10; q++) set2(t, {r.below(t.size()), r.next()}); }
};
template <class E, size_t N> struct TInPlace {
  using T = InitializableArray<E, N>;
  static constexpr const char* name = N == 37 ? "InitializableArray<uint16_t,37>" : "InitializableArray<int64_t,100>";
  static T build(Rng& r, Aux&, size_t) { T t(E(r.next())); for (u64 q = r.below(2 * N); q--;) set2(t, {r.below(N), u64(E(r.coin() ? r.below(N) : r.next()))}); return t; }
  static void answers(const T& t, const Aux&, V& o) { put(o, t.size()); for (size_t i = 0; i < N; i++) { put(o, t.get(i)); put(o, E(t[i])); } u64 s = 0; for (auto it = t.begin(); it != t.end(); ++it) s = s * 31 + u64(E(*it)); put(o, s); }
  static void change(T& t, Aux&, Rng& r) { if (r.coin()) t.init(E(r.next())); for (int q = 0; q < 10; q++) set2(t, {r.below(N), r.below(N)}); if (r.coin()) t[3] = E(r.next()); }
};
template <unsigned VB> struct TCht {
  using T = CHT<VB>;
  static constexpr const char* name = VB ? "CHT<16>" : "CHT<0>";
  static T build(Rng& r, Aux& a, size_t max) {
    unsigned kb = 1 + r.below(60);
    T t(kb);
    if (!VB) t.set_value_width(1 + r.below(64)), a.n = 0;
    for (u64 q = r.below(max / 16 + 8); q--;) { u64 k = r.value(kb); a.ks.push_back(k); if (r.chance(3, 4)) t.set(k, r.below(2)); if (r.chance(1, 4)) t.erase(r.choose(a.ks)); }
    a.n = kb;
    return t;
  }
  static void answers(const T& t, const Aux& a, V& o) { put(o, t.size()); for (u64 k : a.ks) { auto p = t.get(k); put(o, p.first); if (p.first) put(o, p.second); } }
  static void change(T& t, Aux& a, Rng& r) { for (int q = 0; q < 30; q++) { u64 k = a.ks.empty() || r.coin() ? r.value(a.n) : r.choose(a.ks); a.ks.push_back(k); if (r.coin()) t.set(k, r.below(2)); else t.erase(k); } }
};
struct TCdrwA {
  using T = CDRWArray;
  static constexpr const char* name = "CDRWArray";
  static T build(Rng& r, Aux&, size_t max) { T t(r.below(max / 32 + 8)); if (t.size()) for (int q = 0; q < 30; q++) set2(t, {r.below(t.size()), r.value(64)}); return t; }
  static void answers(const T& t, const Aux&, V& o) { put(o, t.size()); for (size_t i = 0; i < t.size(); i++) put(o, t.get(i)); }
  static void change(T& t, Aux&, Rng& r) { if (t.size()) for (int q = 0; q < 20; q++) set2(t, {r.below(t.size()), r.value(64)}); }
};
struct TCdrwV {
  using T = CDRWVector;
  static constexpr const char* name = "CDRWVector";
  static T build(Rng& r, Aux&, size_t max) { T t; for (u64 q = r.below(max / 32 + 8); q--;) t.push_back(r.value(64)); return t; }
  static void answers(const T& t, const Aux&, V& o) { put(o, t.size()); put(o, t.empty()); for (size_t i = 0; i < t.size(); i++) put(o, t.get(i)); }
  static void change(T& t, Aux&, Rng& r) { for (int q = 0; q < 10; q++) switch (r.below(4)) { case 0: t.push_back(r.value(64)); break; case 1: t.pop_back(); break; case 2: t.resize(r.below(t.size() + 6)); break; default: if (t.size()) set2(t, {r.below(t.size()), r.value(64)}); } }
};
struct TOracle {
  using T = FactorOracle;
  static constexpr const char* name = "FactorOracle";
  static T build(Rng& r, Aux& a, size_t max) {
    std::string s = gen::text(r, r.below(max / 16 + 20));
    a.n = s.size();
    for (int q = 0; q < 20; q++) { if (s.size()) { size_t i = r.below(s.size()); a.qs.push_back(s.substr(i, r.below(s.size() - i + 1))); } std::string z = a.qs.empty() ? "x" : a.qs.back(); z += char(r.next()); a.qs.push_back(z); }
    return T(s);
  }
  static void answers(const T& t, const Aux& a, V& o) {
    for (auto& q : a.qs) put(o, t.accept(q));
    for (size_t s = 0; s <= a.n; s += 1 + a.n / 50) for (unsigned c = 0; c < 256; c++) { size_t st = s; if (t.image(st, c)) { put(o, s); put(o, c); put(o, st); } }
  }
};
struct TTrie {
  using T = graph_util::Trie<u64, uint32_t>;
  static constexpr const char* name = "Trie";
  static T build(Rng& r, Aux& a, size_t max) { T t; for (auto& k : keys(r, a, max)) t.insert(k, r.next()); return t; }
  static void answers(const T& ct, const Aux& a, V& o) {
    put(o, ct.size());
    ct.dfs([&](auto& n, size_t d) { put(o, d); put(o, n.terminal()); });
    u64 h = 0; ct.bfs([&](auto& n, size_t d) { h = gen::digest(h, d * 2 + n.terminal()); });
    put(o, h);
    (void)a;
  }
  static void change(T& t, Aux& a, Rng& r) { for (int q = 0; q < 10; q++) { std::string k; for (u64 l = r.below(6); l--;) k += char('a' + r.below(4)); t.insert(k, r.next()); (void)a; } }
};
template <class M> struct TMatcher {
  struct T { M m; T() : m("ab") {} explicit T(std::string_view k) : m(k) {} };
  static constexpr const char* name = std::is_same_v<M, pattern_matching::Kmp> ? "Kmp" : std::is_same_v<M, pattern_matching::Bm> ? "Bm" : std::is_same_v<M, pattern_matching::Bom> ? "Bom" : std::is_same_v<M, pattern_matching::TurboBom> ? "TurboBom"
    : std::is_same_v<M, pattern_matching::SundayQS> ? "SundayQS" : std::is_same_v<M, pattern_matching::SundayMS> ? "SundayMS" : "Simple";
  static std::string_view pool(Rng& r) { // keys live for the whole run: matchers refer to them
    static const std::vector<std::string> p = [] { Rng r(99); std::vector<std::string> v; for (int i = 0; i < 40; i++) v.push_back(gen::text(r, 1 + r.below(20))); return v; }();
    return p[r.below(p.size())];
  }
  static T build(Rng& r, Aux& a, size_t max) {
    auto k = pool(r);
    for (int q = 0; q < 6; q++) { std::string s; size_t l = r.below(max / 16 + 30); while (s.size() < l) { if (r.coin()) s += k; else if (r.coin()) s += k.substr(r.below(k.size())); else s += k[r.below(k.size())]; } a.qs.push_back(s); }
    return T(k);
  }
  static void answers(const T& t, const Aux& a, V& o) { for (auto& q : a.qs) { auto v = t.m.find_all(q); put(o, v.size()); for (u64 x : v) put(o, x); } }
};

// ---- type-erased animal
template <class Tr, class = void> struct has_change : std::false_type {};
template <class Tr> struct has_change<Tr, std::void_t<decltype(&Tr::change)>> : std::true_type {};
template <class Tr, class = void> struct has_io : std::false_type {};
template <class Tr> struct has_io<Tr, std::void_t<decltype(&Tr::write)>> : std::true_type {};

struct Animal {
  virtual ~Animal() {}
  virtual const char* name() const = 0;
  virtual V answers() const = 0;
  virtual bool changes() const = 0;
  virtual void change(u64 seed) = 0;
  virtual std::unique_ptr<Animal> copy() const = 0;
  virtual std::unique_ptr<Animal> steal() = 0;
  virtual void assign(const Animal&) = 0;
  virtual void take(Animal&) = 0;
  virtual void swap_with(Animal&) = 0;
  virtual void assign_self() = 0;
  virtual bool io() const = 0;
  virtual std::string bytes() const = 0;
  virtual void write(std::ostream&) const = 0;
  virtual void read(std::istream&, const Animal& like) = 0;          // into this used object
  virtual std::unique_ptr<Animal> fresh(std::istream&) const = 0;    // into a new object, same queries as this one
};
template <class Tr> struct Box final : Animal {
  using T = typename Tr::T;
  Aux a; T v;
  Box(Rng& r, size_t max) : v(Tr::build(r, a, max)) {} // in place: the first answers are those of an object never copied or moved
  Box(T&& t, Aux x) : a(std::move(x)), v(std::move(t)) {}
  Box(const T& t, Aux x, int) : a(std::move(x)), v(t) {}
  const char* name() const override { return Tr::name; }
  V answers() const override { V o; Tr::answers(v, a, o); return o; }
  bool changes() const override { return has_change<Tr>::value; }
  void change([[maybe_unused]] u64 seed) override { if constexpr (has_change<Tr>::value) { Rng r(seed); Tr::change(v, a, r); } }
  std::unique_ptr<Animal> copy() const override { return std::make_unique<Box>(v, a, 0); }
  std::unique_ptr<Animal> steal() override { return std::make_unique<Box>(std::move(v), a); }
  void assign(const Animal& o) override { auto& b = static_cast<const Box&>(o); v = b.v; a = b.a; }
  void take(Animal& o) override { auto& b = static_cast<Box&>(o); v = std::move(b.v); a = b.a; }
  void swap_with(Animal& o) override { auto& b = static_cast<Box&>(o); std::swap(v, b.v); std::swap(a, b.a); }
  void assign_self() override { auto& me = v; v = me; }
  bool io() const override { return has_io<Tr>::value; }
  std::string bytes() const override { std::ostringstream o; write(o); return o.str(); }
  void write([[maybe_unused]] std::ostream& os) const override { if constexpr (has_io<Tr>::value) Tr::write(v, os); }
  void read([[maybe_unused]] std::istream& is, const Animal& like) override { if constexpr (has_io<Tr>::value) { Tr::read(v, is); a = static_cast<const Box&>(like).a; } }
  std::unique_ptr<Animal> fresh([[maybe_unused]] std::istream& is) const override { if constexpr (has_io<Tr>::value) return std::make_unique<Box>(Tr::fresh(is), a); else return nullptr; }
};
template <class Tr> std::unique_ptr<Animal> make(u64 seed, size_t max) {
  Rng r(seed);
  return std::make_unique<Box<Tr>>(r, max);
}
struct Species { const char* name; std::unique_ptr<Animal> (*make)(u64, size_t); bool io; };
template <class Tr> Species sp() { return {Tr::name, &make<Tr>, has_io<Tr>::value}; }
// ZOO_GROUPS: 1 plain vectors, 2 symbol and record vectors, 4 indexes and dictionaries, 8 rewritable structures, 16 automata and matchers
#ifndef ZOO_GROUPS
#define ZOO_GROUPS 31
#endif
inline const std::vector<Species>& species() {
  static const std::vector<Species> s = {
#if ZOO_GROUPS & 1
    sp<TBitVector>(), sp<TSbv<true>>(), sp<TSbv<false>>(), sp<TFit>(), sp<TDac>(),
#endif
#if ZOO_GROUPS & 2
    sp<TMulti<1>>(), sp<TMulti<2>>(), sp<TMulti<3>>(), sp<TRecords>(), sp<TWavelet>(),
#endif
#if ZOO_GROUPS & 4
    sp<TSuffix>(), sp<TKeySet<Samc<int>>>(), sp<TKeySet<Samc<long long, true>>>(), sp<TDict>(),
#endif
#if ZOO_GROUPS & 8
    sp<THeap<true>>(), sp<THeap<false>>(), 
#ifndef ZOO_NO_LAZY
    sp<TFolklore>(), sp<TInPlace<uint16_t, 37>>(), sp<TInPlace<int64_t, 100>>(),
#endif
    sp<TCht<0>>(), sp<TCht<16>>(), sp<TCdrwA>(), sp<TCdrwV>(),
#endif
#if ZOO_GROUPS & 16
    sp<TOracle>(), sp<TTrie>(),
    sp<TMatcher<pattern_matching::Simple>>(), sp<TMatcher<pattern_matching::Kmp>>(), sp<TMatcher<pattern_matching::Bm>>(), sp<TMatcher<pattern_matching::Bom>>(),
    sp<TMatcher<pattern_matching::TurboBom>>(), sp<TMatcher<pattern_matching::SundayQS>>(), sp<TMatcher<pattern_matching::SundayMS>>(),
#endif
  };
  return s;
}
inline std::string diff(const V& got, const V& exp) {
  if (got.size() != exp.size()) return "number of answers " + show(got.size()) + ", expected " + show(exp.size());
  for (size_t i = 0; i < got.size(); i++) if (got[i] != exp[i]) return "answer " + show(i) + " of " + show(exp.size()) + " is " + show(got[i]) + ", expected " + show(exp[i]);
  return "";
}
inline void same(const char* key, const Animal& x, const V& exp, const std::string& what) {
  V g = x.answers();
  if (g != exp) fail(std::string(key) + ":" + x.name(), std::string(x.name()) + " " + what + ": " + diff(g, exp));
}
}  // namespace zoo
#endif
