// Uses, through the headers that the including unit brought in (and nothing else of the library),
// everything those headers offer.  Everything is local to the unit.
#include "tu.hpp"
#include <stdlib.h>
#include <algorithm>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>

namespace {
using U = uint64_t;
struct R {
  U s;
  U next() { s += 0x9e3779b97f4a7c15ull; U z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  U below(U n) { return n ? next() % n : 0; }
};
struct D { U h = 7; void put(U v) { h = (h ^ v) * 0x9e3779b97f4a7c15ull; h ^= h >> 29; } void put(std::string_view v) { for (unsigned char c : v) put(U(c)); put(v.size()); } };

template <class T> struct Ops {
  static void* copy(const void* o) { return new T(*static_cast<const T*>(o)); }
  static void assign(void* a, const void* b) { *static_cast<T*>(a) = *static_cast<const T*>(b); }
  static void drop(void* o) { delete static_cast<T*>(o); }
};
[[maybe_unused]] std::string no_bytes(const void*) { return {}; }

// a unit of pure functions: the object is a seed
[[maybe_unused]] void* seed_build(U s) { return new U(s); }

std::vector<TuKind>& kinds() { static std::vector<TuKind> v; return v; }
struct Add { Add(TuKind k) { kinds().push_back(k); } };

[[maybe_unused]] std::vector<std::string> some_keys(R& r) {
  std::set<std::string> s;
  for (U n = r.below(40); n--;) { std::string k; for (U l = r.below(7); l--;) k += char('a' + r.below(4)); s.insert(k); }
  return {s.begin(), s.end()};
}
[[maybe_unused]] std::string some_text(R& r) { std::string s; U sig = 1 + r.below(5); for (U n = r.below(120); n--;) s += char('a' + r.below(sig)); return s; }

#ifdef TU_BitVector
namespace k_BitVector {
using T = sim_ds::BitVector;
void* build(U s) { R r{s}; auto* t = new T(); for (U n = r.below(700); n--;) t->push_back(r.below(2)); if (r.below(3) == 0) t->resize(r.below(900), true); return t; }
U ask(const void* o, U) { D d; const T& t = *static_cast<const T*>(o); d.put(t.size()); for (size_t i = 0; i < t.size(); i++) d.put(U(bool(t[i]))); U c = 0; for (auto x : t) c += bool(x); d.put(c); d.put(t.size_in_bytes()); return d.h; }
void change(void* o, U s) { R r{s}; T& t = *static_cast<T*>(o); for (int q = 0; q < 20; q++) { if (t.size()) { size_t i = r.below(t.size()); t[i] = !bool(t[i]); } t.push_back(r.below(2)); } t.resize(r.below(t.size() + 90)); if (t.size()) { size_t a = r.below(t.size()); t.fill(t.begin() + a, t.end(), r.below(2)); } }
std::string bytes(const void* o) { std::ostringstream s; static_cast<const T*>(o)->Write(s); return s.str(); }
void* read(const std::string& b) { std::istringstream s(b); auto* t = new T(); t->Read(s); return t; }
Add add({"BitVector", sizeof(T), build, ask, change, Ops<T>::copy, Ops<T>::assign, Ops<T>::drop, bytes, read});
}
#endif
#ifdef TU_SuccinctBitVector
template <bool S> struct k_Sbv {
  using T = sim_ds::SuccinctBitVector<S>;
  static void* build(U s) { R r{s}; sim_ds::BitVector b; U den = 1 + r.below(4); for (U n = r.below(3000); n--;) b.push_back(r.below(den) == 0); return new T(b); }
  static U ask(const void* o, U) { D d; const T& t = *static_cast<const T*>(o); d.put(t.size()); U c = 0; for (size_t i = 0; i < t.size(); i += 3) { d.put(t.rank(i)); d.put(t.rank_0(i)); } for (size_t i = 0; i < t.size(); i++) c += bool(t[i]); d.put(c); if constexpr (S) for (U k = 0; k < c; k += 5) d.put(t.select(k)); d.put(t.size_in_bytes()); return d.h; }
  static std::string bytes(const void* o) { std::ostringstream s; static_cast<const T*>(o)->Write(s); return s.str(); }
  static void* read(const std::string& b) { std::istringstream s(b); return new T(s); }
};
Add add_sbv1({"SuccinctBitVector<true>", sizeof(k_Sbv<true>::T), k_Sbv<true>::build, k_Sbv<true>::ask, nullptr, Ops<k_Sbv<true>::T>::copy, Ops<k_Sbv<true>::T>::assign, Ops<k_Sbv<true>::T>::drop, k_Sbv<true>::bytes, k_Sbv<true>::read});
Add add_sbv0({"SuccinctBitVector<false>", sizeof(k_Sbv<false>::T), k_Sbv<false>::build, k_Sbv<false>::ask, nullptr, Ops<k_Sbv<false>::T>::copy, Ops<k_Sbv<false>::T>::assign, Ops<k_Sbv<false>::T>::drop, k_Sbv<false>::bytes, k_Sbv<false>::read});
#endif
#ifdef TU_FitVector
namespace k_FitVector {
using T = sim_ds::FitVector;
void* build(U s) { R r{s}; unsigned w = r.below(65); auto* t = new T(w); for (U n = r.below(200); n--;) { U x = r.next(); t->push_back(w == 64 ? x : x & ((U(1) << w) - 1)); } return t; }
U ask(const void* o, U) { D d; const T& t = *static_cast<const T*>(o); d.put(t.size()); d.put(t.unit_width()); for (size_t i = 0; i < t.size(); i++) d.put(U(t[i])); for (U x : t) d.put(x); d.put(t.size_in_bytes()); return d.h; }
void change(void* o, U s) { R r{s}; T& t = *static_cast<T*>(o); unsigned w = t.unit_width(); auto v = [&] { U x = r.next(); return w == 64 ? x : x & ((U(1) << w) - 1); }; for (int q = 0; q < 20; q++) { if (t.size()) { size_t i = r.below(t.size()); t[i] = v(); } t.push_back(v()); } t.resize(r.below(t.size() + 20)); }
std::string bytes(const void* o) { std::ostringstream s; static_cast<const T*>(o)->Write(s); return s.str(); }
void* read(const std::string& b) { std::istringstream s(b); return new T(s); }
Add add({"FitVector", sizeof(T), build, ask, change, Ops<T>::copy, Ops<T>::assign, Ops<T>::drop, bytes, read});
}
#endif
#ifdef TU_DacVector
namespace k_DacVector {
using T = sim_ds::DacVector;
void* build(U s) { R r{s}; std::vector<U> v(r.below(300)); for (auto& x : v) { U sh = r.below(64); x = r.next() >> sh; } return new T(v); }
U ask(const void* o, U) { D d; const T& t = *static_cast<const T*>(o); d.put(t.size()); d.put(t.num_layers()); for (size_t i = 0; i < t.size(); i++) { d.put(U(t[i])); d.put(t.depth(i)); } for (auto it = t.begin(); it != t.end(); ++it) d.put(U(*it)); d.put(t.size_in_bytes()); return d.h; }
std::string bytes(const void* o) { std::ostringstream s; static_cast<const T*>(o)->Write(s); return s.str(); }
void* read(const std::string& b) { std::istringstream s(b); auto* t = new T(); t->Read(s); return t; }
Add add({"DacVector", sizeof(T), build, ask, nullptr, Ops<T>::copy, Ops<T>::assign, Ops<T>::drop, bytes, read});
}
#endif
#ifdef TU_MultiBitVector
template <unsigned K> struct k_Multi {
  struct T { sim_ds::MultiBitVector<K> m; size_t n = 0; };
  static void* build(U s) { R r{s}; auto* t = new T; t->n = r.below(900); for (size_t i = 0; i < t->n; i++) { U v = r.below(U(1) << K); t->m.set(i, v); } t->m.build(); return t; }
  static U ask(const void* o, U) { D d; const T& t = *static_cast<const T*>(o); for (size_t i = 0; i < t.n; i++) { U v = t.m[i]; d.put(v); if (v) d.put(t.m.rank(i)); } d.put(t.m.size_in_bytes()); return d.h; }
  static void change(void* o, U s) { R r{s}; T& t = *static_cast<T*>(o); for (int q = 0; q < 30; q++) { U v = r.below(U(1) << K); size_t i = t.n && q % 2 ? r.below(t.n) : t.n++; t.m.set(i, v); } t.m.build(); }
  static std::string bytes(const void* o) { std::ostringstream s; static_cast<const T*>(o)->m.Write(s); return s.str(); }
};
Add add_mb1({"MultiBitVector<1>", sizeof(k_Multi<1>::T), k_Multi<1>::build, k_Multi<1>::ask, k_Multi<1>::change, Ops<k_Multi<1>::T>::copy, Ops<k_Multi<1>::T>::assign, Ops<k_Multi<1>::T>::drop, k_Multi<1>::bytes, nullptr});
Add add_mb2({"MultiBitVector<2>", sizeof(k_Multi<2>::T), k_Multi<2>::build, k_Multi<2>::ask, k_Multi<2>::change, Ops<k_Multi<2>::T>::copy, Ops<k_Multi<2>::T>::assign, Ops<k_Multi<2>::T>::drop, k_Multi<2>::bytes, nullptr});
Add add_mb3({"MultiBitVector<3>", sizeof(k_Multi<3>::T), k_Multi<3>::build, k_Multi<3>::ask, k_Multi<3>::change, Ops<k_Multi<3>::T>::copy, Ops<k_Multi<3>::T>::assign, Ops<k_Multi<3>::T>::drop, k_Multi<3>::bytes, nullptr});
#endif
#ifdef TU_MultipleVector
namespace k_MultipleVector {
using T = sim_ds::MultipleVector;
void* build(U s) { R r{s}; auto* t = new T; std::vector<size_t> w{1 + r.below(8), 1 + r.below(8), 1 + r.below(8)}; t->set_element_sizes(w); t->resize(r.below(30)); for (size_t i = 0; i < t->size(); i++) { U a = r.next(), b = r.next(), c = r.next(); t->block(i).set_at(0, a); t->block(i).set_at(1, b); t->block(i).set_at(2, c); } return t; }
U ask(const void* o, U) { D d; const T& t = *static_cast<const T*>(o); d.put(t.size()); d.put(t.block_size()); for (size_t k = 0; k < 3; k++) d.put(t.element_size(k)); for (size_t i = 0; i < t.size(); i++) { d.put(U(t.nested_element<0>(i))); d.put(U(t.nested_element<1>(i))); d.put(U(t.block(i).get<2>())); } return d.h; }
void change(void* o, U s) { R r{s}; T& t = *static_cast<T*>(o); for (int q = 0; q < 10; q++) { U a = r.next(), b = r.next(); t.push_back({a, b}); size_t i = r.below(t.size()), k = r.below(3); t.block(i).set_at(k, r.next()); } t.resize(r.below(t.size() + 9)); }
std::string bytes(const void* o) { std::ostringstream s; static_cast<const T*>(o)->StoreTo(s); return s.str(); }
void* read(const std::string& b) { std::istringstream s(b); auto* t = new T; t->LoadFrom(s); return t; }
Add add({"MultipleVector", sizeof(T), build, ask, change, Ops<T>::copy, Ops<T>::assign, Ops<T>::drop, bytes, read});
}
#endif
#ifdef TU_WaveletTree
namespace k_WaveletTree {
using T = sim_ds::WaveletTree;
void* build(U s) { R r{s}; std::vector<uint8_t> v(r.below(600)); U sig = 1 + r.below(256); for (auto& x : v) x = r.below(sig); return new T(v); }
U ask(const void* o, U) { D d; const T& t = *static_cast<const T*>(o); d.put(t.size()); for (size_t i = 0; i < t.size(); i++) { d.put(U(t[i])); d.put(t.rank(i)); auto p = t.AccessAndRank(i); d.put(U(p.first)); d.put(U(p.second)); } for (int c = 0; c < 256; c++) d.put(t.rank((uint8_t)c, t.size())); d.put(t.size_in_bytes()); return d.h; }
std::string bytes(const void* o) { std::ostringstream s; static_cast<const T*>(o)->Write(s); return s.str(); }
void* read(const std::string& b) { std::istringstream s(b); auto* t = new T(std::vector<uint8_t>{}); t->Read(s); return t; }
Add add({"WaveletTree", sizeof(T), build, ask, nullptr, Ops<T>::copy, Ops<T>::assign, Ops<T>::drop, bytes, read});
}
#endif
#ifdef TU_SuffixArray
namespace k_SuffixArray {
using T = sim_ds::SuffixArray;
void* build(U s) { R r{s}; return new T(some_text(r)); }
U ask(const void* o, U) { D d; const T& t = *static_cast<const T*>(o); std::stringstream a, b; t.WriteSA(a); t.WriteLCP(b); d.put(std::string_view(a.str())); d.put(std::string_view(b.str())); return d.h; }
std::string bytes(const void* o) { std::ostringstream s; static_cast<const T*>(o)->Write(s); return s.str(); }
void* read(const std::string& b) { std::istringstream s(b); auto* t = new T(); t->Read(s); return t; }
Add add({"SuffixArray", sizeof(T), build, ask, nullptr, Ops<T>::copy, Ops<T>::assign, Ops<T>::drop, bytes, read});
}
#endif
#ifdef TU_FactorOracle
namespace k_FactorOracle {
using T = sim_ds::FactorOracle;
void* build(U s) { R r{s}; return new T(some_text(r)); }
U ask(const void* o, U s) { D d; const T& t = *static_cast<const T*>(o); R r{s}; for (int q = 0; q < 60; q++) { std::string k; for (U l = r.below(9); l--;) k += char('a' + r.below(3)); d.put(U(t.accept(k))); } size_t st = 0; for (unsigned c = 0; c < 256; c++) { size_t z = st; if (t.image(z, c)) d.put(z * 256 + c); } return d.h; }
Add add({"FactorOracle", sizeof(T), build, ask, nullptr, Ops<T>::copy, Ops<T>::assign, Ops<T>::drop, no_bytes, nullptr});
}
#endif
#ifdef TU_PatternMatching
namespace k_PatternMatching {
namespace pm = sim_ds::pattern_matching;
template <class M> void run(D& d, const std::string& text, std::string_view pat) { M m(pat); for (int q = 0; q < 2; q++) { auto v = m.find_all(text); d.put(v.size()); for (U x : v) d.put(x); } }
U ask(const void* o, U s) { D d; R r{*static_cast<const U*>(o) ^ s}; std::string t = some_text(r), p; for (U l = 1 + r.below(5); l--;) p += char('a' + r.below(3)); run<pm::Simple>(d, t, p); run<pm::Kmp>(d, t, p); run<pm::Bm>(d, t, p); run<pm::Bom>(d, t, p); run<pm::TurboBom>(d, t, p); run<pm::SundayQS>(d, t, p); run<pm::SundayMS>(d, t, p); return d.h; }
Add add({"PatternMatching", sizeof(pm::Kmp) + sizeof(pm::Bm) + sizeof(pm::Bom) + sizeof(pm::TurboBom) + sizeof(pm::SundayQS) + sizeof(pm::SundayMS), seed_build, ask, nullptr, Ops<U>::copy, Ops<U>::assign, Ops<U>::drop, no_bytes, nullptr});
}
#endif
#ifdef TU_graph_util
namespace k_Trie {
using T = sim_ds::graph_util::Trie<U, uint32_t>;
void* build(U s) { R r{s}; auto* t = new T; for (auto& k : some_keys(r)) t->insert(k, r.next()); return t; }
U ask(const void* o, U s) { D d; const T& t = *static_cast<const T*>(o); (void)s; d.put(t.size()); t.dfs([&](auto& n, size_t dep) { d.put(dep * 2 + n.terminal()); }); t.bfs([&](auto& n, size_t dep) { d.put(dep * 2 + n.terminal()); }); return d.h; }
void change(void* o, U s) { R r{s}; T& t = *static_cast<T*>(o); for (auto& k : some_keys(r)) t.insert(k, r.next()); }
Add add({"Trie", sizeof(T), build, ask, change, Ops<T>::copy, Ops<T>::assign, Ops<T>::drop, no_bytes, nullptr});
}
#endif
#ifdef TU_Samc
template <class T, bool Dict> struct k_Samc {
  static void* build(U s) { R r{s}; auto k = some_keys(r); return new T(k.begin(), k.end()); }
  static U ask(const void* o, U s) { D d; const T& t = *static_cast<const T*>(o); R r{s}; for (int q = 0; q < 100; q++) { std::string k; for (U l = r.below(7); l--;) k += char('a' + r.below(4)); if constexpr (Dict) { auto i = t.lookup(k); d.put(U(i)); if (i >= 0 && i < (1 << 30)) d.put(std::string_view(t.access(i))); } else d.put(U(t.accept(k))); } d.put(t.size_in_bytes()); return d.h; }
  static std::string bytes(const void* o) { std::ostringstream s; static_cast<const T*>(o)->Write(s); return s.str(); }
  static void* read(const std::string& b) { std::istringstream s(b); auto* t = new T(); t->Read(s); return t; }
};
using KS = k_Samc<sim_ds::Samc<int>, false>;
using KD = k_Samc<sim_ds::SamcDict<int>, true>;
Add add_ks({"Samc", sizeof(sim_ds::Samc<int>), KS::build, KS::ask, nullptr, Ops<sim_ds::Samc<int>>::copy, Ops<sim_ds::Samc<int>>::assign, Ops<sim_ds::Samc<int>>::drop, KS::bytes, KS::read});
Add add_kd({"SamcDict", sizeof(sim_ds::SamcDict<int>), KD::build, KD::ask, nullptr, Ops<sim_ds::SamcDict<int>>::copy, Ops<sim_ds::SamcDict<int>>::assign, Ops<sim_ds::SamcDict<int>>::drop, KD::bytes, KD::read});
#endif
#ifdef TU_Heap
template <bool A> struct k_Heap {
  using T = sim_ds::Heap<A>;
  static void* build(U s) { R r{s}; std::vector<U> v(r.below(90)); for (auto& x : v) x = r.next(); return new T(v); }
  static U ask(const void* o, U) { D d; const T& t = *static_cast<const T*>(o); d.put(t.size()); if (t.size()) d.put(U(t.front())); for (size_t i = 1; i <= t.size(); i++) d.put(U(t.value(i))); return d.h; }
  static void change(void* o, U s) { R r{s}; T& t = *static_cast<T*>(o); for (int q = 0; q < 30; q++) if (r.below(2) || !t.size()) t.push(r.next()); else t.pop(); }
};
Add add_h1({"Heap<true>", sizeof(k_Heap<true>::T), k_Heap<true>::build, k_Heap<true>::ask, k_Heap<true>::change, Ops<k_Heap<true>::T>::copy, Ops<k_Heap<true>::T>::assign, Ops<k_Heap<true>::T>::drop, no_bytes, nullptr});
Add add_h0({"Heap<false>", sizeof(k_Heap<false>::T), k_Heap<false>::build, k_Heap<false>::ask, k_Heap<false>::change, Ops<k_Heap<false>::T>::copy, Ops<k_Heap<false>::T>::assign, Ops<k_Heap<false>::T>::drop, no_bytes, nullptr});
#endif
#ifdef TU_InitializableArray
namespace k_Folklore {
using T = sim_ds::InitializableArrayFolklore<U>;
void* build(U s) { R r{s}; size_t n = 1 + r.below(80); U v = r.next(); auto* t = new T(n, v); for (int q = 0; q < 20; q++) { size_t i = r.below(n); t->set(i, r.next()); } return t; }
U ask(const void* o, U) { D d; const T& t = *static_cast<const T*>(o); for (size_t i = 0; i < t.size(); i++) d.put(U(t.get(i))); return d.h; }
void change(void* o, U s) { R r{s}; T& t = *static_cast<T*>(o); if (r.below(2)) t.init(r.next()); for (int q = 0; q < 9; q++) { size_t i = r.below(t.size()); t.set(i, r.next()); } }
Add add({"InitializableArrayFolklore", sizeof(T), build, ask, change, Ops<T>::copy, Ops<T>::assign, Ops<T>::drop, no_bytes, nullptr});
}
namespace k_InPlace {
using T = sim_ds::InitializableArray<int64_t, 61>;
void* build(U s) { R r{s}; auto* t = new T(int64_t(r.next())); for (int q = 0; q < 40; q++) { size_t i = r.below(61); t->set(i, int64_t(r.next())); } return t; }
U ask(const void* o, U) { D d; const T& t = *static_cast<const T*>(o); for (size_t i = 0; i < 61; i++) d.put(U(t.get(i))); return d.h; }
void change(void* o, U s) { R r{s}; T& t = *static_cast<T*>(o); if (r.below(2)) t.init(int64_t(r.next())); for (int q = 0; q < 9; q++) { size_t i = r.below(61); t.set(i, int64_t(r.next())); } }
Add add({"InitializableArray", sizeof(T), build, ask, change, Ops<T>::copy, Ops<T>::assign, Ops<T>::drop, no_bytes, nullptr});
}
#endif
#ifdef TU_CHT
namespace k_CHT {
struct T { sim_ds::CHT<16> m; unsigned kb; explicit T(unsigned k) : m(k), kb(k) {} };
void* build(U s) { R r{s}; unsigned kb = 6 + r.below(50); auto* t = new T(kb); for (U n = r.below(200); n--;) { U k = r.next() & ((U(1) << (kb > 9 ? 9 : kb)) - 1); t->m.set(k, r.below(65536)); } return t; }
U ask(const void* o, U) { D d; const T& t = *static_cast<const T*>(o); d.put(t.m.size()); for (U k = 0; k < (U(1) << (t.kb > 9 ? 9 : t.kb)); k++) { auto p = t.m.get(k); d.put(U(p.first)); if (p.first) d.put(U(p.second)); } return d.h; }
void change(void* o, U s) { R r{s}; T& t = *static_cast<T*>(o); for (int q = 0; q < 60; q++) { U k = r.next() & ((U(1) << (t.kb > 9 ? 9 : t.kb)) - 1); if (r.below(2)) t.m.set(k, r.below(65536)); else t.m.erase(k); } }
Add add({"CHT", sizeof(T), build, ask, change, Ops<T>::copy, Ops<T>::assign, Ops<T>::drop, no_bytes, nullptr});
}
#endif
#ifdef TU_CDRWArray
namespace k_CDRWArray {
using T = sim_ds::CDRWArray;
void* build(U s) { R r{s}; size_t n = 1 + r.below(60); auto* t = new T(n); for (int q = 0; q < 50; q++) { size_t i = r.below(n); U sh = r.below(64); t->set(i, r.next() >> sh); } return t; }
U ask(const void* o, U) { D d; const T& t = *static_cast<const T*>(o); d.put(t.size()); for (size_t i = 0; i < t.size(); i++) d.put(U(t.get(i))); return d.h; }
void change(void* o, U s) { R r{s}; T& t = *static_cast<T*>(o); for (int q = 0; q < 20; q++) { size_t i = r.below(t.size()); U sh = r.below(64); t.set(i, r.next() >> sh); } }
Add add({"CDRWArray", sizeof(T), build, ask, change, Ops<T>::copy, Ops<T>::assign, Ops<T>::drop, no_bytes, nullptr});
}
namespace k_CDRWVector {
using T = sim_ds::CDRWVector;
void* build(U s) { R r{s}; auto* t = new T; for (U n = r.below(80); n--;) { U sh = r.below(64); t->push_back(r.next() >> sh); } return t; }
U ask(const void* o, U) { D d; const T& t = *static_cast<const T*>(o); d.put(t.size()); for (size_t i = 0; i < t.size(); i++) d.put(U(t.get(i))); return d.h; }
void change(void* o, U s) { R r{s}; T& t = *static_cast<T*>(o); for (int q = 0; q < 20; q++) { U sh = r.below(64); t.push_back(r.next() >> sh); size_t i = r.below(t.size()); t.set(i, r.next() >> sh); if (r.below(3) == 0) t.pop_back(); } }
Add add({"CDRWVector", sizeof(T), build, ask, change, Ops<T>::copy, Ops<T>::assign, Ops<T>::drop, no_bytes, nullptr});
}
#endif
#ifdef TU_BijectiveHash
namespace k_BijectiveHash {
template <class H> void run(D& d, R& r) { unsigned w = 1 + r.below(60); H h(w); for (int q = 0; q < 20; q++) { U k = r.next() & ((U(1) << w) - 1); U x = h.hash(k); d.put(x); d.put(h.ihash(x)); } }
U ask(const void* o, U s) { D d; R r{*static_cast<const U*>(o) ^ s}; run<sim_ds::SplitMixHash>(d, r); sim_ds::Xorshift x(20); d.put(x.hash<1>(12345)); return d.h; }
Add add({"BijectiveHash", sizeof(sim_ds::SplitMixHash) + sizeof(sim_ds::Xorshift), seed_build, ask, nullptr, Ops<U>::copy, Ops<U>::assign, Ops<U>::drop, no_bytes, nullptr});
}
#endif
#ifdef TU_bit_util
namespace k_bit_util {
namespace bu = sim_ds::bit_util;
U ask(const void* o, U s) { D d; R r{*static_cast<const U*>(o) ^ s}; for (int q = 0; q < 40; q++) { U sh = r.below(64), x = r.next() >> sh; d.put(bu::popcnt(x)); d.put(bu::popcnt(uint32_t(x))); d.put(bu::popcnt(uint16_t(x))); d.put(bu::popcnt(uint8_t(x))); d.put(bu::cnt(x, r.below(65))); d.put(bu::ctz(x)); d.put(bu::clz(x)); U n = bu::popcnt(x); if (n) d.put(bu::sel(x, r.below(n))); d.put(bu::popcnt111(x)); d.put(bu::popcnt10(x)); d.put(bu::bextr(x, 3, 17)); d.put(bu::swap_pi8(x)); d.put(bu::WidthMask(r.below(65))); d.put(bu::OffsetMask(r.below(64))); d.put(bu::width_mask<64> ^ bu::width_mask<13>); } return d.h; }
Add add({"bit_util", 1, seed_build, ask, nullptr, Ops<U>::copy, Ops<U>::assign, Ops<U>::drop, no_bytes, nullptr});
}
#endif
#ifdef TU_bit_util256
namespace k_bit_util256 {
namespace bu = sim_ds::bit_util;
U ask(const void* o, U s) { D d; R r{*static_cast<const U*>(o) ^ s}; for (int q = 0; q < 20; q++) { alignas(32) U x[4], y[4], z[4]; for (auto& v : x) { U sh = r.below(64); v = r.next() >> sh; } bu::copy256_epi64(x, y); bu::xor_map(x, uint8_t(r.next()), z); for (int i = 0; i < 4; i++) { d.put(y[i]); d.put(z[i]); } d.put(bu::popcnt256(x)); d.put(bu::ctz256(x)); d.put(bu::clz256(x)); bu::set256_epi1(q & 1, y); d.put(bu::is_zero256(y)); } return d.h; }
Add add({"bit_util256", 1, seed_build, ask, nullptr, Ops<U>::copy, Ops<U>::assign, Ops<U>::drop, no_bytes, nullptr});
}
#endif
#ifdef TU_calc
namespace k_calc {
namespace c = sim_ds::calc;
U ask(const void* o, U s) { D d; R r{*static_cast<const U*>(o) ^ s}; std::vector<U> v(r.below(200)); for (auto& x : v) { U sh = r.below(64); x = r.next() >> sh; d.put(c::SizeFitsInBits(x)); d.put(c::SizeFitsInBytes(x)); d.put(c::SizeFitsInUnits(x, 5)); d.put(c::size_fits<7>(x)); d.put(c::SizeFitsAsList(x, std::vector<size_t>{3, 9, 20, 32})); } std::vector<size_t> a; c::split_positions_optimized_for_dac(v, &a); for (U x : a) d.put(x); return d.h; }
Add add({"calc", 1, seed_build, ask, nullptr, Ops<U>::copy, Ops<U>::assign, Ops<U>::drop, no_bytes, nullptr});
}
#endif
#ifdef TU_sort
namespace k_sort {
U ask(const void* o, U s) { D d; R r{*static_cast<const U*>(o) ^ s}; std::vector<U> v(r.below(90)); for (auto& x : v) x = r.below(50); sim_ds::HeapSort(v.begin(), v.end()); for (U x : v) d.put(x); sim_ds::HeapSort(v.begin(), v.end(), [](U a, U b) { return a > b; }); for (U x : v) d.put(x); return d.h; }
Add add({"sort", 1, seed_build, ask, nullptr, Ops<U>::copy, Ops<U>::assign, Ops<U>::drop, no_bytes, nullptr});
}
#endif
#ifdef TU_basic
namespace k_basic {
U ask(const void* o, U s) { D d; R r{*static_cast<const U*>(o) ^ s}; size_t n = 1 + r.below(9); sim_ds::aligned_vector<U> v(n, r.next()); d.put(v.size()); d.put(v[0]); d.put(reinterpret_cast<uintptr_t>(v.data()) % 32); sim_ds::Stopwatch w; d.put(w.get_sec() >= 0 && w.get_milli_sec() >= 0 && w.get_micro_sec() >= 0); d.put(sizeof(sim_ds::id_type)); return d.h; }
Add add({"basic", 1, seed_build, ask, nullptr, Ops<U>::copy, Ops<U>::assign, Ops<U>::drop, no_bytes, nullptr});
}
#endif
#ifdef TU_log
namespace k_log {
U ask(const void* o, U s) { D d; R r{*static_cast<const U*>(o) ^ s}; std::ostringstream out; auto* old = std::cout.rdbuf(out.rdbuf()); for (int q = 0; q < 5; q++) { sim_ds::ShowAsBinary(r.next()); sim_ds::ShowAsBinary(int(r.next() & 0xffff), 2); } std::cout.rdbuf(old); d.put(std::string_view(out.str())); return d.h; }
Add add({"log", 1, seed_build, ask, nullptr, Ops<U>::copy, Ops<U>::assign, Ops<U>::drop, no_bytes, nullptr});
}
#endif
}  // namespace

extern "C" __attribute__((visibility("default"))) TuUnit TU_NAME() { return {TU_WHAT, kinds().data(), int(kinds().size())}; }
