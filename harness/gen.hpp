// Input generators shared by harnesses.
#ifndef VERIF_GEN_HPP
#define VERIF_GEN_HPP
#include <deque>
#include "mon.hpp"
namespace gen {
// the same sequence handed over through different random-access iterators; the source is gone when it returns
template <class Seq, class F> auto over_range(mon::Rng& r, const Seq& v, F make) {
  using T = typename Seq::value_type;
  switch (r.below(5)) {
    case 0: { std::vector<T> c(v.begin(), v.end()); return make(c.begin(), c.end()); }
    case 1: { std::vector<T> c(v.begin(), v.end()); const T* p = c.data(); return make(p, p + c.size()); }
    case 2: { std::deque<T> c(v.begin(), v.end()); return make(c.begin(), c.end()); }
    case 3: { std::vector<T> c(v.rbegin(), v.rend()); return make(c.rbegin(), c.rend()); }
    default: { const std::vector<T> c(v.begin(), v.end()); return make(c.cbegin(), c.cend()); }
  }
}
using namespace mon;

// bit sequences of many shapes
inline std::vector<bool> bits(Rng& r, size_t n, std::string* what = nullptr) {
  std::vector<bool> v(n);
  int mode = r.below(12);
  auto rnd = [&](u64 num, u64 den) { for (size_t i = 0; i < n; i++) v[i] = r.below(den) < num; };
  switch (mode) {
    case 0: break;
    case 1: v.assign(n, true); break;
    case 2: rnd(1, 2); break;
    case 3: rnd(1, 1000); break;
    case 4: rnd(999, 1000); break;
    case 5: rnd(1, 20); break;
    case 6: rnd(19, 20); break;
    case 7: if (n) { int k = 1 + r.below(4); while (k--) v[r.coin() ? n - 1 - r.below(std::min<size_t>(n, 66)) : r.below(n)] = true; } break;      // few ones
    case 8: v.assign(n, true); if (n) { int k = 1 + r.below(4); while (k--) v[r.below(n)] = false; } break;                                 // few zeros
    case 9: { // runs
      size_t i = 0; bool b = r.coin();
      size_t m = r.pick<size_t>({3, 40, 64, 300, 512, 2000, 20000});
      while (i < n) { size_t l = 1 + r.below(2 * m); for (; l && i < n; l--) v[i++] = b; b = !b; }
      break;
    }
    case 10: { // blocks of different density, boundaries at multiples of 64/512
      size_t i = 0; size_t unit = r.pick<size_t>({64, 512, 512, 4096});
      while (i < n) { u64 p = r.pick<u64>({0, 0, 1, 50, 99, 100, 100}); for (size_t k = 0; k < unit && i < n; k++, i++) v[i] = r.below(100) < p; }
      break;
    }
    default: { // ones exactly at the ends of 64/512 blocks
      size_t unit = r.pick<size_t>({64, 512, 1024, 32768}); long off = (long)r.below(3) - 1;
      for (size_t k = 0; k * unit <= n; k++) { long p = (long)(k * unit) + off; if (p >= 0 && (size_t)p < n) v[p] = true; }
    }
  }
  if (what) *what = "bits(mode " + show(mode) + ", n " + show(n) + ")";
  return v;
}

// lists of unsigned integers with many bit-length distributions
inline std::vector<u64> ints(Rng& r, size_t n, unsigned maxbits, std::string* what = nullptr) {
  std::vector<u64> v(n);
  int mode = r.below(9);
  unsigned w = maxbits == 0 ? 0 : 1 + r.below(maxbits);
  if (r.coin()) w = maxbits;
  u64 peak = 1 + r.below(16);
  std::vector<unsigned> lens;
  for (int i = 0; i < 1 + (int)r.below(14); i++) lens.push_back(w ? 1 + r.below(w) : 0);
  for (auto& x : v) switch (mode) {
    case 0: x = 0; break;
    case 1: x = low_mask(w); break;
    case 2: x = r.next() & low_mask(w); break;
    case 3: x = r.value(w); break;
    case 4: { unsigned b = 0; while (b < w && r.below(peak + 1)) b++; x = r.next() & low_mask(b); break; }       // geometric lengths
    case 5: x = r.next() & low_mask(r.below(w + 1)); break;                                                     // uniform lengths
    case 6: { unsigned b = r.choose(lens); x = b ? (1ull << (b - 1)) | (r.next() & low_mask(b - 1)) : 0; break; } // few exact lengths
    case 7: x = r.below(50) ? r.next() & low_mask(std::min(w, 3u)) : r.next() & low_mask(w); break;              // rare long ones
    default: x = r.below(4) ? 0 : r.value(w);
  }
  if (what) *what = "ints(mode " + show(mode) + ", n " + show(n) + ", w " + show(w) + ")";
  return v;
}

// byte strings: random over small or full alphabets, periodic, Fibonacci/Thue-Morse, constant, copies with edits
inline std::string text(Rng& r, size_t n, bool nul = true, std::string* what = nullptr) {
  std::string s;
  s.reserve(n);
  int mode = r.below(12);
  unsigned sigma = r.pick<unsigned>({1, 2, 2, 3, 4, 8, 26, 256});
  std::string alpha;
  for (unsigned i = 0; i < sigma; i++) {
    char c;
    switch (sigma == 256 ? 3 : r.below(4)) {
      case 0: c = char('a' + i % 26); break;
      case 1: c = r.pick<char>({char(0), char(1), char(0x7f), char(0x80), char(0xfe), char(0xff), 'a', 'b'}); break;
      case 2: c = char(0x80 + r.below(128)); break;
      default: c = sigma == 256 ? char(i) : char(r.below(256));
    }
    if (!nul && c == 0) c = 'z';
    alpha += c;
  }
  switch (mode) {
    case 0: s.assign(n, alpha[0]); break;
    case 1: case 2: { // periodic with optional defect
      size_t p = 1 + r.below(r.coin() ? 4 : std::max<size_t>(1, n / 2));
      std::string u; for (size_t i = 0; i < p; i++) u += alpha[r.below(alpha.size())];
      while (s.size() < n) s += u;
      s.resize(n);
      if (n && r.coin()) s[r.below(n)] = alpha[r.below(alpha.size())];
      break;
    }
    case 3: { // Fibonacci word
      std::string a(1, alpha[0]), b(1, alpha[alpha.size() - 1]);
      while (b.size() < n) { std::string c = b + a; a = b; b = c; }
      s = b.substr(0, n);
      break;
    }
    case 4: for (size_t i = 0; i < n; i++) s += alpha[__builtin_popcountll(i) % 2 ? 0 : alpha.size() - 1]; break; // Thue-Morse
    case 5: case 6: { // repeated copies of earlier substrings
      while (s.size() < n) {
        if (s.size() > 2 && r.below(3)) { size_t i = r.below(s.size()), l = 1 + r.below(std::min<size_t>(s.size() - i, 40)); s += s.substr(i, l); }
        else s += alpha[r.below(alpha.size())];
      }
      s.resize(n);
      break;
    }
    case 7: { // long runs
      while (s.size() < n) { size_t l = 1 + r.below(1 + n / 3); s.append(l, alpha[r.below(alpha.size())]); }
      s.resize(n);
      break;
    }
    case 8: for (size_t i = 0; i < n; i++) s += alpha[i % alpha.size()]; break;
    default: for (size_t i = 0; i < n; i++) s += alpha[r.below(alpha.size())];
  }
  if (what) *what = "text(mode " + show(mode) + ", sigma " + show(sigma) + ", n " + show(n) + ") " + show_str(s, 60);
  return s;
}

// heap copy with no byte after the end, so that any overrun hits a red zone
struct Exact {
  char* p; size_t n;
  explicit Exact(std::string_view s) : p((char*)malloc(s.size() ? s.size() : 1)), n(s.size()) { if (n) memcpy(p, s.data(), n); }
  ~Exact() { free(p); }
  Exact(const Exact&) = delete;
  std::string_view sv() const { return {p, n}; }
};

// Random-access iterators as a machine: a random program of every operator of the category moves one iterator over
// [0, n] and after each step its position, its order against a second iterator and what it designates are compared
// with plain index arithmetic. at(i) makes an iterator at i, val(i) is the element expected there.
template <class It, class = void> struct plus_left : std::false_type {};
template <class It> struct plus_left<It, std::void_t<decltype(std::declval<size_t>() + std::declval<const It&>())>> : std::true_type {};
template <class It, class T, class At, class Val>
void iter_walk(Ctx& ctx, const std::string& tag, size_t n, At at, Val val, int steps = 12) {
  Rng& r = ctx.rng;
  size_t p = r.below(n + 1), q = r.below(n + 1);
  It it = at(p), jt = at(q);
  std::string tr = "from " + show(p);
  auto see = [&](const char* what, const It& x, size_t e) {
    if (!(x == at(e)) || x != at(e) || (long long)(x - at(0)) != (long long)e)
      fail(tag + ".walk_position", tag + ": iterator after " + what + " is at " + show((long long)(x - at(0))) + " instead of " + show(e) + " of " + show(n) + "; " + tr);
    if (e < n && !(T(*x) == T(val(e)))) fail(tag + ".walk_value", tag + ": iterator after " + what + " designates another element than " + show(e) + " of " + show(n) + "; " + tr);
  };
  for (int s = 0; s < steps; s++) {
    size_t t = r.chance(1, 8) ? p : r.chance(1, 3) ? std::min(n, (p + r.below(4)) - std::min<size_t>(p, r.below(4))) : r.below(n + 1);
    long long d = (long long)t - (long long)p;
    int op = r.below(12);
    tr += ' ' + show(op) + ':' + show(t);
    switch (op) {
      case 0: it += d; p = t; break;
      case 1: it -= -d; p = t; break;
      case 2: { It k = it + d; see("it + d", k, t); break; }
      case 3: { It k = it - (-d); see("it - d", k, t); break; }
      case 4: if constexpr (plus_left<It>::value) { It k = size_t(t) + at(0); see("n + begin", k, t); if (d >= 0) { It l = size_t(d) + it; see("d + it", l, t); } } break;
      case 5: if (p < n) { It k(it); It& l = ++k; if (&l != &k) fail(tag + ".walk_result", tag + ": ++it is not it"); see("++", k, p + 1); see("copied", it, p); ++it; ++p; } break;
      case 6: if (p < n) { It k(it); see("value of it++", k++, p); see("it++", k, p + 1); } break;
      case 7: if (p > 0) { It k(it); It& l = --k; if (&l != &k) fail(tag + ".walk_result", tag + ": --it is not it"); see("--", k, p - 1); } break;
      case 8: if (p > 0) { It k(it); see("value of it--", k--, p); see("it--", k, p - 1); } break;
      case 9: if (t < n && !(T(it[d]) == T(val(t)))) fail(tag + ".walk_index", tag + ": it[" + show(d) + "] at " + show(p) + " of " + show(n) + " designates another element"); break;
      case 10: if constexpr (std::is_copy_assignable<It>::value) { It k = at(t); k = it; see("assignment", k, p); if (k != it) fail(tag + ".walk_assigned", tag + ": assigned iterators differ"); std::swap(it, jt); std::swap(p, q); see("swap", it, p); see("swap", jt, q); } break;
      default: if constexpr (std::is_default_constructible<It>::value && std::is_copy_assignable<It>::value) { It k; k = it; see("assignment to a fresh one", k, p); It l = std::move(k); see("move", l, p); }
    }
    see("step", it, p);
    bool lt = it < jt, gt = it > jt, le = it <= jt, ge = it >= jt, eq = it == jt, ne = it != jt;
    if (lt != (p < q) || gt != (p > q) || le != (p <= q) || ge != (p >= q) || eq != (p == q) || ne != (p != q) || (long long)(it - jt) != (long long)p - (long long)q)
      fail(tag + ".walk_order", tag + ": order of iterators at " + show(p) + " and " + show(q) + " of " + show(n) + "; " + tr);
    if ((it < it) || (it > it) || !(it <= it) || !(it >= it)) fail(tag + ".walk_order", tag + ": an iterator at " + show(p) + " compared with itself");
  }
  ctx.counters[tag + ".walk_steps"] += steps;
}
// a mutable iterator turned into a constant one, by construction and by assignment
template <class CI, class I> void iter_const(const std::string& tag, const I& it, const CI& expect, const CI& other) {
  CI a = it, b = other;
  if (!(a == expect)) fail(tag + ".walk_const", tag + ": a constant iterator made of a mutable one is elsewhere");
  b = it;
  if (!(b == expect)) fail(tag + ".walk_const", tag + ": a mutable iterator assigned to a constant one leaves it elsewhere");
}

inline u64 digest(u64 h, u64 v) { return mix(h ^ (v + 0x9e37)); }
}  // namespace gen
#endif
