// Monitor runtime shared by every harness: seeded cases, oracle macros, watchdog,
// progress record (so that a crash or hang is attributed to its case), evidence counters.
#ifndef VERIF_MON_HPP
#define VERIF_MON_HPP

#include <bits/stdc++.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

namespace mon {

using u8 = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;

inline u64 mix(u64 z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

inline u64 hash_str(std::string_view s) {
  u64 h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

inline u64 low_mask(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }

struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(seed) {}
  using result_type = u64;
  static constexpr u64 min() { return 0; }
  static constexpr u64 max() { return ~0ull; }
  u64 operator()() { return next(); }
  u64 next() { s += 0x9e3779b97f4a7c15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }               // [0,n)
  u64 range(u64 lo, u64 hi) { return lo + below(hi - lo + 1); } // [lo,hi]
  bool chance(u64 num, u64 den) { return below(den) < num; }
  bool coin() { return next() >> 63; }
  template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
  template <class C> auto& choose(C& c) { return c[below(c.size())]; }
  // a value of at most w bits, edges preferred
  u64 value(unsigned w) {
    if (w == 0) return 0;
    u64 m = low_mask(w);
    switch (below(8)) {
      case 0: return 0;
      case 1: return m;
      case 2: return 1ull << below(w);
      case 3: return m >> below(w);
      case 4: return next() & next() & next() & m;
      case 5: return (next() | next() | next()) & m;
      case 6: return next() & low_mask(unsigned(1 + below(w)));
      default: return next() & m;
    }
  }
  // a size near a structural boundary of the packed representations
  size_t size(size_t max) {
    switch (below(8)) {
      case 0: return below(std::min<size_t>(max, 4) + 1);
      case 1: return below(std::min<size_t>(max, 70) + 1);
      case 2: case 3: {
        size_t unit = pick<size_t>({8, 32, 64, 64, 128, 256, 512, 512, 4096});
        size_t k = below(max / unit + 1);
        long long v = (long long)(k * unit) + (long long)below(5) - 2;
        if (v < 0) v = 0;
        return std::min<size_t>(max, (size_t)v);
      }
      case 4: return below(std::min<size_t>(max, 600) + 1);
      case 5: {
        if (coin()) return below(std::min<size_t>(max, 5000) + 1);
        unsigned top = 0; while (max >> (top + 1)) top++;           // around a power of two, the large ones preferred
        size_t v = size_t(1) << (top - below(std::min(top, 6u) + 1));
        return std::min<size_t>(max, coin() ? v : v + below(5) - std::min<size_t>(v, 2));
      }
      default: return below(max + 1);
    }
  }
};

struct Violation : std::exception {
  std::string key, msg;
  Violation(std::string k, std::string m) : key(std::move(k)), msg(std::move(m)) {}
  const char* what() const noexcept override { return msg.c_str(); }
};

template <class T> std::string show(const T& v);
template <class T> struct is_strlike : std::bool_constant<std::is_convertible_v<const T&, std::string_view>> {};
inline std::string show_str(std::string_view s, size_t lim = 200) {
  std::string o = "\"";
  for (size_t i = 0; i < s.size() && i < lim; i++) {
    unsigned char c = s[i];
    if (c >= 32 && c < 127 && c != '"' && c != '\\') o += char(c);
    else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
  }
  o += '"';
  if (s.size() > lim) o += "...(" + std::to_string(s.size()) + ")";
  return o;
}
template <class T> std::string show(const T& v) {
  if constexpr (is_strlike<T>::value) return show_str(v);
  else if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
  else if constexpr (std::is_arithmetic_v<T>) return std::to_string(v);
  else if constexpr (std::is_convertible_v<const T&, u64>) return std::to_string((u64)v);
  else if constexpr (std::is_pointer_v<T>) return v ? "ptr" : "null";
  else return "<value>";
}
template <class C> std::string show_seq(const C& c, size_t lim = 24) {
  std::string o = "[";
  size_t i = 0;
  for (const auto& x : c) {
    if (i == lim) { o += " ..."; break; }
    if (i++) o += ' ';
    o += show(x);
  }
  return o + "]#" + std::to_string(c.size());
}

struct Ctx {
  Rng rng;
  std::string scenario;
  u64 index = 0;
  bool thorough = false;
  bool sanitized = false;   // heavier build: scenarios may shrink huge sizes
  u64 sig = 0;
  bool nontriv = false;
  std::string desc;
  std::map<std::string, u64>& counters;
  Ctx(u64 seed, std::map<std::string, u64>& c) : rng(seed), counters(c) {}
  void in(u64 v) { sig = mix(sig ^ v); }
  void in(std::string_view v) { sig = mix(sig ^ hash_str(v)); }
  void nontrivial(bool b = true) { nontriv = nontriv || b; }
  void event(const char* name, u64 n = 1) { counters[name] += n; }
  void describe(std::string s) { desc = std::move(s); }
  // a result that every build must reproduce for this case
  std::map<std::string, u64> records;
  void record(const std::string& label, u64 v) { u64& d = records[label]; d = mix(d ^ (v + 0x51ed)); }
};

using Fn = void (*)(Ctx&);
struct Scenario { const char* name; double cases; Fn fn; };
inline std::vector<Scenario>& registry() { static std::vector<Scenario> r; return r; }
struct Reg { Reg(const char* n, double c, Fn f) { registry().push_back({n, c, f}); } };
// cases: how many cases of this scenario one quick run of weight 1 executes
#define SCENARIO(name, cases) \
  static void scn_##name(mon::Ctx&); \
  static mon::Reg reg_##name(#name, cases, scn_##name); \
  static void scn_##name([[maybe_unused]] mon::Ctx& ctx)

[[noreturn]] inline void fail(std::string key, std::string msg) { throw Violation(std::move(key), std::move(msg)); }

template <class A, class B>
inline void check_eq(const char* key, const A& got, const B& exp, const char* file, int line, const std::string& extra = "") {
  if (!(got == exp))
    fail(key, std::string(key) + ": got " + show(got) + ", expected " + show(exp) + (extra.empty() ? "" : " (" + extra + ")") + " at " + file + ":" + std::to_string(line));
}
#define EQ(key, got, exp) mon::check_eq(key, got, exp, __FILE_NAME__, __LINE__)
#define EQX(key, got, exp, extra) do { auto&& g_ = (got); auto&& e_ = (exp); if (!(g_ == e_)) mon::check_eq(key, g_, e_, __FILE_NAME__, __LINE__, extra); } while (0)
#define OK(key, cond, extra) do { if (!(cond)) mon::fail(key, std::string(key) + ": " #cond " is false (" + std::string(extra) + ") at " __FILE_NAME__ ":" + std::to_string(__LINE__)); } while (0)
#ifndef __FILE_NAME__
#define __FILE_NAME__ __FILE__
#endif

// ---- run loop -------------------------------------------------------------

struct Progress { volatile u64 index; volatile u32 active; char scenario[116]; };
inline Progress*& progress() { static Progress* p = nullptr; return p; }
inline Progress& progress_fallback() { static Progress p; return p; }

inline void on_prof(int) {
  static const char m[] = "\nMON-HANG\n";
  (void)!write(2, m, sizeof m - 1);
  _exit(97);
}

inline void arm(int seconds) {
  itimerval t{};
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
}

inline std::string json_esc(std::string_view s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += char(c);
  }
  return o;
}

// Output of the code under test on std::cout/cerr is swallowed (by a buffer without state, so from any thread).
struct NullBuf : std::streambuf {
  int overflow(int c) override { return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
struct Mute {
  NullBuf n;
  std::streambuf *oc, *oe;
  Mute() : oc(std::cout.rdbuf(&n)), oe(std::cerr.rdbuf(&n)) {}
  ~Mute() { std::cout.rdbuf(oc); std::cerr.rdbuf(oe); }
};

inline int run_main(int argc, char** argv) {
  u64 seed = 1, shard = 0, shards = 1;
  double scale = 1;
  std::string out, prog, only, skip;
  bool thorough = false, sanitized = false;
  int cpu = 20;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&] { return std::string(argv[++i]); };
    if (a == "--seed") seed = std::stoull(val());
    else if (a == "--shard") shard = std::stoull(val());
    else if (a == "--shards") shards = std::stoull(val());
    else if (a == "--scale") scale = std::stod(val());
    else if (a == "--out") out = val();
    else if (a == "--progress") prog = val();
    else if (a == "--only") only = val();
    else if (a == "--skip") skip = val();
    else if (a == "--thorough") thorough = true;
    else if (a == "--sanitized") sanitized = true;
    else if (a == "--cpu") cpu = std::stoi(val());
    else if (a == "--list") { for (auto& s : registry()) printf("%s %g\n", s.name, s.cases); return 0; }
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
  }
  progress() = &progress_fallback();
  if (!prog.empty()) {
    int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Progress))) { perror("progress"); return 2; }
    void* m = mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (m == MAP_FAILED) { perror("mmap"); return 2; }
    progress() = (Progress*)m;
    close(fd);
  }
  signal(SIGPROF, on_prof);
  std::set<std::pair<std::string, u64>> skips;
  if (!skip.empty()) {
    std::ifstream f(skip);
    std::string n; u64 i;
    while (f >> n >> i) skips.insert({n, i});
  }
  std::map<std::string, u64> counters;
  std::map<std::string, u64> evals;
  std::unordered_set<u64> distinct;
  std::vector<std::string> samples;
  std::vector<std::array<std::string, 4>> violations;
  std::map<std::string, int> vkeys;
  u64 nviol = 0;

  auto flush = [&](bool complete) {
    if (out.empty()) return;
    std::ofstream f(out + ".tmp");
    f << "{\"complete\":" << (complete ? "true" : "false") << ",\"evals\":{";
    bool first = true;
    for (auto& [k, v] : evals) { f << (first ? "" : ",") << "\"" << k << "\":" << v; first = false; }
    f << "},\"counters\":{";
    first = true;
    for (auto& [k, v] : counters) { f << (first ? "" : ",") << "\"" << json_esc(k) << "\":" << v; first = false; }
    f << "},\"samples\":[";
    first = true;
    for (auto& s : samples) { f << (first ? "" : ",") << "\"" << json_esc(s) << "\""; first = false; }
    f << "],\"violations\":[";
    first = true;
    for (auto& v : violations) {
      f << (first ? "" : ",") << "{\"key\":\"" << json_esc(v[0]) << "\",\"scenario\":\"" << v[1] << "\",\"index\":" << v[2] << ",\"msg\":\"" << json_esc(v[3]) << "\"}";
      first = false;
    }
    f << "]}\n";
    f.close();
    rename((out + ".tmp").c_str(), out.c_str());
    std::ofstream h(out + ".hash", std::ios::binary);
    for (u64 x : distinct) h.write((const char*)&x, 8);
  };

  std::string only_s;
  u64 only_i = 0;
  if (!only.empty()) {
    auto p = only.rfind(':');
    only_s = only.substr(0, p);
    only_i = std::stoull(only.substr(p + 1));
  }

  std::ofstream rec;
  bool stop = false;
  for (auto& s : registry()) {
    if (stop) break;
    if (!only.empty() && only_s != s.name) continue;
    u64 n = (u64)std::max(1.0, std::ceil(s.cases * scale));
    u64 lo = 0, hi = n;
    if (!only.empty()) { lo = only_i; hi = only_i + 1; }
    // successive scenarios start on different shards, so small counts spread out
    u64 rot = hash_str(s.name);
    int seen = 0;
    for (u64 i = lo; i < hi && !stop; i++) {
      if (only.empty()) {
        if ((i + rot) % shards != shard) continue;
        if (skips.count({s.name, i})) { continue; }
      }
      Ctx c(mix(mix(seed) ^ hash_str(s.name) ^ mix(i + 0x1234567)), counters);
      c.scenario = s.name;
      c.index = i;
      c.thorough = thorough;
      c.sanitized = sanitized;
      c.sig = hash_str(s.name);
      auto* p = progress();
      p->index = i;
      strncpy(p->scenario, s.name, sizeof p->scenario - 1);
      p->active = 1;
      arm(cpu);
      std::string key, msg;
      {
        Mute mute;
        try {
          s.fn(c);
        } catch (const Violation& v) {
          key = v.key; msg = v.msg;
        } catch (const std::exception& e) {
          key = std::string("exception:") + s.name;
          msg = std::string("unexpected exception: ") + e.what();
        } catch (...) {
          key = std::string("exception:") + s.name;
          msg = "unexpected exception of unknown type";
        }
      }
      arm(0);
      p->active = 0;
      if (!c.records.empty()) {
        if (!rec.is_open() && !out.empty()) rec.open(out + ".rec");
        for (auto& [l, v] : c.records) { rec << s.name << '\t' << i << '\t' << l << '\t' << v << '\n'; if (out.empty()) printf("RECORD %s %llu\n", l.c_str(), (unsigned long long)v); }
      }
      evals[s.name]++;
      if (c.nontriv) distinct.insert(c.sig);
      if (!c.desc.empty() && seen < 1 && c.nontriv) { samples.push_back(std::string(s.name) + ":" + std::to_string(i) + " " + c.desc); seen++; }
      if (!key.empty()) {
        nviol++;
        if (vkeys[key]++ == 0) {
          violations.push_back({key, s.name, std::to_string(i), msg + (c.desc.empty() ? "" : " | " + c.desc)});
          if (!only.empty()) fprintf(stderr, "MON-VIOLATION %s\n  %s\n", key.c_str(), (msg + " | " + c.desc).c_str());
        }
        if (nviol >= 200) stop = true;
        flush(false);
      }
    }
  }
  flush(true);
  return nviol ? 1 : 0;
}

}  // namespace mon

#endif
