// C21: every serialisable structure, written and read back.
#if PART == 1
#define ZOO_GROUPS 1
#elif PART == 2
#define ZOO_GROUPS 2
#elif PART == 3
#define ZOO_GROUPS 4
#else
#define ZOO_GROUPS 7
#endif
#include "zoo.hpp"
using namespace zoo;

static const Species& pick(Ctx& ctx) { auto& s = species(); auto& x = s[ctx.index % s.size()]; ctx.in(x.name); return x; }
// byte offset of an input stream
static size_t pos(std::istream& is) { return is.good() ? (size_t)is.tellg() : SIZE_MAX; }

SCENARIO(io_roundtrip, 1200) {
  Rng& r = ctx.rng;
  auto& s = pick(ctx);
  size_t max = r.pick<size_t>({200, 600, 2000, 2000, 8000});
  auto a = s.make(r.next(), max);
  if (r.coin()) a->change(r.next());
  V e = a->answers();
  std::string b = a->bytes();
  same("io.write_alters", *a, e, "after writing");
  if (a->bytes() != b) fail(std::string("io.bytes_repeat:") + s.name, "a second writing differs");
  std::string pre(r.below(9), 'p'), post(1 + r.below(9), '\xcc');
  for (int how = 0; how < 2; how++) {
    std::istringstream is(pre + b + post);
    is.seekg(pre.size());
    std::unique_ptr<Animal> c;
    if (how == 0) c = a->fresh(is);
    else { c = s.make(r.next(), r.pick<size_t>({10, 300, 9000})); if (r.coin()) c->change(r.next()); c->read(is, *a); }
    EQX("io.consumed", pos(is), pre.size() + b.size(), std::string(s.name) + (how ? " into a used object" : " into a fresh object"));
    same(how ? "io.answers_used" : "io.answers_fresh", *c, e, "after reading");
    std::string b2 = c->bytes();
    if (b2 != b) fail(std::string("io.bytes_again:") + s.name, "the restored object writes " + show(b2.size()) + " bytes that differ from the " + show(b.size()) + " read");
    same("io.answers_after_rewrite", *c, e, "after writing again");
    if (a->changes()) {   // the restored object keeps working
      auto d = a->copy();
      u64 seed = r.next();
      d->change(seed);
      c->change(seed);
      same("io.live", *c, d->answers(), "changed after reading");
      ctx.event("io.changed_after_reading");
    }
    ctx.event("io.roundtrips");
    ctx.event("io.answers", e.size());
  }
  same("io.source", *a, e, "at the end");
  ctx.event("io.bytes", b.size());
  for (u64 x : e) ctx.in(x);
  ctx.nontrivial(b.size() > 100);
  ctx.describe(std::string(s.name) + ", " + show(b.size()) + " bytes, " + show(e.size()) + " answers");
}
SCENARIO(io_chain, 100) {  // several structures one after another in one stream
  Rng& r = ctx.rng;
  std::vector<std::unique_ptr<Animal>> as;
  std::vector<V> es;
  std::stringstream io;
  size_t n = 2 + r.below(5);
  std::string what;
  for (size_t i = 0; i < n; i++) {
    auto& s = species()[r.below(species().size())];
    as.push_back(s.make(r.next(), 600));
    es.push_back(as.back()->answers());
    as.back()->write(io);
    what += std::string(" ") + s.name;
    ctx.in(s.name);
  }
  std::vector<std::unique_ptr<Animal>> bs;
  for (size_t i = 0; i < n; i++) bs.push_back(as[i]->fresh(io));
  for (size_t i = 0; i < n; i++) { same("io.chain", *bs[i], es[i], "in the chain" + what); for (u64 x : es[i]) ctx.in(x); }
  OK("io.chain_end", io.peek() == EOF, "bytes left over in" + what);
  ctx.event("io.chains");
  ctx.nontrivial();
  ctx.describe(what);
}
// a pipe: bytes pass in small pieces, nothing can be repositioned or asked for its position
struct Pipe : std::streambuf {
  std::string s;
  size_t at = 0, piece;
  char ob[13], ib[64];
  Pipe(size_t piece) : piece(piece) { setp(ob, ob + sizeof ob); }
  int sync() override { s.append(pbase(), pptr()); setp(ob, ob + sizeof ob); return 0; }
  int overflow(int c) override { sync(); if (c != EOF) { *pptr() = char(c); pbump(1); } return 0; }
  int underflow() override {
    sync();
    size_t n = std::min({piece, s.size() - at, sizeof ib});
    if (n == 0) return EOF;
    memcpy(ib, s.data() + at, n); at += n; setg(ib, ib, ib + n);
    return (unsigned char)ib[0];
  }
  size_t left() { sync(); return s.size() - at + size_t(egptr() - gptr()); }
};
SCENARIO(io_pipe, 120) {
  Rng& r = ctx.rng;
  Pipe p(1 + r.below(64));
  std::iostream io(&p);
  io.exceptions(std::ios::badbit | std::ios::failbit | std::ios::eofbit);   // reading exactly to the end is not reading past it
  if (r.coin()) { io << std::hex << std::showbase << std::boolalpha; io.width(5); io.fill('#'); io.precision(2); }
  auto& first = pick(ctx);
  for (int k = 0; k < 3; k++) {   // written, read empty, written again
    auto& s = k == 1 ? species()[r.below(species().size())] : first;
    auto a = s.make(r.next(), r.pick<size_t>({100, 600, 3000})), b = s.make(r.next(), 200);
    if (r.coin()) a->change(r.next());
    V e = a->answers(), f = b->answers();
    std::string want = a->bytes() + b->bytes();
    a->write(io); b->write(io);
    p.sync();
    if (p.s.substr(p.s.size() - std::min(p.s.size(), want.size())) != want) fail(std::string("io.pipe.bytes:") + s.name, "a stream with other formatting, or without positions, gets other bytes");
    std::unique_ptr<Animal> c = a->fresh(io), d;
    if (r.coin()) d = b->fresh(io); else { d = s.make(r.next(), 400); d->read(io, *b); }
    OK("io.pipe.state", io.good(), std::string(s.name) + ": the stream is not good after reading all of it");
    EQX("io.pipe.left", p.left(), (size_t)0, s.name);
    same("io.pipe", *c, e, "read from a pipe");
    same("io.pipe", *d, f, "read from a pipe");
    for (u64 x : e) ctx.in(x);
    ctx.event("io.pipes");
  }
  ctx.nontrivial();
}
SCENARIO(io_parts, 200) {  // the strings, values and vectors the structures are made of
  Rng& r = ctx.rng;
  std::string s = gen::text(r, ctx.index % 10 == 9 ? 65000 + r.below(3000) : r.size(3000));
  std::vector<u8> b; std::vector<uint16_t> h; std::vector<u64> w;
  for (u64 n = r.size(2000); n--;) b.push_back(r.next());
  for (u64 n = ctx.index % 10 == 8 ? 65000 + r.below(3000) : r.size(300); n--;) h.push_back(r.next());
  for (u64 n = ctx.index % 10 == 7 ? 65000 + r.below(3000) : r.size(300); n--;) w.push_back(r.next());
  u64 x = r.next(); uint16_t y = r.next(); double z = double(r.next()) / 3;
  std::stringstream io;
  sim_ds::write_string(s, io); sim_ds::write_val(x, io); sim_ds::write_vec(b, io); sim_ds::write_val(y, io); sim_ds::write_vec(w, io); sim_ds::write_val(z, io); sim_ds::write_vec(h, io); sim_ds::write_string(s, io);
  EQ("io.parts.size", sim_ds::size_vec(w), w.size() * 8 + 8);
  std::vector<u8> b2(r.below(50), 1); std::vector<uint16_t> h2(r.below(50), 1); std::vector<u64> w2(r.below(500), 1);
  OK("io.parts", sim_ds::read_string(io) == s, "string of " + show(s.size()) + " bytes");
  EQ("io.parts.value", sim_ds::read_val<u64>(io), x);
  sim_ds::read_vec(io, b2); OK("io.parts", b2 == b, "bytes");
  EQ("io.parts.value", sim_ds::read_val<uint16_t>(io), y);
  sim_ds::read_vec(io, w2); OK("io.parts", w2 == w, "words");
  EQ("io.parts.value", sim_ds::read_val<double>(io), z);
  sim_ds::read_vec(io, h2); OK("io.parts", h2 == h, "half words");
  OK("io.parts", sim_ds::read_string(io) == s, "string of " + show(s.size()) + " bytes");
  OK("io.parts", io.peek() == EOF, "bytes left over");
  ctx.in(s); ctx.in(x);
  ctx.event("io.parts");
  ctx.nontrivial(s.size() && w.size());
}
SCENARIO(io_large, 6) {
  Rng& r = ctx.rng;
  auto& s = pick(ctx);
  auto a = s.make(r.next(), ctx.sanitized ? 20000 : strstr(s.name, "Samc") ? 120000 : r.pick<size_t>({120000, 120000, 600000, 600000, 3000000}));   // texts of max/16 bytes
  V e = a->answers();
  std::istringstream is(a->bytes());
  auto c = a->fresh(is);
  same("io.answers_fresh", *c, e, "after reading");
  for (u64 x : e) ctx.in(x);
  ctx.event("io.roundtrips");
  ctx.nontrivial(e.size() > 100);
}
SCENARIO(io_same_bytes_over_dirty_heap, 60) {  // what is written does not depend on what the memory held before
  Rng& r = ctx.rng;
  auto& s = pick(ctx);
  u64 seed = r.next();
  std::string first;
  for (int k = 0; k < 3; k++) {
    { std::vector<std::unique_ptr<char[]>> dirt; for (int z = 0; z < 60; z++) { size_t n = 16ull << r.below(9); dirt.emplace_back(new char[n]); memset(dirt.back().get(), int(r.below(256)), n); } }
    auto a = s.make(seed, 1500);
    std::string b = a->bytes();
    if (k == 0) first = b; else if (b != first) fail(std::string("io.bytes_deterministic:") + s.name, "two objects built alike write different bytes");
  }
  ctx.in(seed);
  ctx.event("io.rebuilt");
  ctx.nontrivial(first.size() > 100);
}
#if PART == 1
SCENARIO(io_round_sizes, 30) {  // data of exactly 2^k or 3 * 2^k bytes, or one element more or less
  Rng& r = ctx.rng;
  unsigned k = r.below(ctx.sanitized ? 18 : 23);
  size_t bytes = (r.chance(1, 4) ? size_t(3) : size_t(1)) << k;
  int off = r.coin() ? 0 : r.coin() ? 1 : -1;
  auto count = [&](size_t unit) { return size_t(std::max<long long>(0, (long long)(bytes / unit) + off)); };
  std::stringstream io;
  std::vector<u8> b(count(1)); for (auto& x : b) x = r.next();
  std::vector<uint16_t> h(count(2)); for (auto& x : h) x = r.next();
  std::vector<uint32_t> q(count(4)); for (auto& x : q) x = r.next();
  std::vector<u64> w(count(8)); for (auto& x : w) x = r.next();
  std::string s(b.begin(), b.end());
  size_t width = r.pick<size_t>({64, 32, 16, 8, 1, 1 + r.below(64)}), fn = size_t(std::max<long long>(0, (long long)(bytes * 8 / width) + off));
  FitVector f(width, fn);
  for (size_t i = 0; i < std::min<size_t>(fn, 5000); i++) f[fn - 1 - i] = r.next() & low_mask(width);
  BitVector v(bytes * 8 + off);
  for (size_t i = 0; i < std::min<size_t>(v.size(), 5000); i++) v[v.size() - 1 - i] = r.coin();
  SuccinctBitVector<true> sb(v);
  sim_ds::write_vec(b, io); sim_ds::write_vec(h, io); sim_ds::write_vec(q, io); sim_ds::write_vec(w, io); sim_ds::write_string(s, io);
  f.Write(io); v.Write(io); sb.Write(io);
  decltype(b) b2(r.below(9)); decltype(h) h2; decltype(q) q2(r.below(9)); decltype(w) w2;
  std::string note = show(bytes) + " bytes " + (off ? off > 0 ? "and one element" : "less one element" : "exactly");
  sim_ds::read_vec(io, b2); OK("io.round", b2 == b, "bytes, " + note);
  sim_ds::read_vec(io, h2); OK("io.round", h2 == h, "half words, " + note);
  sim_ds::read_vec(io, q2); OK("io.round", q2 == q, "32-bit words, " + note);
  sim_ds::read_vec(io, w2); OK("io.round", w2 == w, "words, " + note);
  OK("io.round", sim_ds::read_string(io) == s, "string, " + note);
  FitVector f2(io); EQ("io.round.size", f2.size(), f.size());
  for (size_t i = 0; i < std::min<size_t>(fn, 6000); i++) EQX("io.round", (u64)f2[fn - 1 - i], (u64)f[fn - 1 - i], "packed vector, " + note);
  BitVector v2; v2.Read(io); EQ("io.round.size", v2.size(), v.size());
  for (size_t i = 0; i < std::min<size_t>(v.size(), 6000); i++) EQX("io.round", (bool)v2[v.size() - 1 - i], (bool)v[v.size() - 1 - i], "bit vector, " + note);
  SuccinctBitVector<true> s2(io); EQ("io.round.size", s2.size(), v.size());
  for (size_t i = 0; i < std::min<size_t>(v.size(), 300); i++) { size_t at = r.coin() ? v.size() - 1 - i : r.below(v.size()); EQX("io.round", s2.rank(at), sb.rank(at), "rank, " + note); EQX("io.round", (bool)s2[at], (bool)v[at], "succinct bits, " + note); }
  OK("io.round", io.peek() == EOF, "bytes left over");
  ctx.in(bytes); ctx.in(off);
  ctx.event("io.round_sizes");
  ctx.nontrivial(bytes > 64);
  ctx.describe(note);
}
// a stream that keeps what is written to it as runs of equal blocks: holds gigabytes of a mostly constant structure
struct Runs : std::streambuf {
  struct Run { size_t n; std::string b; };
  std::vector<Run> runs; size_t at = 0, rep = 0, off = 0, total = 0;
  void add(const char* p, size_t n) {
    if (!runs.empty() && runs.back().b.size() == n && memcmp(runs.back().b.data(), p, n) == 0) runs.back().n++;
    else runs.push_back({1, std::string(p, n)});
  }
  std::streamsize xsputn(const char* p, std::streamsize n) override {
    total += n;
    std::streamsize i = 0;
    for (; i + 65536 <= n; i += 65536) add(p + i, 65536);
    if (i < n) add(p + i, n - i);
    return n;
  }
  int_type overflow(int_type c) override { char x = c; xsputn(&x, 1); return c; }
  std::streamsize xsgetn(char* p, std::streamsize n) override {
    std::streamsize done = 0;
    while (done < n && at < runs.size()) {
      size_t k = std::min<size_t>(n - done, runs[at].b.size() - off);
      memcpy(p + done, runs[at].b.data() + off, k);
      done += k; off += k;
      if (off == runs[at].b.size()) { off = 0; if (++rep == runs[at].n) rep = 0, at++; }
    }
    return done;
  }
  bool done() const { return at == runs.size(); }
};
SCENARIO(io_beyond32, .1) {   // sizes that do not fit 32 bits
  if (ctx.sanitized) return;
  Rng& r = ctx.rng;
  size_t n = (size_t(1) << 32) + 500 + r.below(5000);
  for (int k = 0; k < 3; k++) {
    Runs runs; std::ostream os(&runs); std::istream is(&runs);
    std::map<size_t, u64> m;
    auto where = [&] { return r.coin() ? r.below(n) : n - 1 - r.below(400); };
    auto look = [&](auto& b, const char* what) {
      EQX("io.beyond32.size", (u64)b.size(), (u64)n, what);
      for (auto& [p, v] : m) { EQX("io.beyond32", (u64)b[p], v, std::string(what) + " at " + show(p)); size_t q = p ^ 1, z = p & 0xffffffff; if (!m.count(q) && q < n) EQX("io.beyond32", (u64)b[q], 0u, std::string(what) + " at " + show(q)); if (!m.count(z)) EQX("io.beyond32", (u64)b[z], 0u, std::string(what) + " at " + show(z)); }
    };
    if (k == 0) {
      { FitVector f(1, n); for (int q = 0; q < 200; q++) { size_t p = where(); f[p] = 1; m[p] = 1; } f.Write(os); }
      FitVector g(is); look(g, "FitVector");
    } else {
      BitVector b(n); for (int q = 0; q < 200; q++) { size_t p = where(); b[p] = true; m[p] = 1; }
      if (k == 1) { b.Write(os); b = BitVector(); b.Read(is); look(b, "BitVector"); }
      else {
        { SuccinctBitVector<true> s(std::move(b)); s.Write(os); }
        SuccinctBitVector<true> s(is);
        look(s, "SuccinctBitVector");
        size_t c = 0;
        for (auto& [p, v] : m) { EQX("io.beyond32.rank", s.rank(p), c, "at " + show(p)); EQX("io.beyond32.select", s.select(c), p, "of " + show(c)); c++; }
      }
    }
    OK("io.beyond32.end", runs.done(), "bytes left over");
    ctx.event("io.roundtrips"); ctx.event("io.bytes", runs.total);
  }
  ctx.in(n); ctx.nontrivial();
}
#endif
#include "main.inc"
