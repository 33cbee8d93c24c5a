// C06, C07, C08, C10: input that is not a valid stream, resets and buffers.
// Written once for both codecs.
#pragma once
#include "codec_common.h"
#include "v2_iface.h"
#include <cstdlib>

namespace rb {
using namespace cc;
using pbt::Failure;

// what a codec under test offers
struct Codec {
  const Schema *sc = nullptr;
  const br::Bridge *b = nullptr;
  std::function<V2Encoder *()> enc;
  std::function<V2Decoder *(mfast::allocator *)> dec;
  int no_absent_default = 1;
  const char *name = "";
};

// counts what it hands out; a total beyond the limit is a failure of the property
struct CountingAllocator : mfast::allocator {
  std::size_t total = 0, live = 0, limit, peak = 0;
  explicit CountingAllocator(std::size_t l) : limit(l) {}
  void add(std::size_t n) {
    live += n;
    if (live > peak) peak = live;
    if (n > limit || live > limit) throw Failure("decoding requests more than " + std::to_string(limit) + " bytes of memory");
  }
  void *allocate(std::size_t n) override {
    add(n);
    void *p = malloc(n ? n : 1);
    return p;
  }
  std::size_t reallocate(void *&p, std::size_t old, std::size_t n) override {
    std::size_t want = std::max<std::size_t>(64, n);
    add(want);
    live -= old;
    void *q = realloc(p, want);
    p = q;
    return want;
  }
  void deallocate(void *p, std::size_t n) override {
    live -= n;
    free(p);
  }
};

inline mfast::template_instruction *inst(const Codec &c, int t) { return const_cast<mfast::template_instruction *>(c.b->ti[t]); }

struct MsgObj {
  mfast::malloc_allocator alloc;
  mfast::message_type m;
  MsgObj(const Codec &c, const Msg &x) : m(&alloc, inst(c, x.tmpl)) { c.b->fill(m.ref(), c.sc->t[x.tmpl].f, x.f); }
  mfast::message_cref cref() { return m.cref(); }
};

inline std::string encode_vec(V2Encoder &e, const Codec &c, const Msg &m, bool reset, const char *doing = "encoding") {
  MsgObj o(c, m);
  std::vector<char> buf;
  br::must_not_throw([&] { e.encode(o.cref(), buf, reset); }, doing);
  return std::string(buf.data(), buf.size());
}

// a heap copy of exactly the given bytes
struct Exact {
  std::unique_ptr<char[]> p;
  std::size_t n;
  explicit Exact(const std::string &s) : p(new char[s.size()]), n(s.size()) { std::copy(s.begin(), s.end(), p.get()); }
};

inline void expect_msg(V2Decoder &d, const Codec &c, const std::string &bytes, const Msg &m, bool reset, const char *doing) {
  Exact in(bytes);
  const char *p = in.p.get();
  std::vector<V> got;
  br::must_not_throw([&] {
    mfast::message_cref r = d.decode(p, in.p.get() + in.n, reset);
    PBT_CHECK(r.id() == c.sc->t[m.tmpl].id, doing << ": the decoded message has template id " << r.id());
    c.b->extract(r, c.sc->t[m.tmpl].f, got);
  }, doing);
  PBT_CHECK(eqv(got, m.f), doing << ": decoded\n " << show(c.sc->t[m.tmpl].f, got, *c.sc) << "\n instead of\n " << show(m, *c.sc));
  PBT_CHECK(p == in.p.get() + in.n, doing << ": consumed " << (p - in.p.get()) << " of " << in.n << " bytes");
}

// ----------------------------------------------------------------------- C06
inline std::string mutate(Src &s, const std::string &in, std::size_t at) {
  std::string b = in;
  const std::size_t most = in.size() + 1000;
  if (s.chance(1, 10)) {
    std::size_t n = (std::size_t)s.range(0, s.coin() ? 12 : 100);
    b = b.substr(0, at);
    bool stop = s.coin();
    for (std::size_t k = 0; k < n; ++k) b += (char)(stop && s.coin() ? 0x80 | s.below(128) : s.below(256));
    return b;
  }
  unsigned ops = (unsigned)s.range(1, s.chance(1, 4) ? 8 : 2);
  static const unsigned char interesting[] = {0x00, 0x80, 0x7f, 0xff, 0x40, 0xc0, 0x81, 0x01, 0xbf, 0x3f, 0x82, 0xfe};
  for (unsigned k = 0; k < ops; ++k) {
    if (b.size() <= at) b += (char)0x80;
    std::size_t n = b.size(), i = at + (std::size_t)s.below(n - at);
    switch (s.weighted({4, 4, 2, 3, 3, 2, 3, 2})) {
    case 0: b[i] = (char)(b[i] ^ (1 << s.below(8))); break;
    case 1: b[i] = (char)interesting[s.below(sizeof interesting)]; break;
    case 2: b.resize(i); break;
    case 3: b.erase(i, 1 + (std::size_t)s.below(4)); break;
    case 4: b.insert(i, 1, (char)interesting[s.below(sizeof interesting)]); break;
    case 5: { // duplicate a piece
      std::string piece = b.substr(i, 1 + (std::size_t)s.below(12));
      b.insert(at + (std::size_t)s.below(n - at + 1), piece);
      break;
    }
    case 6: { // a huge or odd stop bit number
      std::string v;
      unsigned len = (unsigned)s.range(1, 12);
      for (unsigned j = 0; j < len; ++j) v += (char)(s.coin() ? 0x7f : s.below(128));
      v[v.size() - 1] = (char)(v.back() | 0x80);
      if (s.coin()) b.insert(i, v);
      else b.replace(i, std::min<std::size_t>(v.size(), b.size() - i), v);
      break;
    }
    default: b[i] = (char)s.below(256); break;
    }
    if (b.size() > most) b.resize(most);
  }
  return b;
}

inline void c06(Src &s, Case &c, const Codec &cd) {
  History h;
  h.sc = *cd.sc;
  HistOpt ho;
  ho.max_msgs = 5;
  ho.noncanon = s.coin();
  ho.resets = false;
  ho.go.absent_den = 4;
  gen_msgs(s, h, ho);
  describe(h, c);
  std::string all;
  std::vector<std::size_t> start;
  for (auto &b : h.bytes) {
    start.push_back(all.size());
    all += b;
  }
  // the messages before the mutated position stay as they are
  std::size_t at = start[s.below(start.size())];
  if (s.chance(1, 4)) at = 0;
  std::string b = mutate(s, all, at);
  c.mix(b);
  if (c.want_log) c.note("decoded bytes: " + pbt::hex(b) + "\nunchanged up to " + std::to_string(at));
  // in pieces or at once: a decoder gets the rest of the stream at each call
  Exact in(b);
  CountingAllocator alloc(96u << 20);
  std::unique_ptr<V2Decoder> d(cd.dec(&alloc));
  Decoder ref(h.sc);
  const char *p = in.p.get(), *end = p + in.n;
  bool claimed = true, fresh = true, reset = s.coin();
  unsigned n = 0, ok = 0;
  bool threw = false;
  while (p < end && n < 400) {
    const char *from = p;
    ++n;
    std::vector<V> got;
    int tmpl = -1;
    std::string what;
    bool t = br::throws([&] {
      mfast::message_cref m = d->decode(p, end, reset);
      tmpl = h.sc.find_id(m.id());
      if (tmpl < 0) throw Failure("decoded a message of the unknown template id " + std::to_string(m.id()));
      cd.b->extract(m, h.sc.t[tmpl].f, got);
    }, &what);
    if (!t) {
      PBT_CHECK(p >= from && p <= end, "the input position left the buffer");
      PBT_CHECK(p > from, "a message was decoded from no bytes");
      ++ok;
    }
    if (claimed) {
      std::size_t pos = (std::size_t)(from - in.p.get());
      try {
        ref.overlong_int = false;
        Msg r = ref.message(b, pos, reset);
        if (ref.overlong_int || pos - (std::size_t)(from - in.p.get()) > 100000) claimed = false;
        else {
          if (t) PBT_FAIL("a valid message at byte " << (from - in.p.get()) << " is rejected: " << what);
          PBT_CHECK(tmpl == r.tmpl && eqv(got, r.f), "message at byte " << (from - in.p.get()) << " decoded as\n "
                                                                       << show(h.sc.t[tmpl].f, got, h.sc) << "\n instead of\n " << show(r, h.sc));
          PBT_CHECK((std::size_t)(p - in.p.get()) == pos, "message at byte " << (from - in.p.get()) << " ends at " << pos
                                                                           << " but decoding stopped at " << (p - in.p.get()));
        }
      } catch (const RefError &e) {
        claimed = false;
        // without any template id before, a message without one cannot be decoded
        if (e.protocol && !ref.overlong_int) {
          if (!t) PBT_FAIL("the invalid message at byte " << (from - in.p.get()) << " (" << e.what() << ") is decoded as\n "
                                                          << show(h.sc.t[tmpl].f, got, h.sc));
        }
      }
    }
    reset = false;
    fresh = false;
    if (t) {
      threw = true;
      break;
    }
  }
  (void)fresh;
  c.sub = n;
  if (threw) c.label("ended with an exception");
  else c.label("decoded to the end");
  if (ok) c.label("some message decoded");
  c.nontrivial = h.msgs.size() > 0 && b != all && n > 0 && (threw || ok);
  // afterwards the decoder works after a forced reset
  HistOpt h2;
  h2.max_msgs = 2;
  h2.resets = false;
  History f;
  f.sc = h.sc;
  gen_msgs(s, f, h2);
  if (c.want_log)
    for (std::size_t k = 0; k < f.msgs.size(); ++k) c.note("afterwards: " + show(f.msgs[k], f.sc) + " " + pbt::hex(f.bytes[k]));
  for (std::size_t k = 0; k < f.msgs.size(); ++k)
    expect_msg(*d, cd, f.bytes[k], f.msgs[k], k == 0, threw ? "decoding with a forced reset after an error" : "decoding with a forced reset");
}

// ----------------------------------------------------------------------- C07
inline void c07(Src &s, Case &c, const Codec &cd) {
  Schema sc = *cd.sc;
  Encoder e(sc);
  e.vs = &s;
  if (s.coin()) e.ch = &s;
  unsigned pre = (unsigned)s.range(0, 5);
  std::vector<Msg> ms;
  std::vector<std::string> bs;
  for (unsigned k = 0; k < pre; ++k) {
    Msg m;
    std::string b;
    if (!gen_one(s, e, m, k == 0, b)) break;
    bs.push_back(b);
    ms.push_back(m);
  }
  bool trunc = s.chance(1, 4);
  std::string bad;
  Msg bm;
  if (trunc) {
    if (gen_one(s, e, bm, ms.empty(), bad)) e.bad = "end of input";
  } else {
    e.bad_kind = (int)s.weighted({1, 3, 3, 3});
    for (int tries = 0; tries < 6 && e.bad.empty(); ++tries) {
      e.bad_src = &s;
      e.bad_den = tries < 2 ? 3 : 1;
      bool done = gen_one(s, e, bm, ms.empty(), bad);
      e.bad_src = nullptr;
      if (!done) break;
      if (e.bad.empty()) {
        ms.push_back(bm);
        bs.push_back(bad);
      }
    }
  }
  for (auto &m : ms) c.mix(show(m, sc));
  c.mix(schema_xml(sc));
  c.mix(bad);
  if (c.want_log) {
    c.note(schema_xml(sc));
    for (std::size_t k = 0; k < ms.size(); ++k) c.note("#" + std::to_string(k) + " " + show(ms[k], sc) + "\n   ref: " + pbt::hex(bs[k]));
    c.note("then with the error \"" + e.bad + "\" in " + show(bm, sc) + "\n   " + pbt::hex(bad));
  }
  if (e.bad.empty()) {
    c.label("no error could be made");
    return;
  }
  auto play = [&](V2Decoder &d) {
    for (std::size_t k = 0; k < ms.size(); ++k) expect_msg(d, cd, bs[k], ms[k], k == 0, "decoding the history");
  };
  auto must_fail = [&](V2Decoder &d, const std::string &x, const std::string &why) {
    Exact in(x);
    const char *p = in.p.get();
    std::vector<V> got;
    int tmpl = -1;
    bool t = br::throws([&] {
      mfast::message_cref m = d.decode(p, in.p.get() + in.n, ms.empty());
      tmpl = sc.find_id(m.id());
      cd.b->extract(m, sc.t[tmpl].f, got);
    });
    if (!t) PBT_FAIL("no error is reported (" << why << "): " << pbt::hex(x) << " decoded as\n " << show(sc.t[tmpl].f, got, sc));
  };
  std::unique_ptr<V2Decoder> d;
  mfast::allocator *al = mfast::malloc_allocator::instance();
  if (trunc) {
    std::set<std::size_t> cuts;
    std::size_t n = bad.size();
    if (n < 2) { c.label("message of one byte"); return; }
    for (int k = 0; k < 4; ++k) cuts.insert(1 + (std::size_t)s.below(n - 1));
    for (auto cut : cuts) {
      d.reset(cd.dec(al));
      play(*d);
      must_fail(*d, bad.substr(0, cut), "the message was cut after " + std::to_string(cut) + " bytes");
    }
    c.label("cut");
    c.sub = cuts.size();
  } else {
    d.reset(cd.dec(al));
    play(*d);
    must_fail(*d, bad, e.bad);
    c.label(e.bad_kind == 0 ? "unknown template id" : e.bad_kind == 1 ? "illegal omission" : e.bad_kind == 3 ? "integer outside its type" : e.bad.substr(0, 2) == "D7" ? "delta D7" : "delta D6");
  }
  // and the decoder is usable again after a reset
  History f;
  f.sc = sc;
  HistOpt h2;
  h2.max_msgs = 2;
  gen_msgs(s, f, h2);
  for (std::size_t k = 0; k < f.msgs.size(); ++k)
    expect_msg(*d, cd, f.bytes[k], f.msgs[k], f.resets[k], "decoding with a forced reset after an error");
  c.nontrivial = !ms.empty();
}

// ----------------------------------------------------------------------- C08
inline void c08(Src &s, Case &c, const Codec &cd) {
  const Schema &sc = *cd.sc;
  HistOpt ho;
  ho.max_msgs = 6;
  ho.go.no_absent_default = cd.no_absent_default;
  History h1, h2;
  h1.sc = h2.sc = sc;
  gen_msgs(s, h1, ho);
  // the second part starts with a forced reset, or with a template that resets
  std::vector<int> rt;
  for (std::size_t k = 0; k < sc.t.size(); ++k)
    if (sc.t[k].reset) rt.push_back((int)k);
  bool by_template = !rt.empty() && s.chance(2, 3);
  {
    Encoder e(sc);
    e.vs = &s;
    e.go = ho.go;
    unsigned n = (unsigned)s.range(1, 5);
    for (unsigned k = 0; k < n; ++k) {
      Msg m;
      m.tmpl = k == 0 && by_template ? s.pick(rt) : (int)s.below(sc.t.size());
      bool reset = k == 0 ? !by_template : s.chance(1, 10);
      std::string b = e.message(m, reset);
      h2.msgs.push_back(m);
      h2.resets.push_back(reset);
      h2.bytes.push_back(b);
    }
    h2.stats = e.stats;
  }
  bool fail_enc = !by_template && s.chance(1, 3), fail_dec = !by_template && s.chance(1, 3);
  describe(h1, c);
  describe(h2, c);
  std::unique_ptr<V2Encoder> dirty(cd.enc()), clean(cd.enc());
  mfast::allocator *al = mfast::malloc_allocator::instance();
  std::unique_ptr<V2Decoder> ddirty(cd.dec(al)), dclean(cd.dec(al));
  std::string last;
  for (std::size_t k = 0; k < h1.msgs.size(); ++k) {
    last = encode_vec(*dirty, cd, h1.msgs[k], h1.resets[k], "encoding the first part");
    expect_msg(*ddirty, cd, last, h1.msgs[k], h1.resets[k], "decoding the first part");
  }
  if (fail_enc) {
    Msg m;
    Encoder e(sc);
    e.vs = &s;
    e.go = ho.go;
    m.tmpl = (int)s.below(sc.t.size());
    std::string b = e.message(m, true);
    MsgObj o(cd, m);
    std::size_t n = 1 + (std::size_t)s.below(b.size());
    std::unique_ptr<char[]> buf(new char[n]);
    // (it may fit if the history lets operators elide more)
    if (br::throws([&] { dirty->encode(o.cref(), buf.get(), n, false); })) c.label("failed encode before the reset");
  }
  if (fail_dec) {
    std::string g = mutate(s, last, 0);
    if (g.empty()) g = "\x7f";
    Exact in(g);
    const char *p = in.p.get();
    if (br::throws([&] { ddirty->decode(p, in.p.get() + in.n, false); })) c.label("failed decode before the reset");
  }
  for (std::size_t k = 0; k < h2.msgs.size(); ++k) {
    std::string a = encode_vec(*dirty, cd, h2.msgs[k], h2.resets[k], "encoding after the reset");
    std::string b = encode_vec(*clean, cd, h2.msgs[k], h2.resets[k], "encoding with a fresh encoder");
    PBT_CHECK(a == b, "message #" << k << " after the reset is encoded as\n " << pbt::hex(a) << "\n by the encoder with a history, but as\n "
                                  << pbt::hex(b) << "\n by a fresh one");
    expect_msg(*dclean, cd, a, h2.msgs[k], h2.resets[k], "decoding with a fresh decoder");
    expect_msg(*ddirty, cd, a, h2.msgs[k], h2.resets[k], "decoding with the decoder that has a history");
    // and what another encoder would send
  }
  c.sub = h1.msgs.size() + h2.msgs.size();
  label(h1, c);
  c.label(by_template ? "reset by the template" : "forced reset");
  c.nontrivial = h1.stats.ops_prev > 0 && h2.stats.ops_prev > 0;
}

// ----------------------------------------------------------------------- C10
inline void c10(Src &s, Case &c, const Codec &cd) {
  const Schema &sc = *cd.sc;
  HistOpt ho;
  ho.max_msgs = 3;
  ho.go.no_absent_default = cd.no_absent_default;
  History h;
  h.sc = sc;
  gen_msgs(s, h, ho);
  describe(h, c);
  bool overlong = s.chance(3, 4);
  std::size_t last = h.msgs.size() - 1;
  auto replay = [&](V2Encoder &e) {
    e.allow_overlong_pmap(overlong);
    for (std::size_t k = 0; k < last; ++k) encode_vec(e, cd, h.msgs[k], h.resets[k]);
  };
  // what it takes with plenty of room
  std::string want;
  {
    std::unique_ptr<V2Encoder> e(cd.enc());
    replay(*e);
    MsgObj o(cd, h.msgs[last]);
    std::vector<char> buf(h.bytes[last].size() * 2 + 4096, '\x55');
    std::size_t n = 0;
    br::must_not_throw([&] { n = e->encode(o.cref(), buf.data(), buf.size(), h.resets[last]); }, "encoding");
    PBT_CHECK(n <= buf.size(), "more bytes than the buffer has");
    want.assign(buf.data(), n);
    for (std::size_t k = n + 64; k < buf.size(); ++k)
      PBT_CHECK(buf[k] == '\x55', "byte " << k << " of the buffer was written, the message takes " << n << " bytes");
  }
  PBT_CHECK(!want.empty(), "a message is encoded as nothing");
  if (c.want_log) c.note("encoded: " + pbt::hex(want));
  // vectors with content
  {
    std::unique_ptr<V2Encoder> e(cd.enc());
    replay(*e);
    std::string before;
    for (std::size_t n = (std::size_t)s.range(0, 60); n > 0; --n) before += (char)s.below(256);
    std::vector<char> v(before.begin(), before.end());
    if (s.coin()) v.reserve(before.size() + (std::size_t)s.below(want.size() + 20));
    else v.shrink_to_fit();
    MsgObj o(cd, h.msgs[last]);
    br::must_not_throw([&] { e->encode(o.cref(), v, h.resets[last]); }, "encoding into a vector");
    std::string got(v.begin(), v.end());
    PBT_CHECK(got == before + want, "appending to " << before.size() << " bytes gives\n " << pbt::hex(got) << "\n instead of\n "
                                                    << pbt::hex(before + want));
  }
  std::set<std::size_t> sizes = {want.size(), want.size() + 1, want.size() + 1 + (std::size_t)s.below(20)};
  {
    sizes.insert(want.size() - 1);
    for (int k = 0; k < 3; ++k) sizes.insert((std::size_t)s.below(want.size()));
  }
  sizes.erase(0);
  for (auto n : sizes) {
    std::unique_ptr<V2Encoder> e(cd.enc());
    replay(*e);
    MsgObj o(cd, h.msgs[last]);
    std::unique_ptr<char[]> buf(new char[n]);
    std::size_t r = 0;
    std::string what;
    bool t = br::throws([&] { r = e->encode(o.cref(), buf.get(), n, h.resets[last]); }, &what);
    if (n < want.size()) {
      if (!t) PBT_FAIL("a message of " << want.size() << " bytes was encoded into a buffer of " << n << ", result " << r);
    } else {
      // a map that is shortened afterwards needs its full size meanwhile
      if (t && !overlong) { c.label("no room for the map before it is shortened"); continue; }
      if (t) PBT_FAIL("a message of " << want.size() << " bytes does not fit in a buffer of " << n << ": " << what);
      PBT_CHECK(std::string(buf.get(), r) == want, "with a buffer of " << n << " bytes the message is\n " << pbt::hex(buf.get(), r)
                                                                      << "\n instead of\n " << pbt::hex(want));
    }
  }
  c.sub = sizes.size() + 2;
  label(h, c);
  c.nontrivial = want.size() >= 4;
}

static const char *R06 = "valid histories of 1-5 messages mutated from a message boundary on (bit flips, interesting bytes, cuts, insertions, "
                         "duplications, huge numbers, random bytes), decoded until an error or the end; non-trivial = the bytes differ "
                         "from the valid stream";
static const char *R07 = "histories of 0-10 valid messages followed by a message with one error (unknown template id also in nested messages, illegal "
                         "omission, delta on an empty value or removing too much, integer outside its type, or cut at 1-4 places); non-trivial = the error was "
                         "made after at least one message";
static const char *R08 = "two histories, the second one after a forced reset or starting with a resetting template, optionally with a failed "
                         "encode or decode in between; non-trivial = both used previous values";
static const char *R10 = "messages after a history, encoded into buffers of sizes around the needed one and into vectors with content; "
                         "non-trivial = the message takes at least four bytes";
} // namespace rb
