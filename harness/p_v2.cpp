// C02, C03 and the generated halves of C04..C08: the codec for generated types.
#include "alloc_check.h"
#include "codec_common.h"
#include "v2_iface.h"
#include "robust.h"
#include "v2_schemas.h"
using namespace cc;

static std::vector<V2Entry> &entries() {
  static std::vector<V2Entry> v;
  return v;
}
void v2_add(const V2Entry &e) {
  auto &v = entries();
  v.push_back(e);
  std::sort(v.begin(), v.end(), [](const V2Entry &a, const V2Entry &b) { return a.schema < b.schema; });
}
const std::vector<V2Entry> &v2_entries() { return entries(); }

struct Gen {
  Schema sc;
  const V2Entry *e;
  br::Bridge b;
  Gen(unsigned k) : sc(v2s::schema(V2_SEED, k)), e(&entries()[k]), b(sc) {
    if (e->schema != k || e->desc->size() != sc.t.size()) throw pbt::Failure("generated description has another number of templates");
    for (std::size_t j = 0; j < sc.t.size(); ++j) b.ti.push_back((*e->desc)[j]);
  }
};
static Gen &gen(unsigned k) {
  static std::map<unsigned, std::unique_ptr<Gen>> m;
  auto &p = m[k];
  if (!p) p.reset(new Gen(k));
  return *p;
}

static const char *RULE_V2 =
    "template sets (six that cover every type x operator x presence x initial value, the rest random) compiled by the type "
    "generator of the tree, and histories of 1-8 messages; non-trivial = at least two messages, at least one operator that used a "
    "previous value, at least one absent optional field";

static std::string diff_msg(const History &h, std::size_t k, const std::vector<V> &got, const char *what) {
  return std::string(what) + ": message #" + std::to_string(k) + "\n expected " + show(h.msgs[k], h.sc) + "\n got      " +
         h.sc.t[h.msgs[k].tmpl].name + show(h.sc.t[h.msgs[k].tmpl].f, got, h.sc);
}

static void make_history(Src &s, Case &c, History &h, Gen *&g, HistOpt ho, bool tref = false) {
  unsigned k = (unsigned)s.below(entries().size());
  if (tref) { // a set with dynamic template references
    auto has = [](const Schema &sc) {
      for (auto &t : sc.t) if (SchemaGen::has_tref(t.f)) return true;
      return false;
    };
    for (unsigned n = 0; n < entries().size() && !has(gen(k).sc); ++n) k = (k + 1) % (unsigned)entries().size();
  }
  g = &gen(k);
  h.sc = g->sc;
  gen_msgs(s, h, ho);
  c.mix(k);
  describe(h, c);
}

typedef std::function<std::size_t(const mfast::message_cref &, char *, std::size_t, bool)> EncBuf;
typedef std::function<void(const mfast::message_cref &, std::vector<char> &, bool)> EncVec;
typedef std::function<mfast::message_cref(const char *&, const char *, bool)> Dec;

// encodes the history; returns the offsets of the message ends
static std::vector<std::size_t> encode_all(const History &h, const br::Bridge &b, const EncBuf &eb, const EncVec &ev, bool vec,
                                           std::vector<char> &all, Case &c) {
  std::vector<std::size_t> ends;
  for (std::size_t k = 0; k < h.msgs.size(); ++k) {
    mfast::malloc_allocator alloc;
    mfast::message_type m(&alloc, const_cast<mfast::template_instruction *>(b.ti[h.msgs[k].tmpl]));
    b.fill(m.ref(), h.sc.t[h.msgs[k].tmpl].f, h.msgs[k].f);
    br::must_not_throw([&] {
      if (vec) ev(m.cref(), all, h.resets[k]);
      else {
        std::vector<char> buf(h.bytes[k].size() * 2 + 4096);
        std::size_t n = eb(m.cref(), buf.data(), buf.size(), h.resets[k]);
        all.insert(all.end(), buf.begin(), buf.begin() + (long)n);
      }
    }, "encoding");
    ends.push_back(all.size());
    if (c.want_log) c.note("   got #" + std::to_string(k) + ": " + pbt::hex(all.data() + (k ? ends[k - 1] : 0), ends[k] - (k ? ends[k - 1] : 0)));
  }
  return ends;
}
static void decode_all(const History &h, const br::Bridge &b, const Dec &dec, const std::vector<char> &all,
                       const std::vector<std::size_t> &ends) {
  std::unique_ptr<char[]> guard(new char[all.size()]);
  std::copy(all.begin(), all.end(), guard.get());
  const char *copy = guard.get(), *p = copy, *end = copy + all.size();
  for (std::size_t k = 0; k < h.msgs.size(); ++k) {
    std::vector<V> got;
    PBT_CHECK(p < end, "no bytes left for message #" << k);
    br::must_not_throw([&] {
      mfast::message_cref m = dec(p, end, h.resets[k]);
      if (m.id() != h.sc.t[h.msgs[k].tmpl].id) PBT_FAIL("decoded message #" << k << " has template id " << m.id());
      b.extract(m, h.sc.t[h.msgs[k].tmpl].f, got);
    }, "decoding");
    if (!eqv(got, h.msgs[k].f)) throw pbt::Failure(diff_msg(h, k, got, "decoded message differs"));
    PBT_CHECK(p == copy + ends[k], "message #" << k << " consumed up to " << (p - copy) << " but ends at " << ends[k]);
  }
}
static unsigned tokens(Src &s) { return s.pick(std::vector<unsigned>{0, 1, 3}); }

static void c02(Src &s, Case &c) {
  History h;
  Gen *g;
  HistOpt ho;
  ho.go.no_absent_default = 2;
  bool overlong = s.chance(1, 4), vec = s.coin();
  unsigned tk = tokens(s);
  make_history(s, c, h, g, ho);
  std::unique_ptr<V2Encoder> enc(g->e->encoder());
  std::unique_ptr<V2Decoder> dec(g->e->decoder(mfast::malloc_allocator::instance(), tk));
  enc->allow_overlong_pmap(overlong);
  std::vector<char> all;
  auto ends = encode_all(h, g->b, [&](const mfast::message_cref &m, char *b, std::size_t n, bool r) { return enc->encode(m, b, n, r); },
                         [&](const mfast::message_cref &m, std::vector<char> &b, bool r) { enc->encode(m, b, r); }, vec, all, c);
  decode_all(h, g->b, [&](const char *&f, const char *l, bool r) { return dec->decode(f, l, r); }, all, ends);
  c.sub = h.msgs.size();
  label(h, c);
  c.nontrivial = nontrivial(h);
}

// nested messages; the copies of decoded messages outlive the stream
static void c25(Src &s, Case &c) {
  History h;
  Gen *g;
  bool from_ref = s.chance(1, 3);
  HistOpt ho;
  ho.go.max_nest = (int)s.range(1, 6);
  ho.go.no_absent_default = from_ref ? 0 : 2;
  ho.noncanon = from_ref;
  unsigned tk = tokens(s);
  make_history(s, c, h, g, ho, true);
  std::unique_ptr<V2Encoder> enc(g->e->encoder());
  std::unique_ptr<V2Decoder> dec(g->e->decoder(mfast::malloc_allocator::instance(), tk));
  std::vector<char> all;
  std::vector<std::size_t> ends;
  if (from_ref)
    for (auto &b : h.bytes) { all.insert(all.end(), b.begin(), b.end()); ends.push_back(all.size()); }
  else
    ends = encode_all(h, g->b, [&](const mfast::message_cref &m, char *b, std::size_t n, bool r) { return enc->encode(m, b, n, r); },
                      [&](const mfast::message_cref &m, std::vector<char> &b, bool r) { enc->encode(m, b, r); }, s.coin(), all, c);
  std::vector<std::unique_ptr<mfast::message_type>> copies;
  decode_all(h, g->b, [&](const char *&f, const char *l, bool r) {
    mfast::message_cref m = dec->decode(f, l, r);
    copies.emplace_back(new mfast::message_type(m, mfast::malloc_allocator::instance()));
    PBT_CHECK(mfast::aggregate_cref(m) == mfast::aggregate_cref(copies.back()->cref()), "the copy of a decoded message is not equal to it");
    return m;
  }, all, ends);
  for (std::size_t k = 0; k < copies.size(); ++k) {
    std::vector<V> got;
    g->b.extract(copies[k]->cref(), h.sc.t[h.msgs[k].tmpl].f, got);
    if (!eqv(got, h.msgs[k].f)) throw pbt::Failure(diff_msg(h, k, got, "copy of the decoded message differs"));
  }
  c.sub = h.msgs.size();
  label(h, c);
  c.nontrivial = h.msgs.size() >= 2 && h.stats.nested;
}

// what a generated decoder takes from its allocator, it gives back
static void c16(Src &s, Case &c) {
  History h;
  Gen *g;
  HistOpt ho;
  ho.noncanon = s.coin();
  unsigned tk = tokens(s);
  make_history(s, c, h, g, ho);
  std::string all;
  for (auto &b : h.bytes) all += b;
  bool early = s.coin();
  if (early && all.size()) all.resize(s.below(all.size() + 1));
  checked_allocator al;
  al.slack = (unsigned)s.pick(std::vector<int>{0, 1, 64, 200});
  {
    std::unique_ptr<V2Decoder> dec(g->e->decoder(&al, tk));
    std::unique_ptr<char[]> guard(new char[all.size()]);
    std::copy(all.begin(), all.end(), guard.get());
    const char *p = guard.get(), *end = p + all.size();
    for (std::size_t k = 0; k < h.msgs.size() && p < end; ++k) {
      try {
        std::vector<V> got;
        g->b.extract(dec->decode(p, end, h.resets[k]), h.sc.t[h.msgs[k].tmpl].f, got);
        if (!eqv(got, h.msgs[k].f)) throw pbt::Failure(diff_msg(h, k, got, "decoded message differs"));
      } catch (const boost::exception &) {
        PBT_CHECK(early, "message #" << k << " is not decoded");
        break;
      }
    }
  }
  al.check("after the decoder is destroyed");
  c.sub = h.msgs.size();
  label(h, c);
  c.nontrivial = h.msgs.size() >= 2 && al.calls >= 5;
}

// generated encoder -> runtime decoder, runtime encoder -> generated decoder;
// the runtime side uses either the XML definition or the generated description
static void c03(Src &s, Case &c) {
  History h;
  Gen *g;
  HistOpt ho;
  ho.go.no_absent_default = 2;
  bool vec = s.coin(), xml = s.coin(), overlong = s.chance(1, 4);
  unsigned tk = tokens(s);
  make_history(s, c, h, g, ho);
  std::unique_ptr<br::Loaded> L;
  if (xml) L.reset(new br::Loaded(h.sc));
  const mfast::templates_description *desc = xml ? (const mfast::templates_description *)L->desc.get() : g->e->desc;
  const br::Bridge &rb = xml ? L->b : g->b;
  std::unique_ptr<V2Encoder> enc2(g->e->encoder());
  std::unique_ptr<V2Decoder> dec2(g->e->decoder(mfast::malloc_allocator::instance(), tk));
  mfast::fast_encoder enc1;
  enc1.include({desc});
  mfast::fast_decoder dec1;
  dec1.include({desc});
  enc1.allow_overlong_pmap(overlong);
  enc2->allow_overlong_pmap(overlong);
  std::vector<char> a1, a2;
  auto e2 = encode_all(h, g->b, [&](const mfast::message_cref &m, char *b, std::size_t n, bool r) { return enc2->encode(m, b, n, r); },
                       [&](const mfast::message_cref &m, std::vector<char> &b, bool r) { enc2->encode(m, b, r); }, vec, a2, c);
  auto e1 = encode_all(h, rb, [&](const mfast::message_cref &m, char *b, std::size_t n, bool r) { return enc1.encode(m, b, n, r); },
                       [&](const mfast::message_cref &m, std::vector<char> &b, bool r) { enc1.encode(m, b, r); }, vec, a1, c);
  PBT_CHECK(overlong || a1 == a2, "the encoders write different bytes\n runtime   " << pbt::hex(a1) << "\n generated " << pbt::hex(a2));
  decode_all(h, rb, [&](const char *&f, const char *l, bool r) { return dec1.decode(f, l, r); }, a2, e2);
  decode_all(h, g->b, [&](const char *&f, const char *l, bool r) { return dec2->decode(f, l, r); }, a1, e1);
  // messages of the runtime types given to the generated encoder, and the other way round
  c.sub = h.msgs.size() * 2;
  label(h, c);
  c.nontrivial = nontrivial(h);
}

// generated encoder against the reference decoder
static void c04(Src &s, Case &c) {
  History h;
  Gen *g;
  HistOpt ho;
  ho.go.no_absent_default = 2;
  bool overlong = s.chance(1, 4), vec = s.coin();
  make_history(s, c, h, g, ho);
  std::unique_ptr<V2Encoder> enc(g->e->encoder());
  enc->allow_overlong_pmap(overlong);
  std::vector<char> all;
  auto ends = encode_all(h, g->b, [&](const mfast::message_cref &m, char *b, std::size_t n, bool r) { return enc->encode(m, b, n, r); },
                         [&](const mfast::message_cref &m, std::vector<char> &b, bool r) { enc->encode(m, b, r); }, vec, all, c);
  Decoder ref(h.sc);
  std::size_t start = 0;
  for (std::size_t k = 0; k < h.msgs.size(); ++k) {
    std::string out(all.begin() + (long)start, all.begin() + (long)ends[k]);
    start = ends[k];
    std::size_t pos = 0;
    Msg r;
    try {
      r = ref.message(out, pos, h.resets[k]);
    } catch (const RefError &e) {
      PBT_FAIL("message #" << k << " is not valid FAST: " << e.what() << " in " << pbt::hex(out));
    }
    PBT_CHECK(r.tmpl == h.msgs[k].tmpl && eqv(r.f, h.msgs[k].f),
              "an independent decoder reads message #" << k << " as\n " << show(r, h.sc) << "\n instead of\n " << show(h.msgs[k], h.sc));
    PBT_CHECK(pos == out.size(), "message #" << k << ": " << out.size() - pos << " bytes beyond the end of the message");
    PBT_CHECK(!ref.overlong_int, "message #" << k << " contains an overlong integer");
    PBT_CHECK(overlong || !ref.overlong_pmap, "message #" << k << " contains an overlong presence map");
    if (!overlong)
      PBT_CHECK(out.size() <= h.bytes[k].size(), "message #" << k << " takes " << out.size() << " bytes, the plain encoding takes "
                                                              << h.bytes[k].size() << "\n " << pbt::hex(h.bytes[k]));
  }
  c.sub = h.msgs.size();
  label(h, c);
  c.nontrivial = nontrivial(h);
}

static void c05(Src &s, Case &c) {
  History h;
  Gen *g;
  HistOpt ho;
  ho.noncanon = true;
  unsigned tk = tokens(s);
  make_history(s, c, h, g, ho);
  std::unique_ptr<V2Decoder> dec(g->e->decoder(mfast::malloc_allocator::instance(), tk));
  std::vector<char> all;
  std::vector<std::size_t> ends;
  for (auto &b : h.bytes) {
    all.insert(all.end(), b.begin(), b.end());
    ends.push_back(all.size());
  }
  decode_all(h, g->b, [&](const char *&f, const char *l, bool r) { return dec->decode(f, l, r); }, all, ends);
  c.sub = h.msgs.size();
  label(h, c);
  if (h.stats.noncanon) c.label("non canonical choices");
  c.nontrivial = nontrivial(h) && h.stats.noncanon;
}

// The known finding: see c01_known
static void c02_known(Src &s, Case &c) {
  unsigned k = (unsigned)s.below(std::min<std::size_t>(v2s::SYSTEMATIC, entries().size()));
  Gen *g = &gen(k);
  History h;
  h.sc = g->sc;
  HistOpt ho;
  ho.max_msgs = 1;
  ho.go.no_absent_default = 2;
  gen_msgs(s, h, ho);
  auto &fs = h.sc.t[h.msgs[0].tmpl].f;
  std::vector<std::size_t> at;
  for (std::size_t i = 0; i < fs.size(); ++i)
    if (fs[i].opt && !fs[i].split && fs[i].ty < ENUM && fs[i].op.k == DEFAULT && fs[i].op.has_init) at.push_back(i);
  if (at.empty()) return;
  std::size_t i = s.pick(at);
  h.msgs[0].f[i] = V();
  describe(h, c);
  c.nontrivial = true;
  std::unique_ptr<V2Encoder> enc(g->e->encoder());
  std::unique_ptr<V2Decoder> dec(g->e->decoder(mfast::malloc_allocator::instance(), 0));
  std::vector<char> all;
  encode_all(h, g->b, [&](const mfast::message_cref &m, char *b, std::size_t n, bool r) { return enc->encode(m, b, n, r); },
             [&](const mfast::message_cref &m, std::vector<char> &b, bool r) { enc->encode(m, b, r); }, true, all, c);
  std::vector<V> got;
  br::must_not_throw([&] {
    const char *p = all.data();
    g->b.extract(dec->decode(p, p + all.size(), true), fs, got);
    PBT_CHECK(p == all.data() + all.size(), "not everything was consumed");
  }, "decoding");
  if (eqv(got, h.msgs[0].f)) return;
  const V &a = got[i];
  const auto &d = fs[i].op.init;
  PBT_CHECK(a.present && a.i == d.i && a.exp == d.exp && a.s == d.s, "absent field decoded as " << show(fs[i], a, h.sc));
  got[i] = V();
  if (!eqv(got, h.msgs[0].f)) throw pbt::Failure(diff_msg(h, 0, got, "decoded message differs"));
  throw pbt::Known("absent-default");
}

// ------------------------------------------------- C06, C07, C08, C10 (robust.h)
static rb::Codec codec2(Src &s, Case &c) {
  unsigned k = (unsigned)s.below(entries().size()), tk = tokens(s);
  Gen *g = &gen(k);
  c.mix(k);
  rb::Codec cd;
  cd.sc = &g->sc;
  cd.b = &g->b;
  cd.name = "generated";
  cd.no_absent_default = 2;
  cd.enc = [g] { return g->e->encoder(); };
  cd.dec = [g, tk](mfast::allocator *a) { return g->e->decoder(a, tk); };
  return cd;
}
static void b06(Src &s, Case &c) { rb::c06(s, c, codec2(s, c)); }
static void b07(Src &s, Case &c) { rb::c07(s, c, codec2(s, c)); }
static void b08(Src &s, Case &c) { rb::c08(s, c, codec2(s, c)); }
static void b10(Src &s, Case &c) { rb::c10(s, c, codec2(s, c)); }

PBT_PROPERTY("C06.v2", rb::R06, b06, 40000, 1200000)
PBT_PROPERTY("C07.v2", rb::R07, b07, 40000, 1000000)
PBT_PROPERTY("C08.v2", rb::R08, b08, 30000, 800000)
PBT_PROPERTY("C10.v2", rb::R10, b10, 20000, 600000)
PBT_PROPERTY("C02.known", "messages in which one optional field with a default value is absent; all are non-trivial", c02_known, 200, 200)
PBT_PROPERTY("C02.generated", RULE_V2, c02, 40000, 1000000)
PBT_PROPERTY("C25.v2", "the compiled template sets that contain dynamic template references, histories of 1-8 messages nested up to six deep, copies of the decoded "
             "messages; non-trivial = at least two messages and a nested message", c25, 20000, 500000)
PBT_PROPERTY("C16.v2", "the compiled template sets and histories of 1-8 messages read by generated decoders with an allocator that checks every call and what is left; "
             "the stream may be cut; non-trivial = at least two messages and five calls", c16, 10000, 300000)
PBT_PROPERTY("C03.interop", RULE_V2, c03, 20000, 500000)
PBT_PROPERTY("C04.v2", RULE_V2, c04, 30000, 800000)
PBT_PROPERTY("C05.v2", RULE_V2, c05, 30000, 800000)
