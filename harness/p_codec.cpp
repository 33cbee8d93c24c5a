// C01, C04, C05: the runtime codec against the model and the reference codec.
#include "codec_common.h"
using namespace cc;

static const char *RULE_HIST =
    "random template sets (1-3 templates; every field type, operator, presence, initial value, key/dictionary sharing, groups, "
    "sequences, dynamic references) and histories of 1-8 messages whose values are biased towards the previous and initial values; "
    "non-trivial = at least two messages, at least one operator that used a previous value, at least one absent optional field";

static std::string diff_msg(const History &h, std::size_t k, const std::vector<V> &got, const char *what) {
  return std::string(what) + ": message #" + std::to_string(k) + "\n expected " + show(h.msgs[k], h.sc) + "\n got      " +
         h.sc.t[h.msgs[k].tmpl].name + show(h.sc.t[h.msgs[k].tmpl].f, got, h.sc);
}

static void c01(Src &s, Case &c) {
  GenOpt go;
  HistOpt ho;
  ho.go.no_absent_default = 1;
  History h = gen_history(s, go, ho);
  bool overlong = s.chance(1, 4), vec = s.coin();
  describe(h, c);
  br::Loaded L(h.sc);
  mfast::fast_encoder enc;
  enc.include({L.desc.get()});
  enc.allow_overlong_pmap(overlong);
  mfast::fast_decoder dec;
  dec.include({L.desc.get()});
  std::vector<char> all;
  std::vector<std::size_t> ends;
  for (std::size_t k = 0; k < h.msgs.size(); ++k) {
    mfast::malloc_allocator alloc;
    mfast::message_type m(&alloc, const_cast<mfast::template_instruction *>(L.b.ti[h.msgs[k].tmpl]));
    L.b.fill(m.ref(), h.sc.t[h.msgs[k].tmpl].f, h.msgs[k].f);
    br::must_not_throw([&] {
      if (vec) enc.encode(m.cref(), all, h.resets[k]);
      else {
        std::vector<char> buf(h.bytes[k].size() * 2 + 4096);
        std::size_t n = enc.encode(m.cref(), buf.data(), buf.size(), h.resets[k]);
        all.insert(all.end(), buf.begin(), buf.begin() + n);
      }
    }, "encoding");
    ends.push_back(all.size());
    if (c.want_log) c.note("   got #" + std::to_string(k) + ": " + pbt::hex(all.data() + (k ? ends[k - 1] : 0), ends[k] - (k ? ends[k - 1] : 0)));
  }
  char *copy = new char[all.size()]; // exact size: ASan sees any read past the end
  std::unique_ptr<char[]> guard(copy);
  std::copy(all.begin(), all.end(), copy);
  const char *p = copy, *end = copy + all.size();
  for (std::size_t k = 0; k < h.msgs.size(); ++k) {
    std::vector<V> got;
    PBT_CHECK(p < end, "no bytes left for message #" << k);
    br::must_not_throw([&] {
      mfast::message_cref m = dec.decode(p, end, h.resets[k]);
      if (m.id() != h.sc.t[h.msgs[k].tmpl].id) PBT_FAIL("decoded message #" << k << " has template id " << m.id());
      L.b.extract(m, h.sc.t[h.msgs[k].tmpl].f, got);
    }, "decoding");
    if (!eqv(got, h.msgs[k].f)) throw pbt::Failure(diff_msg(h, k, got, "decoded message differs"));
    PBT_CHECK(p == copy + ends[k], "message #" << k << " consumed up to " << (p - copy) << " but was encoded up to " << ends[k]);
  }
  c.sub = h.msgs.size();
  label(h, c);
  c.nontrivial = nontrivial(h);
}

// The known finding: an optional field of a template (not inside a group or
// sequence) with <default value> that is absent is encoded like the default
// value.  Exactly this is reported as known; anything else fails.
static void c01_known(Src &s, Case &c) {
  Schema sc;
  Template t;
  t.name = "T";
  t.id = 1;
  Field f, g;
  f.ty = s.pick(std::vector<Ty>{I32, U32, I64, U64, DEC, ASCII, UNI, BYTES});
  f.name = "f";
  f.opt = true;
  f.op.k = DEFAULT;
  f.op.has_init = true;
  f.op.init = gen_init(s, f.ty, f);
  g.ty = U32;
  g.name = "g";
  t.f = {f, g};
  sc.t.push_back(t);
  SchemaGen::resolve(sc);
  V a, b;
  b.present = true;
  b.i = (int64_t)(uint32_t)gen_int(s, U32);
  c.mix(schema_xml(sc));
  c.nontrivial = true;
  if (c.want_log) c.note(schema_xml(sc) + "f is absent");
  br::Loaded L(sc);
  mfast::fast_encoder enc;
  enc.include({L.desc.get()});
  mfast::fast_decoder dec;
  dec.include({L.desc.get()});
  mfast::malloc_allocator alloc;
  mfast::message_type m(&alloc, const_cast<mfast::template_instruction *>(L.b.ti[0]));
  L.b.fill(m.ref(), t.f, {a, b});
  std::vector<char> buf;
  std::vector<V> got;
  br::must_not_throw([&] {
    enc.encode(m.cref(), buf, true);
    const char *p = buf.data();
    L.b.extract(dec.decode(p, p + buf.size(), true), t.f, got);
    PBT_CHECK(p == buf.data() + buf.size(), "not everything was consumed");
  }, "round trip");
  PBT_CHECK(got.size() == 2 && got[1] == b, "the other field differs");
  if (got[0] == a) return;
  PBT_CHECK(got[0].i == f.op.init.i && got[0].exp == f.op.init.exp && got[0].s == f.op.init.s,
            "absent field decoded as " << show(f, got[0], sc));
  throw pbt::Known("absent-default");
}

static void c04(Src &s, Case &c) {
  GenOpt go;
  HistOpt ho;
  ho.go.no_absent_default = 1;
  History h = gen_history(s, go, ho);
  bool overlong = s.chance(1, 4), vec = s.coin();
  describe(h, c);
  br::Loaded L(h.sc);
  mfast::fast_encoder enc;
  enc.include({L.desc.get()});
  enc.allow_overlong_pmap(overlong);
  Decoder ref(h.sc);
  for (std::size_t k = 0; k < h.msgs.size(); ++k) {
    mfast::malloc_allocator alloc;
    mfast::message_type m(&alloc, const_cast<mfast::template_instruction *>(L.b.ti[h.msgs[k].tmpl]));
    L.b.fill(m.ref(), h.sc.t[h.msgs[k].tmpl].f, h.msgs[k].f);
    std::string out;
    br::must_not_throw([&] {
      std::vector<char> buf(vec ? 0 : h.bytes[k].size() * 2 + 4096);
      std::size_t n;
      if (vec) { enc.encode(m.cref(), buf, h.resets[k]); n = buf.size(); }
      else n = enc.encode(m.cref(), buf.data(), buf.size(), h.resets[k]);
      out.assign(buf.data(), n);
    }, "encoding");
    if (c.want_log) c.note("   got #" + std::to_string(k) + ": " + pbt::hex(out));
    std::size_t pos = 0;
    Msg r;
    try {
      r = ref.message(out, pos, h.resets[k]);
    } catch (const RefError &e) {
      PBT_FAIL("message #" << k << " is not valid FAST: " << e.what() << " in " << pbt::hex(out));
    }
    PBT_CHECK(r.tmpl == h.msgs[k].tmpl && eqv(r.f, h.msgs[k].f),
              "an independent decoder reads message #" << k << " as\n " << show(r, h.sc) << "\n instead of\n " << show(h.msgs[k], h.sc));
    PBT_CHECK(pos == out.size(), "message #" << k << ": " << out.size() - pos << " bytes beyond the end of the message");
    PBT_CHECK(!ref.overlong_int, "message #" << k << " contains an overlong integer");
    PBT_CHECK(overlong || !ref.overlong_pmap, "message #" << k << " contains an overlong presence map");
    if (!overlong)
      PBT_CHECK(out.size() <= h.bytes[k].size(), "message #" << k << " takes " << out.size() << " bytes, the plain encoding takes "
                                                              << h.bytes[k].size() << "\n " << pbt::hex(h.bytes[k]));
  }
  c.sub = h.msgs.size();
  label(h, c);
  c.nontrivial = nontrivial(h);
}

static void c05(Src &s, Case &c) {
  GenOpt go;
  go.no_empty_mandatory = false;
  HistOpt ho;
  ho.noncanon = true;
  History h = gen_history(s, go, ho);
  describe(h, c);
  br::Loaded L(h.sc);
  mfast::fast_decoder dec;
  dec.include({L.desc.get()});
  std::string all;
  for (auto &b : h.bytes) all += b;
  std::unique_ptr<char[]> guard(new char[all.size()]);
  std::copy(all.begin(), all.end(), guard.get());
  const char *p = guard.get(), *end = p + all.size();
  for (std::size_t k = 0; k < h.msgs.size(); ++k) {
    const char *start = p;
    std::vector<V> got;
    br::must_not_throw([&] {
      mfast::message_cref m = dec.decode(p, end, h.resets[k]);
      if (m.id() != h.sc.t[h.msgs[k].tmpl].id) PBT_FAIL("decoded message #" << k << " has template id " << m.id());
      L.b.extract(m, h.sc.t[h.msgs[k].tmpl].f, got);
    }, "decoding a conforming stream");
    if (!eqv(got, h.msgs[k].f)) throw pbt::Failure(diff_msg(h, k, got, "decoded message differs"));
    PBT_CHECK(p - start == (long)h.bytes[k].size(), "message #" << k << " consumed " << (p - start) << " bytes instead of " << h.bytes[k].size());
  }
  c.sub = h.msgs.size();
  label(h, c);
  if (h.stats.noncanon) c.label("non canonical choices");
  c.nontrivial = nontrivial(h) && h.stats.noncanon;
}

// Messages nested by dynamic template references.
static void c25(Src &s, Case &c) {
  bool from_ref = s.chance(1, 3); // decode streams of the reference encoder
  GenOpt go;
  go.tref_heavy = true;
  go.max_templates = 4;
  go.max_fields = 5;
  go.no_empty_mandatory = !from_ref;
  HistOpt ho;
  ho.go.max_nest = (int)s.range(1, 6);
  ho.go.no_absent_default = from_ref ? 0 : 1;
  ho.noncanon = from_ref;
  History h = gen_history(s, go, ho);
  describe(h, c);
  br::Loaded L(h.sc);
  mfast::fast_encoder enc;
  enc.include({L.desc.get()});
  mfast::fast_decoder dec;
  dec.include({L.desc.get()});
  Decoder ref(h.sc);
  std::string all;
  std::vector<std::size_t> ends;
  std::vector<std::unique_ptr<mfast::message_type>> originals, copies;
  for (std::size_t k = 0; k < h.msgs.size(); ++k) {
    originals.emplace_back(new mfast::message_type(mfast::malloc_allocator::instance(), const_cast<mfast::template_instruction *>(L.b.ti[h.msgs[k].tmpl])));
    mfast::message_type &m = *originals.back();
    L.b.fill(m.ref(), h.sc.t[h.msgs[k].tmpl].f, h.msgs[k].f);
    if (from_ref) all += h.bytes[k];
    else {
      std::vector<char> buf;
      br::must_not_throw([&] { enc.encode(m.cref(), buf, h.resets[k]); }, "encoding");
      std::string out(buf.data(), buf.size());
      if (c.want_log) c.note("   got #" + std::to_string(k) + ": " + pbt::hex(out));
      std::size_t pos = 0;
      Msg r;
      try {
        r = ref.message(out, pos, h.resets[k]);
      } catch (const RefError &e) {
        PBT_FAIL("message #" << k << " is not valid FAST: " << e.what() << " in " << pbt::hex(out));
      }
      PBT_CHECK(r.tmpl == h.msgs[k].tmpl && eqv(r.f, h.msgs[k].f) && pos == out.size(),
                "an independent decoder reads message #" << k << " as\n " << show(r, h.sc) << "\n instead of\n " << show(h.msgs[k], h.sc));
      all += out;
    }
    ends.push_back(all.size());
  }
  std::unique_ptr<char[]> guard(new char[all.size()]);
  std::copy(all.begin(), all.end(), guard.get());
  const char *p = guard.get(), *end = p + all.size();
  for (std::size_t k = 0; k < h.msgs.size(); ++k) {
    const std::vector<Field> &fs = h.sc.t[h.msgs[k].tmpl].f;
    std::vector<V> got;
    br::must_not_throw([&] {
      mfast::message_cref m = dec.decode(p, end, h.resets[k]);
      if (m.id() != h.sc.t[h.msgs[k].tmpl].id) PBT_FAIL("decoded message #" << k << " has template id " << m.id());
      L.b.extract(m, fs, got);
      if (!eqv(got, h.msgs[k].f)) throw pbt::Failure(diff_msg(h, k, got, "decoded message differs"));
      PBT_CHECK(mfast::aggregate_cref(m) == mfast::aggregate_cref(originals[k]->cref()), "decoded message #" << k << " does not compare equal to the original");
      copies.emplace_back(new mfast::message_type(m, mfast::malloc_allocator::instance()));
    }, "decoding");
    PBT_CHECK(p == guard.get() + ends[k], "message #" << k << " consumed up to " << (p - guard.get()) << " but was encoded up to " << ends[k]);
  }
  guard.reset();
  for (std::size_t k = 0; k < copies.size(); ++k) { // the copies own what they hold
    std::vector<V> got;
    L.b.extract(copies[k]->cref(), h.sc.t[h.msgs[k].tmpl].f, got);
    if (!eqv(got, h.msgs[k].f)) throw pbt::Failure(diff_msg(h, k, got, "copy of the decoded message differs"));
  }
  c.sub = h.msgs.size();
  label(h, c);
  c.nontrivial = h.msgs.size() >= 2 && h.stats.nested >= 2 && (h.stats.copies_hit || h.stats.incs || h.stats.deltas || h.stats.tails || h.stats.id_elided);
}

// self check of the reference codec: it must read what it writes
static void self(Src &s, Case &c) {
  GenOpt go;
  HistOpt ho;
  ho.noncanon = s.coin();
  History h = gen_history(s, go, ho);
  describe(h, c);
  Decoder d(h.sc);
  for (std::size_t k = 0; k < h.msgs.size(); ++k) {
    std::size_t pos = 0;
    Msg r = d.message(h.bytes[k], pos, h.resets[k]);
    PBT_CHECK(r.tmpl == h.msgs[k].tmpl && eqv(r.f, h.msgs[k].f), "self: #" << k << " " << show(r, h.sc));
    PBT_CHECK(pos == h.bytes[k].size(), "self: consumed");
    PBT_CHECK(!d.overlong_int, "self: overlong int");
  }
  label(h, c);
  c.nontrivial = nontrivial(h);
}

PBT_PROPERTY("C01.runtime", RULE_HIST, c01, 60000, 1500000)
PBT_PROPERTY("C01.known", "templates of one optional field with a default value that is absent; all are non-trivial", c01_known, 200, 200)
PBT_PROPERTY("C04.v1", RULE_HIST, c04, 60000, 1500000)
PBT_PROPERTY("C05.v1", RULE_HIST, c05, 60000, 1500000)
PBT_PROPERTY("C25.runtime", "template sets of up to four templates with dynamic template references in all places, histories of 1-8 messages nested up to six deep, "
             "through the encoder, the reference decoder, the decoder, comparison and copies, or from streams of the reference encoder; non-trivial = at least two "
             "messages, two nested messages and an operator that used a previous value or an elided template id", c25, 25000, 1000000)
PBT_PROPERTY("SELF.ref", RULE_HIST, self, 20000, 100000)
