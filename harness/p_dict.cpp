// C09: previous values are shared per dictionary, namespace and key.
#include "codec_common.h"
using namespace cc;

namespace {
struct Site {
  Op *op;
  Field *f; // (the sequence for a length operator)
  Ty ty;
};
void sites(std::vector<Field> &fs, std::vector<Site> &out) {
  for (auto &f : fs) {
    if (f.ty == SEQ && f.len_op.uses_dict()) out.push_back({&f.len_op, &f, U32});
    if (is_scalar(f.ty) && f.op.uses_dict()) out.push_back({&f.op, &f, f.split ? EXPO : f.ty});
    if (f.split && f.mop.uses_dict()) out.push_back({&f.mop, &f, MANT});
    sites(f.sub, out);
  }
}
std::vector<Site> sites(Schema &sc) {
  std::vector<Site> r;
  for (auto &t : sc.t) sites(t.f, r);
  return r;
}
GenOpt opts() {
  GenOpt go;
  go.share = true;
  go.max_templates = 4;
  go.wide_den = 0;
  go.int_vectors = false;
  go.big_strings = false;
  go.accept = [](const Field &f) {
    // mostly fields that have previous values
    if (!is_scalar(f.ty)) return true;
    return f.op.uses_dict() || f.mop.uses_dict() || f.name.back() % 3 == 0;
  };
  return go;
}

// do two operators share in the way the definition says?
void share(Src &s, Case &c) {
  History h;
  HistOpt ho;
  ho.max_msgs = 8;
  bool enc_side = s.coin();
  if (enc_side) ho.go.no_absent_default = 1;
  else ho.noncanon = true;
  h = gen_history(s, opts(), ho);
  describe(h, c);
  br::Loaded L(h.sc);
  Schema copy = h.sc;
  std::map<int, int> uses;
  for (auto &x : sites(copy)) ++uses[x.op->slot];
  unsigned shared = 0;
  for (auto &u : uses) shared += u.second > 1;
  mfast::fast_decoder dec;
  mfast::fast_encoder enc;
  br::must_not_throw([&] { dec.include({L.desc.get()}); enc.include({L.desc.get()}); }, "including the templates");
  Decoder ref(h.sc);
  for (std::size_t k = 0; k < h.msgs.size(); ++k) {
    const Msg &m = h.msgs[k];
    std::string bytes = h.bytes[k];
    if (enc_side) {
      mfast::malloc_allocator alloc;
      mfast::message_type x(&alloc, const_cast<mfast::template_instruction *>(L.b.ti[m.tmpl]));
      L.b.fill(x.ref(), h.sc.t[m.tmpl].f, m.f);
      std::vector<char> buf;
      br::must_not_throw([&] { enc.encode(x.cref(), buf, h.resets[k]); }, "encoding");
      bytes.assign(buf.begin(), buf.end());
      std::size_t pos = 0;
      Msg r;
      try {
        r = ref.message(bytes, pos, h.resets[k]);
      } catch (const RefError &e) {
        PBT_FAIL("message #" << k << " is not valid FAST: " << e.what() << " in " << pbt::hex(bytes));
      }
      PBT_CHECK(r.tmpl == m.tmpl && eqv(r.f, m.f) && pos == bytes.size(),
                "an independent decoder with the dictionary entries of the definition reads message #" << k << " as\n " << show(r, h.sc)
                                                                                                       << "\n instead of\n " << show(m, h.sc));
    }
    const char *p = bytes.data();
    std::vector<V> got;
    br::must_not_throw([&] {
      mfast::message_cref r = dec.decode(p, p + bytes.size(), h.resets[k]);
      PBT_CHECK(r.id() == h.sc.t[m.tmpl].id, "decoded template id " << r.id());
      L.b.extract(r, h.sc.t[m.tmpl].f, got);
    }, "decoding");
    PBT_CHECK(eqv(got, m.f), "message #" << k << " is decoded as\n " << show(h.sc.t[m.tmpl].f, got, h.sc) << "\n instead of\n " << show(m, h.sc));
  }
  c.sub = h.msgs.size();
  label(h, c);
  for (auto &x : sites(copy))
    if (uses[x.op->slot] > 1) {
      if (!x.op->dict.empty()) c.label("shared entry of dictionary " + x.op->dict);
      if (!x.op->ns.empty() || !x.f->ns.empty()) c.label("shared entry with a namespace");
    }
  c.label(enc_side ? "encoder" : "decoder");
  c.nontrivial = shared && nontrivial(h);
}

// two descriptions in one codec: entries are shared across them by name and namespace
void two(Src &s, Case &c) {
  History h;
  GenOpt go = opts();
  go.max_templates = 4;
  SchemaGen g(s, go);
  h.sc = g.gen();
  if (h.sc.t.size() < 2) { c.label("one template"); return; }
  // the second half is defined in another document
  std::size_t cut = 1 + (std::size_t)s.below(h.sc.t.size() - 1);
  HistOpt ho;
  ho.go.no_absent_default = 1;
  gen_msgs(s, h, ho);
  describe(h, c);
  c.mix(cut);
  Schema a = h.sc, b = h.sc;
  a.t.resize(cut);
  b.t.erase(b.t.begin(), b.t.begin() + (long)cut);
  mfast::template_registry reg;
  std::string xa = schema_xml(a), xb = schema_xml(b);
  mfast::dynamic_templates_description da(xa.c_str(), "", &reg), db(xb.c_str(), "", &reg);
  br::Bridge br_(h.sc);
  for (std::size_t k = 0; k < da.size(); ++k) br_.ti.push_back(da[k]);
  for (std::size_t k = 0; k < db.size(); ++k) br_.ti.push_back(db[k]);
  mfast::fast_decoder dec;
  mfast::fast_encoder enc;
  br::must_not_throw([&] { dec.include({&da, &db}); enc.include({&da, &db}); }, "including the templates");
  for (std::size_t k = 0; k < h.msgs.size(); ++k) {
    const Msg &m = h.msgs[k];
    mfast::malloc_allocator alloc;
    mfast::message_type x(&alloc, const_cast<mfast::template_instruction *>(br_.ti[m.tmpl]));
    br_.fill(x.ref(), h.sc.t[m.tmpl].f, m.f);
    std::vector<char> buf;
    br::must_not_throw([&] { enc.encode(x.cref(), buf, h.resets[k]); }, "encoding");
    // the canonical encoding depends on what is shared
    const char *p = h.bytes[k].data();
    std::vector<V> got;
    br::must_not_throw([&] {
      mfast::message_cref r = dec.decode(p, p + h.bytes[k].size(), h.resets[k]);
      PBT_CHECK(r.id() == h.sc.t[m.tmpl].id, "decoded template id " << r.id());
      br_.extract(r, h.sc.t[m.tmpl].f, got);
    }, "decoding");
    PBT_CHECK(eqv(got, m.f), "message #" << k << " is decoded as\n " << show(h.sc.t[m.tmpl].f, got, h.sc) << "\n instead of\n " << show(m, h.sc));
  }
  c.sub = h.msgs.size();
  label(h, c);
  c.nontrivial = nontrivial(h);
}

// one key for two types
void mismatch(Src &s, Case &c) {
  GenOpt go = opts();
  SchemaGen g(s, go);
  Schema sc = g.gen();
  auto all = sites(sc);
  auto kind = [](Ty t) { return t == MANT ? I64 : t == ENUM ? U64 : t; };
  std::vector<std::pair<std::size_t, std::size_t>> pairs;
  for (std::size_t a = 0; a < all.size(); ++a)
    for (std::size_t b = a + 1; b < all.size(); ++b)
      if (kind(all[a].ty) != kind(all[b].ty)) pairs.push_back({a, b});
  if (pairs.empty()) { c.label("no two types"); return; }
  auto p = s.pick(pairs);
  bool ok_first = s.coin();
  std::string key = "mix", ns = s.pick(std::vector<std::string>{"urn:a", "urn:b"}), dict = s.pick(std::vector<std::string>{"global", "usr"});
  Op &A = *all[p.first].op, &B = *all[p.second].op;
  A.key = key; A.ns = ns; A.dict = dict;
  B.key = key; B.ns = ns; B.dict = dict;
  if (ok_first) { // differing in one part the entries are not the same
    switch (s.below(3)) {
    case 0: B.key = "mix2"; break;
    case 1: B.ns = ns == "urn:a" ? "urn:b" : "urn:a"; break;
    default: B.dict = dict == "usr" ? "usr9" : "usr"; break;
    }
  }
  std::string x = schema_xml(sc);
  c.mix(x);
  if (c.want_log) c.note(x);
  c.nontrivial = true;
  br::Loaded L(sc);
  std::string what;
  bool e = br::throws([&] { mfast::fast_encoder q; q.include({L.desc.get()}); }, &what);
  std::string what2;
  bool d = br::throws([&] { mfast::fast_decoder q; q.include({L.desc.get()}); }, &what2);
  if (ok_first) {
    PBT_CHECK(!e && !d, "fields with separate entries are rejected: " << what << what2);
    c.label("separate entries");
  } else {
    PBT_CHECK(e, "the encoder accepts one key for fields of different types");
    PBT_CHECK(d, "the decoder accepts one key for fields of different types");
    c.label("one entry for two types");
  }
}
} // namespace
PBT_PROPERTY("C09.share", "template sets in which operators often name dictionary (global, template, type, user), key and namespace, and elements that "
             "inherit dictionary, namespace and type reference, with histories of 1-8 messages encoded and checked by an independent decoder or "
             "encoded independently and decoded; non-trivial = some entry has several fields, and previous values were used", share, 40000, 1500000)
PBT_PROPERTY("C09.documents", "the same with the templates defined in two documents; non-trivial as above", two, 12000, 400000)
PBT_PROPERTY("C09.mismatch", "two fields of different types given the same entry (must be refused) or entries that differ only in dictionary, "
             "namespace or key (must be accepted)", mismatch, 12000, 300000)
