// C24: enumerations, booleans and (with XETRA_FAST_SPECIFICATION) sets map
// names and values both ways, whatever form the definition has, and survive
// encoding and decoding.
#include "codec_common.h"
#include <mfast/boolean_ref.h>
#ifdef XETRA_FAST_SPECIFICATION
#include <mfast/set_ref.h>
static const bool xetra = true;
#else
static const bool xetra = false;
#endif
using namespace cc;
using namespace mfast;

namespace {
enum Form { INLINE, FIELD, TYPE, ELEMENT };

struct Def { // an enumeration, a boolean or a set
  bool set = false, boolean = false, explicit_values = false;
  bool ids = false; // Eurex style: the identifier stands in the id attribute
  std::vector<std::string> names;
  std::vector<uint64_t> values;
  std::string type; // name of the <define>
  Op op;            // operator in the <define>
  bool type_op = false;
};
struct F { // the way a field is written
  int def;
  Form form;
  bool op_outside; // <field><enum/>op</field>
};

std::string ident(Src &s, std::size_t k) {
  static const char *stem[] = {"E", "name_", "A.b", "Open", "x-", "\xc3\xa9"};
  std::string r = stem[s.below(6)];
  return r + std::to_string(k);
}
Def gen_def(Src &s, std::size_t k) {
  Def d;
  d.set = xetra && s.coin();
  d.boolean = !d.set && s.chance(1, 5);
  if (d.boolean) {
    d.names = {"false", "true"};
    d.values = {0, 1};
    return d;
  }
  std::size_t n = 1;
  switch (s.weighted({5, 1, 1})) {
  case 0: n = (std::size_t)s.range(1, 6); break;
  case 1: n = (std::size_t)s.range(7, 40); break;
  default: n = (std::size_t)s.range(60, d.set ? 64 : 140); break;
  }
  d.explicit_values = !d.set && s.coin();
  d.ids = xetra && s.coin();
  uint64_t v = 0;
  for (std::size_t j = 0; j < n; ++j) {
    d.names.push_back(ident(s, j));
    if (d.set) d.values.push_back((uint64_t)1 << j);
    else if (!d.explicit_values) d.values.push_back(j);
    else {
      uint64_t left = std::numeric_limits<uint64_t>::max() - (j ? v + 1 : 0) - (n - 1 - j);
      uint64_t step = 0;
      switch (s.weighted({4, 3, 1, 1})) {
      case 0: step = 0; break;
      case 1: step = s.below(5); break;
      case 2: step = s.raw64() >> s.below(64); break;
      default: step = left - s.below(2); break;
      }
      step = std::min(step, left);
      v = (j ? v + 1 : 0) + step;
      d.values.push_back(v);
    }
  }
  d.type = "X" + std::to_string(k);
  return d;
}
Op gen_op(Src &s, const Def &d, bool opt) {
  Op o;
  switch (s.weighted({3, 1, 2, 3})) {
  case 0: o.k = NONE; break;
  case 1: o.k = CONST; break;
  case 2: o.k = DEFAULT; break;
  default: o.k = COPY; break;
  }
  o.has_init = o.k == CONST || (o.k == DEFAULT && !opt) || (o.k != NONE && s.coin());
  if (o.has_init) {
    o.init.i = (int64_t)d.values[s.below(d.values.size())];
    if (d.set && s.chance(1, 3)) // several members: only a number can say so
      o.init.i = (int64_t)(s.raw64() & (d.names.size() == 64 ? ~(uint64_t)0 : ((uint64_t)1 << d.names.size()) - 1));
  }
  return o;
}
std::string init_name(const Def &d, uint64_t v) {
  for (std::size_t k = 0; k < d.values.size(); ++k)
    if (d.values[k] == v) return d.names[k];
  return std::to_string(v);
}
std::string elements(const Def &d) {
  if (d.boolean) return "";
  std::string r;
  for (std::size_t k = 0; k < d.names.size(); ++k) {
    r += "<element ";
    if (d.ids) r += "name=\"n" + std::to_string(k % 7) + "\" id=\"" + xml_esc(d.names[k]) + "\"";
    else r += "name=\"" + xml_esc(d.names[k]) + "\"";
    if (d.explicit_values) r += " value=\"" + std::to_string(d.values[k]) + "\"";
    r += "/>";
  }
  return r;
}
std::string op_text(Src &s, const Def &d, const Op &o) {
  bool number = xetra && s.chance(1, 3); // the name or the number
  return op_xml(o, !o.has_init ? "" : number ? std::to_string((uint64_t)o.init.i) : init_name(d, (uint64_t)o.init.i));
}

struct World {
  std::vector<Def> defs;
  std::vector<F> fs;
  Schema sc;
  std::string xml;
};
World gen_world(Src &s, bool codec) {
  World w;
  std::size_t nd = (std::size_t)s.range(1, 3);
  for (std::size_t k = 0; k < nd; ++k) {
    w.defs.push_back(gen_def(s, k));
    Def &d = w.defs.back();
    if (!d.boolean && s.chance(1, 4)) {
      d.type_op = true;
      d.op = gen_op(s, d, false);
      if (d.op.k == NONE) d.type_op = false;
    }
  }
  std::string body, defines;
  Template t;
  t.name = "T";
  t.id = 1;
  std::size_t nf = (std::size_t)s.range(1, 4);
  for (std::size_t k = 0; k < nf; ++k) {
    F f;
    f.def = (int)s.below(nd);
    const Def &d = w.defs[f.def];
    f.form = d.boolean ? (Form)(s.below(2)) : (Form)s.below(4);
    f.op_outside = s.coin();
    Field m;
    m.ty = ENUM;
    m.name = "f" + std::to_string(k);
    m.id = s.coin() ? (uint32_t)(100 + k) : 0;
    m.opt = s.coin();
    m.boolean = d.boolean;
    m.set = d.set;
    bool inherits = (f.form == TYPE || f.form == ELEMENT) && d.type_op;
    if (inherits) {
      if (d.op.k == DEFAULT && !d.op.has_init) m.opt = true;
      m.op = d.op;
    } else
      m.op = gen_op(s, d, m.opt);
    if (m.op.k == DEFAULT && m.op.has_init && codec) m.opt = false; // known finding of C01
    for (std::size_t j = 0; j < d.names.size(); ++j) m.elems.push_back({d.names[j], d.values[j]});
    if (d.set) { // sets have any combination of their members as value
      uint64_t all = d.names.size() == 64 ? ~(uint64_t)0 : ((uint64_t)1 << d.names.size()) - 1;
      m.elems.push_back({"none", 0});
      m.elems.push_back({"all", all});
      for (int j = 0; j < 6; ++j) m.elems.push_back({"some", s.raw64() & all});
    }
    std::string attr = " name=\"" + m.name + "\"";
    if (m.id) attr += " id=\"" + std::to_string(m.id) + "\"";
    std::string pres = m.opt ? " presence=\"optional\"" : s.chance(1, 3) ? " presence=\"mandatory\"" : "";
    std::string op = inherits ? "" : op_text(s, d, m.op);
    const char *el = d.boolean ? "boolean" : d.set ? "set" : "enum";
    switch (f.form) {
    case INLINE:
      body += "<" + std::string(el) + attr + pres + ">" + (s.coin() ? elements(d) + op : op + elements(d)) + "</" + el + ">\n";
      break;
    case FIELD: {
      bool pin = s.coin();
      body += "<field" + attr + (pin ? "" : pres) + "><" + el + (pin ? pres : "") + ">" + elements(d) + (f.op_outside ? "" : op) + "</" + el + ">" + (f.op_outside ? op : "") + "</field>\n";
      break;
    }
    case TYPE: {
      bool pin = s.coin();
      body += "<field" + attr + (pin ? "" : pres) + "><type name=\"" + d.type + "\"" + (pin ? pres : "") + ">" + (f.op_outside ? "" : op) + "</type>" + (f.op_outside ? op : "") + "</field>\n";
      break;
    }
    case ELEMENT: body += "<" + d.type + attr + pres + ">" + op + "</" + d.type + ">\n"; break;
    }
    w.fs.push_back(f);
    t.f.push_back(m);
  }
  for (auto &d : w.defs)
    if (!d.boolean) defines += "<define name=\"" + d.type + "\"><" + (d.set ? "set" : "enum") + ">" + elements(d) + (d.type_op ? op_text(s, d, d.op) : "") + "</" + (d.set ? "set" : "enum") + "></define>\n";
  w.sc.t.push_back(t);
  SchemaGen::resolve(w.sc);
  w.xml = "<?xml version=\"1.0\"?>\n<templates xmlns=\"http://www.fixprotocol.org/ns/fast/td/1.2\">\n" + defines + "<template name=\"T\" id=\"1\">\n" + body + "</template></templates>\n";
  return w;
}

template <typename I> void check_table(const I *in, const Def &d, const std::string &what) {
  PBT_CHECK(in->num_elements() == d.names.size(), what << " has " << in->num_elements() << " elements instead of " << d.names.size());
  for (std::size_t k = 0; k < d.names.size(); ++k)
    PBT_CHECK(in->elements()[k] == d.names[k], what << ": element " << k << " is named " << in->elements()[k] << " instead of " << d.names[k]);
}
std::string name_of(const char *n) { return n ? "\"" + std::string(n) + "\"" : "(null)"; }

void check_enum(Src &s, const enum_field_instruction *in, const Def &d, const std::string &what) {
  check_table(in, d, what);
  PBT_CHECK((in->element_values() != nullptr) == (d.explicit_values || (xetra && !d.boolean)), what << (in->element_values() ? " has" : " does not have") << " explicit values");
  for (std::size_t k = 0; k < d.names.size(); ++k) {
    if (in->element_values()) PBT_CHECK(in->element_values()[k] == d.values[k], what << ": the value of " << d.names[k] << " is " << in->element_values()[k] << " instead of " << d.values[k]);
    const char *n = in->element_name(d.values[k]);
    PBT_CHECK(n && n == d.names[k], what << ": the name of " << d.values[k] << " is " << name_of(n) << " instead of " << d.names[k]);
  }
  // values without a name
  for (int k = 0; k < 3; ++k) {
    uint64_t v = k == 0 ? d.values.back() + 1 : k == 1 ? d.values[s.below(d.values.size())] + 1 : s.raw64() >> s.below(64);
    if (std::find(d.values.begin(), d.values.end(), v) != d.values.end()) continue;
    const char *n = in->element_name(v);
    PBT_CHECK(n == nullptr, what << ": " << v << " has the name " << name_of(n));
  }
}

// what a new message holds
void check_initial(const field_cref &r, uint64_t v, const Field &f, const std::string &what, bool present = true) {

  if (!f.op.has_init) return;
  PBT_CHECK(r.present() == present, what << (present ? " is absent" : " is present"));
  PBT_CHECK(!present || v == (uint64_t)f.op.init.i, what << " is " << v << " initially, instead of " << (uint64_t)f.op.init.i);
}

void c24(Src &s, Case &c) {
  World w = gen_world(s, true);
  c.mix(w.xml);
  if (c.want_log) c.note(w.xml);
  std::unique_ptr<br::Loaded> L;
  br::must_not_throw([&] { L.reset(new br::Loaded(w.sc, w.xml)); }, "loading the definition");
  const template_instruction *ti = L->b.ti[0];
  malloc_allocator alloc;
  message_type m(&alloc, ti), m2(&alloc, ti);
  bool odd = false;
  for (std::size_t k = 0; k < w.fs.size(); ++k) {
    const Field &f = w.sc.t[0].f[k];
    const Def &d = w.defs[w.fs[k].def];
    const field_instruction *in = ti->subinstruction((uint32_t)k);
    std::string what = "field " + f.name;
    PBT_CHECK(in->name() == f.name && in->id() == f.id && in->optional() == f.opt, what << " is " << in->name() << ", id " << in->id() << ", optional " << in->optional());
    static const operator_enum_t ops[] = {operator_none, operator_constant, operator_default, operator_copy};
    PBT_CHECK(in->field_operator() == ops[f.op.k], what << " has operator " << (int)in->field_operator() << " instead of " << (int)ops[f.op.k]);
    if (d.set) {
#ifdef XETRA_FAST_SPECIFICATION
      PBT_CHECK(in->field_type() == field_type_set, what << " is no set");
      check_table(static_cast<const set_field_instruction *>(in), d, what);
      set_mref r(m.ref()[k]);
      check_initial(set_cref(r), r.value(), f, what, !f.opt);
      if (f.op.k != CONST) {
        // members are independent of each other
        uint64_t all = d.names.size() == 64 ? ~(uint64_t)0 : ((uint64_t)1 << d.names.size()) - 1, v = s.raw64() & all;
        r.as(v);
        for (std::size_t j = 0; j < d.names.size(); ++j) {
          uint64_t bit = (uint64_t)1 << j;
          r.as(r.value() ^ bit);
          v ^= bit;
          PBT_CHECK(r.value() == v && r.present(), what << " is " << r.value() << " instead of " << v);
        }
        set_mref r2(m2.ref()[k]);
        r2.as(set_cref(r));
        PBT_CHECK(set_cref(r2) == set_cref(r) && r2.value() == v, what << ": the copy is " << r2.value());
        r2.as(v ^ ((uint64_t)1 << s.below(d.names.size())));
        PBT_CHECK(set_cref(r2) != set_cref(r), what << ": sets that differ in one member are equal");
        if (f.op.has_init) {
          r.to_initial_value();
          check_initial(set_cref(r), r.value(), f, what + " (to_initial_value)");
          PBT_CHECK(set_cref(r).is_initial_value(), what << ": is_initial_value() is false");
        }
      }
      c.label("set");
      odd = true;
#endif
      continue;
    }
    PBT_CHECK(in->field_type() == field_type_enum, what << " is no enumeration");
    const enum_field_instruction *ei = static_cast<const enum_field_instruction *>(in);
    check_enum(s, ei, d, what);
    enum_mref r(m.ref()[k]);
    check_initial(enum_cref(r), r.value(), f, what, !f.opt);
    PBT_CHECK(enum_cref(r).is_boolean() == d.boolean, what << ": is_boolean() is " << enum_cref(r).is_boolean());
    if (f.op.k == CONST) continue;
    enum_mref r2(m2.ref()[k]);
    for (std::size_t j = 0; j < d.names.size(); ++j) {
      r.as(d.values[j]);
      PBT_CHECK(r.present() && r.value() == d.values[j] && r.value_name() == d.names[j], what << " set to " << d.names[j] << " is " << r.value() << " " << name_of(r.value_name()));
      r2.as(enum_cref(r));
      PBT_CHECK(enum_cref(r2) == enum_cref(r) && r2.value() == d.values[j], what << ": the copy is " << r2.value());
      r2.as(d.values[j] + 1);
      PBT_CHECK(enum_cref(r2) != enum_cref(r), what << ": different values are equal");
      if (d.boolean) {
        boolean_mref b(m.ref()[k]), b2(m2.ref()[k]);
        PBT_CHECK(b.value() == (j == 1) && b.is_true() == (j == 1) && b.is_false() == (j == 0), what << " is not " << d.names[j]);
        if (j) b2.as_true(); else b2.as_false();
        PBT_CHECK(enum_cref(b2) == enum_cref(r), what << ": as_" << d.names[j] << " gives " << enum_cref(b2).value());
      }
    }
    if (f.opt) {
      r.omit();
      PBT_CHECK(r.absent() && enum_cref(r) != enum_cref(r2), what << " is not absent after omit()");
    }
    if (f.op.has_init) {
      r.to_initial_value();
      check_initial(enum_cref(r), r.value(), f, what + " (to_initial_value)");
      PBT_CHECK(enum_cref(r).is_initial_value(), what << ": is_initial_value() is false");
    }
    if (d.boolean) c.label("boolean");
    else c.label(d.explicit_values ? "enumeration with explicit values" : "enumeration without explicit values");
    odd = odd || d.names.size() > 1;
    if (w.fs[k].form == TYPE || w.fs[k].form == ELEMENT) c.label("defined type");
  }
  // through the codec
  History h;
  h.sc = w.sc;
  HistOpt ho;
  ho.max_msgs = 6;
  ho.go.no_absent_default = 1;
  gen_msgs(s, h, ho);
  if (c.want_log)
    for (std::size_t k = 0; k < h.msgs.size(); ++k) c.note(show(h.msgs[k], h.sc) + "\n   ref: " + pbt::hex(h.bytes[k]));
  fast_encoder enc;
  enc.include({L->desc.get()});
  fast_decoder dec, dec2;
  dec.include({L->desc.get()});
  dec2.include({L->desc.get()});
  for (std::size_t k = 0; k < h.msgs.size(); ++k) {
    std::vector<char> buf;
    message_type msg(&alloc, ti);
    std::vector<V> got;
    L->b.fill(msg.ref(), w.sc.t[0].f, h.msgs[k].f);
    br::must_not_throw([&] {
      enc.encode(msg.cref(), buf, h.resets[k]);
      const char *p = buf.data();
      message_cref d1 = dec.decode(p, p + buf.size(), h.resets[k]);
      PBT_CHECK(p == buf.data() + buf.size(), "message " << k << ": not everything was consumed");
      PBT_CHECK(d1 == msg.cref(), "message " << k << " differs after the round trip");
      L->b.extract(d1, w.sc.t[0].f, got);
    }, "round trip");
    for (std::size_t j = 0; j < got.size(); ++j) PBT_CHECK(got[j] == h.msgs[k].f[j], "message " << k << " field f" << j << " is " << show(w.sc.t[0].f[j], got[j], w.sc) << " after the round trip");
    br::must_not_throw([&] {
      const char *p = h.bytes[k].data();
      L->b.extract(dec2.decode(p, p + h.bytes[k].size(), h.resets[k]), w.sc.t[0].f, got);
    }, "decoding");
    for (std::size_t j = 0; j < got.size(); ++j) {
      PBT_CHECK(got[j] == h.msgs[k].f[j], "message " << k << " field f" << j << " is decoded as " << show(w.sc.t[0].f[j], got[j], w.sc));
    }
  }
  c.sub = h.msgs.size();
  c.nontrivial = odd;
}

// definitions that contradict themselves
void c24_invalid(Src &s, Case &c) {
  Def d;
  do d = gen_def(s, 0);
  while (d.boolean);
  std::string el = d.set ? "set" : "enum", body, what;
  std::string attr = " name=\"f\"";
  switch (s.below(d.set ? 1 : 3)) {
  case 0:
    what = "unknown initial value";
    body = "<" + el + attr + ">" + elements(d) + "<" + s.pick(std::vector<std::string>{"copy", "constant", "default"}) + " value=\"" + s.pick(std::vector<std::string>{"NoSuchName", "e0", "Other"}) + "\"/></" + el + ">";
    break;
  case 1: {
    what = "repeated or descending values";
    d.explicit_values = true;
    d.names.push_back("More");
    d.values.push_back(d.values[s.below(d.values.size())]);
    body = "<enum" + attr + ">" + elements(d) + "</enum>";
    break;
  }
  default:
    what = "value that is no number";
    d.explicit_values = false;
    d.names.push_back("More");
    body = elements(d);
    body = "<enum" + attr + ">" + body.substr(0, body.size() - 2) + " value=\"" + s.pick(std::vector<std::string>{"x", "", "1x", "99999999999999999999"}) + "\"/></enum>";
  }
  std::string xml = "<?xml version=\"1.0\"?>\n<templates xmlns=\"http://www.fixprotocol.org/ns/fast/td/1.2\"><template name=\"T\" id=\"1\">" + body + "</template></templates>\n";
  c.mix(xml);
  if (c.want_log) c.note(xml);
  bool thrown = br::throws([&] { dynamic_templates_description desc(xml.c_str()); });
  PBT_CHECK(thrown, "a definition with an " << what << " is accepted");
  c.label(what.c_str());
  c.nontrivial = true;
}

PBT_PROPERTY(xetra ? "C24.xetra" : "C24.enums",
             "1-3 enumerations, booleans (sets) of 1-140 (64) elements with and without explicit values, written in the field or as a defined type, with or without an operator, in 1-4 fields: "
             "tables, names, values, initial values, copies, and 1-6 messages through the codec. Non-trivial: more than one element.",
             c24, 12000, 150000)
PBT_PROPERTY(xetra ? "C24.xetra_invalid" : "C24.invalid", "definitions with an unknown initial value, or values that repeat, descend or are no numbers: must be refused. Non-trivial: all.", c24_invalid, 4000, 40000)
} // namespace
