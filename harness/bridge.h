// Moves message values between the model and mFAST.
#pragma once
#include "model.h"
#include <memory>
#include <mfast.h>
#include <mfast/coder/fast_decoder.h>
#include <mfast/coder/fast_encoder.h>
#include <mfast/xml_parser/dynamic_templates_description.h>

namespace br {
using namespace fm;
typedef std::vector<const mfast::template_instruction *> Insts; // per model template

template <typename REF> inline void fill_iv(REF r, const V &v, bool grow) {
  r.clear();
  typedef typename REF::value_type T;
  std::vector<T> tmp;
  for (auto x : v.iv) tmp.push_back((T)x);
  (void)grow;
  r.assign(tmp.begin(), tmp.end());
}

inline void fill_field(const mfast::field_mref &fr, const Field &f, const V &v, const Insts &ti) {
  using namespace mfast;
  bool cst = f.op.k == CONST && !f.split;
  switch (f.ty) {
#define INTCASE(T, REF, C)                                                                         \
  case T: {                                                                                        \
    REF r(fr);                                                                                     \
    if (!v.present) r.omit();                                                                      \
    else if (cst) { if (f.opt) r.to_initial_value(); }                                             \
    else r.as((C)v.i);                                                                             \
    break;                                                                                         \
  }
    INTCASE(I32, int32_mref, int32_t)
    INTCASE(U32, uint32_mref, uint32_t)
    INTCASE(I64, int64_mref, int64_t)
    INTCASE(U64, uint64_mref, uint64_t)
    INTCASE(ENUM, enum_mref, uint64_t)
#undef INTCASE
  case DEC: {
    decimal_mref r(fr);
    if (!v.present) r.omit();
    else if (cst) { if (f.opt) r.to_initial_value(); }
    else r.as(v.i, (int16_t)v.exp);
    break;
  }
#define STRCASE(T, REF, EXPR)                                                                      \
  case T: {                                                                                        \
    REF r(fr);                                                                                     \
    if (!v.present) r.omit();                                                                      \
    else if (cst) { if (f.opt) r.to_initial_value(); }                                             \
    else { EXPR; }                                                                                 \
    break;                                                                                         \
  }
    STRCASE(ASCII, ascii_string_mref, r.as(boost::string_ref(v.s)))
    STRCASE(UNI, unicode_string_mref, r.as(boost::string_ref(v.s)))
    STRCASE(BYTES, byte_vector_mref,
            r.assign(reinterpret_cast<const unsigned char *>(v.s.data()),
                     reinterpret_cast<const unsigned char *>(v.s.data()) + v.s.size()))
#undef STRCASE
#define IVCASE(T, REF)                                                                             \
  case T: {                                                                                        \
    REF r(fr);                                                                                     \
    if (!v.present) r.omit();                                                                      \
    else fill_iv(r, v, false);                                                                     \
    break;                                                                                         \
  }
    IVCASE(I32V, int32_vector_mref)
    IVCASE(U32V, uint32_vector_mref)
    IVCASE(I64V, int64_vector_mref)
    IVCASE(U64V, uint64_vector_mref)
#undef IVCASE
  default: break;
  }
}

// the model schema is needed to walk into dynamic references
struct Bridge {
  const Schema &sc;
  Insts ti;
  explicit Bridge(const Schema &s) : sc(s) {}

  void fill(const mfast::aggregate_mref &m, const std::vector<Field> &fs, const std::vector<V> &vs) const {
    using namespace mfast;
    for (std::size_t k = 0; k < fs.size(); ++k) {
      const Field &f = fs[k];
      const V &v = vs[k];
      field_mref fr = m[k];
      switch (f.ty) {
      case GROUP: {
        group_mref g(fr);
        if (!v.present) { g.omit(); break; }
        fill(aggregate_mref(g), f.sub, v.sub);
        break;
      }
      case SEQ: {
        sequence_mref s(fr);
        if (!v.present) { s.omit(); break; }
        s.resize(v.el.size());
        for (std::size_t j = 0; j < v.el.size(); ++j) fill(s[j], f.sub, v.el[j]);
        break;
      }
      case TREF: {
        nested_message_mref n(fr);
        message_mref t = n.rebind(ti[v.tmpl]);
        fill(t, sc.t[v.tmpl].f, v.sub);
        break;
      }
      default: fill_field(fr, f, v, ti);
      }
    }
  }

  template <typename REF> static void get_iv(REF r, V &v) {
    for (std::size_t k = 0; k < r.size(); ++k) v.iv.push_back((int64_t)r[k]);
  }
  void extract(const mfast::aggregate_cref &m, const std::vector<Field> &fs, std::vector<V> &vs) const {
    using namespace mfast;
    if (m.num_fields() != fs.size()) throw pbt::Failure("message has a different number of fields than the template");
    vs.assign(fs.size(), V());
    for (std::size_t k = 0; k < fs.size(); ++k) {
      const Field &f = fs[k];
      V &v = vs[k];
      field_cref fr = m[k];
      if (f.ty == TREF) {
        nested_message_cref n(fr);
        const template_instruction *inst = n.target_instruction();
        v.present = inst != nullptr;
        if (!inst) continue;
        v.tmpl = -1;
        for (std::size_t j = 0; j < sc.t.size(); ++j)
          if (sc.t[j].id == inst->id()) v.tmpl = (int)j;
        if (v.tmpl < 0) throw pbt::Failure("nested message of unknown template id");
        extract(n.target(), sc.t[v.tmpl].f, v.sub);
        continue;
      }
      v.present = fr.present();
      if (fr.absent() == fr.present()) throw pbt::Failure("absent() == present()");
      if (!v.present) continue;
      switch (f.ty) {
      case I32: v.i = int32_cref(fr).value(); break;
      case U32: v.i = uint32_cref(fr).value(); break;
      case I64: v.i = int64_cref(fr).value(); break;
      case U64: v.i = (int64_t)uint64_cref(fr).value(); break;
      case ENUM: v.i = (int64_t)enum_cref(fr).value(); break;
      case DEC: {
        decimal_cref d(fr);
        v.i = d.mantissa();
        v.exp = d.exponent();
        break;
      }
      case ASCII: {
        ascii_string_cref s(fr);
        v.s.assign(s.data(), s.size());
        break;
      }
      case UNI: {
        unicode_string_cref s(fr);
        v.s.assign(s.data(), s.size());
        break;
      }
      case BYTES: {
        byte_vector_cref s(fr);
        v.s.assign(reinterpret_cast<const char *>(s.data()), s.size());
        break;
      }
      case I32V: get_iv(int32_vector_cref(fr), v); break;
      case U32V: get_iv(uint32_vector_cref(fr), v); break;
      case I64V: get_iv(int64_vector_cref(fr), v); break;
      case U64V: get_iv(uint64_vector_cref(fr), v); break;
      case GROUP: extract(aggregate_cref(group_cref(fr)), f.sub, v.sub); break;
      case SEQ: {
        sequence_cref s(fr);
        v.el.resize(s.size());
        for (std::size_t j = 0; j < s.size(); ++j) extract(s[j], f.sub, v.el[j]);
        break;
      }
      default: break;
      }
    }
  }
};

// a schema loaded through the XML parser
struct Loaded {
  const Schema &sc;
  std::string xml;
  mfast::template_registry reg;
  std::unique_ptr<mfast::dynamic_templates_description> desc;
  Bridge b;
  explicit Loaded(const Schema &s) : sc(s), xml(schema_xml(s)), b(s) {
    desc.reset(new mfast::dynamic_templates_description(xml.c_str(), "", &reg));
    bind();
  }
  Loaded(const Schema &s, const std::string &x) : sc(s), xml(x), b(s) {
    desc.reset(new mfast::dynamic_templates_description(xml.c_str(), "", &reg));
    bind();
  }
  void bind() {
    if (desc->size() != sc.t.size()) throw pbt::Failure("number of templates differs from the definition");
    for (std::size_t k = 0; k < sc.t.size(); ++k) b.ti.push_back((*desc)[k]);
  }
};

inline std::string describe_current_exception();
// run f; turn anything it throws into a Failure that names the exception

template <typename F> inline bool throws(F f, std::string *what = nullptr) {
  try {
    f();
  } catch (const pbt::Failure &) {
    throw;
  } catch (const pbt::Overrun &) {
    throw;
  } catch (...) {
    if (what) *what = describe_current_exception();
    return true;
  }
  return false;
}
inline std::string describe_current_exception() {
  try {
    throw;
  } catch (const boost::exception &e) {
    std::string s = boost::diagnostic_information(e);
    return s.substr(0, 600);
  } catch (const std::exception &e) {
    return e.what();
  } catch (...) {
    return "unknown exception";
  }
}
template <typename F> inline void must_not_throw(F f, const char *doing) {
  std::string w;
  if (throws(f, &w)) throw pbt::Failure(std::string(doing) + " threw: " + w);
}
} // namespace br
