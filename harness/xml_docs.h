// Template documents and what is expected of the instructions made from them;
// shared by C17 (loader) and C18 (type generator).
#pragma once
#include <set>
#include "codec_common.h"
#include <mfast/output.h>
namespace xd {
using namespace cc;
using namespace mfast;

// what is expected of an instruction
struct N {
  field_type_enum_t ty = field_type_int32;
  std::string name, ns;
  uint32_t id = 0;
  bool opt = false;
  uint64_t tag = 0;
  operator_enum_t op = operator_none;
  bool ctx = false;
  std::string key, cdict, cns;
  bool has_init = false;
  Scalar init;
  // unicode, byteVector
  uint32_t len_id = 0;
  std::string len_name, len_ns;
  // decimal
  bool split = false;
  std::vector<N> mant, length; // at most one
  // enum
  std::vector<std::string> elems;
  std::vector<uint64_t> vals;
  // group, sequence, template
  std::vector<N> sub;
  std::string dict, tyref, tyref_ns;
  // template
  std::string tns;
  bool reset = false;
};

#ifdef XETRA_FAST_SPECIFICATION
static const bool xetra = true; // has sets, timestamps, and more forms of enumerations
#else
static const bool xetra = false;
#endif
inline std::string S(const char *p) { return p ? p : "(null)"; }
#define WANT(got, want, what)                                                                                         \
  do {                                                                                                                \
    auto g_ = (got);                                                                                                  \
    decltype(g_) w_ = (want);                                                                                         \
    if (!(g_ == w_)) {                                                                                                \
      std::ostringstream o_;                                                                                          \
      o_ << at << ": " << what << " is " << g_ << " instead of " << w_;                                              \
      throw pbt::Failure(o_.str());                                                                                   \
    }                                                                                                                 \
  } while (0)

inline void check_context(const op_context_t *c, const N &n, const std::string &at) {
  WANT(c != nullptr, n.ctx, "having a dictionary key");
  if (!c) return;
  WANT(S(c->key_), n.key, "the key");
  WANT(S(c->dictionary_), n.cdict, "the dictionary of the operator");
  WANT(S(c->ns_), n.cns, "the namespace of the key");
}
inline void check_int(const value_storage &v, const N &n, const std::string &at) {
  WANT(!v.is_empty(), n.has_init, "having an initial value");
  if (!n.has_init) return;
  switch (n.ty) {
  case field_type_int32: WANT(v.get<int32_t>(), (int32_t)n.init.i, "the initial value"); break;
  case field_type_uint32: WANT(v.get<uint32_t>(), (uint32_t)n.init.i, "the initial value"); break;
  case field_type_int64: WANT(v.get<int64_t>(), n.init.i, "the initial value"); break;
  default: WANT(v.get<uint64_t>(), (uint64_t)n.init.i, "the initial value");
  }
}
inline void check(const field_instruction *p, const N &n, const std::string &path, std::size_t &count);
inline void check_sub(const group_field_instruction *g, const N &n, const std::string &at, std::size_t &count) {
  WANT(g->subinstructions().size(), n.sub.size(), "the number of fields");
  for (std::size_t k = 0; k < n.sub.size(); ++k) check(g->subinstruction(k), n.sub[k], at, count);
  WANT(S(g->dictionary()), n.dict, "the dictionary");
  WANT(S(g->typeref_name()), n.tyref, "the typeRef");
  WANT(S(g->typeref_ns()), n.tyref_ns, "the namespace of the typeRef");
}
inline void check(const field_instruction *p, const N &n, const std::string &path, std::size_t &count) {
  std::string at = path + "/" + n.name;
  ++count;
  WANT((int)p->field_type(), (int)(n.split ? field_type_exponent : n.ty), "the type");
  if (n.ty == field_type_templateref) return;
  WANT(S(p->name()), n.name, "the name");
  WANT(p->id(), n.id, "the id");
  WANT(S(p->ns()), n.ns, "the namespace");
  if (n.ty != field_type_template) WANT(p->optional(), n.opt, "optional");
  WANT(p->tag().to_uint64(), n.tag, "the tag");
  WANT((int)p->field_operator(), (int)n.op, "the operator");
  switch (n.ty) {
  case field_type_int32: case field_type_uint32: case field_type_int64: case field_type_uint64: case field_type_enum: case field_type_set: {
    auto i = dynamic_cast<const integer_field_instruction_base *>(p);
    PBT_CHECK(i, at << " is no integer");
    check_context(i->op_context(), n, at);
    check_int(i->initial_value(), n, at);
    if (n.ty == field_type_set) {
      auto e = static_cast<const set_field_instruction *>(p);
      WANT(e->num_elements(), (uint64_t)n.elems.size(), "the number of elements");
      for (std::size_t k = 0; k < n.elems.size(); ++k) WANT(S(e->elements()[k]), n.elems[k], "the name of an element");
    }
    if (n.ty == field_type_enum) {
      auto e = static_cast<const enum_field_instruction *>(p);
      WANT(e->num_elements(), (uint64_t)n.elems.size(), "the number of elements");
      for (std::size_t k = 0; k < n.elems.size(); ++k) {
        WANT(S(e->elements()[k]), n.elems[k], "the name of an element");
        uint64_t v = n.vals.empty() ? k : n.vals[k];
        WANT(e->element_values() ? e->element_values()[k] : (uint64_t)k, v, "the value of an element");
      }
    }
    break;
  }
  case field_type_decimal: {
    auto d = static_cast<const decimal_field_instruction *>(p);
    check_context(d->op_context(), n, at);
    WANT(d->mantissa_instruction() != nullptr, n.split, "having two operators");
    if (n.split) {
      const N &m = n.mant[0];
      auto mi = d->mantissa_instruction();
      WANT((int)mi->field_operator(), (int)m.op, "the operator of the mantissa");
      check_context(mi->op_context(), m, at + "/mantissa");
      check_int(mi->initial_value(), m, at + "/mantissa");
      if (n.has_init) WANT((int)d->initial_value().of_decimal.exponent_, n.init.exp, "the initial exponent");
    } else {
      WANT(!d->initial_value().is_empty(), n.has_init, "having an initial value");
      if (n.has_init) { // equal as numbers
        int64_t a = d->initial_value().of_decimal.mantissa_, b = n.init.i;
        int x = d->initial_value().of_decimal.exponent_, y = n.init.exp;
        for (; a && a % 10 == 0; a /= 10) ++x;
        for (; b && b % 10 == 0; b /= 10) ++y;
        WANT(a, b, "the mantissa of the initial value");
        if (b) WANT(x, y, "the exponent of the initial value");
      }
    }
    break;
  }
  case field_type_ascii_string: case field_type_unicode_string: case field_type_byte_vector: {
    auto a = static_cast<const ascii_field_instruction *>(p);
    check_context(a->op_context(), n, at);
    const value_storage &v = a->initial_value();
    WANT(!v.is_empty(), n.has_init, "having an initial value");
    if (n.has_init) WANT(quoted(std::string((const char *)v.get<const char *>(), v.array_length())), quoted(n.init.s), "the initial value");
    if (n.ty != field_type_ascii_string) {
      auto u = static_cast<const unicode_field_instruction *>(p);
      WANT(u->length_id(), n.len_id, "the id of the length");
      WANT(S(u->length_name()), n.len_name, "the name of the length");
      WANT(S(u->length_ns()), n.len_ns, "the namespace of the length");
    }
    break;
  }
  case field_type_group:
    check_sub(static_cast<const group_field_instruction *>(p), n, at, count);
    break;
  case field_type_sequence: {
    auto q = static_cast<const sequence_field_instruction *>(p);
    check_sub(q, n, at, count);
    PBT_CHECK(q->length_instruction(), at << " has no length");
    check(q->length_instruction(), n.length[0], at, count);
    break;
  }
  case field_type_template: {
    auto t = static_cast<const template_instruction *>(p);
    check_sub(t, n, at, count);
    WANT(S(t->template_ns()), n.tns, "the templateNs");
    WANT(t->has_reset_attribute(), n.reset, "the reset attribute");
    break;
  }
  default: break;
  }
}

// ------------------------------------------------------------------ generator
typedef std::vector<std::pair<std::string, std::string>> Attrs;
struct Type {
  N n;
  std::string key_ns; // registered under ("" = only in its document)
  bool shared = false;
};
struct Gen {
  Src &s;
  std::map<std::string, Type> types; // of this document
  std::vector<std::pair<std::string, Type>> shared; // types of earlier documents
  std::vector<std::pair<std::string, N>> templates; // (namespace, template)
  std::vector<std::string> tags;                    // enumeration mfast:tag
  std::vector<uint64_t> tag_vals;
  unsigned left = 0, serial = 0;
  bool cpp = false; // for the type generator: names do not meet in C++
  bool few = false;
  std::set<uint32_t> template_ids; // of documents for the type generator
  bool sole = false, in_define = false, wrapped = false, typed = false, comments = false;
  explicit Gen(Src &src) : s(src) {}

  std::string ws() { return s.chance(1, 12) ? s.pick(std::vector<std::string>{"\n ", "  ", "\t", "\n\n"}) : ""; }
  std::string esc(const std::string &v, char q) {
    std::string r;
    for (unsigned char c : v) {
      if (c == '<') r += "&lt;";
      else if (c == '&') r += "&amp;";
      else if (c == '>' && s.coin()) r += "&gt;";
      else if (c == (unsigned char)q) r += q == '"' ? "&quot;" : "&apos;";
      else if (c < 0x20 || (c < 0x7f && s.chance(1, 30))) { char b[8]; snprintf(b, sizeof b, s.coin() ? "&#x%x;" : "&#%u;", c); r += b; }
      else r += (char)c;
    }
    return r;
  }
  std::string comment() {
    if (!s.chance(1, 15)) return ws();
    comments = true;
    return s.pick(std::vector<std::string>{"<!-- a comment -->", "<!--<int32 name=\"no\"/>-->", " <!-- --> ", "<!-- <copy/> & -->"});
  }
  std::string tag(const std::string &name, Attrs a, const std::vector<std::string> &children) {
    std::string r = "<" + name;
    while (!a.empty()) {
      std::size_t k = s.chance(1, 3) ? (std::size_t)s.below(a.size()) : 0;
      char q = s.chance(1, 4) ? '\'' : '"';
      r += std::string(s.chance(1, 20) ? "\n" : " ") + a[k].first + (s.chance(1, 20) ? " = " : "=") + q + esc(a[k].second, q) + q;
      a.erase(a.begin() + (long)k);
    }
    if (children.empty() && s.chance(3, 4)) return r + (s.chance(1, 8) ? " />" : "/>");
    r += ">";
    for (auto &c : children) r += comment() + c;
    return r + comment() + "</" + name + ">";
  }
  std::string word(const char *base) {
    std::string r = base + std::to_string(serial++);
    if (s.chance(1, 6)) r += s.pick(std::vector<std::string>{" x", ".y", "&", "<", "\"", "'", "\xc3\xa9", "[]", "-", ":", "\xe2\x82\xac", ">"});
    return r;
  }
  std::string some_ns() { return s.pick(std::vector<std::string>{"urn:a", "urn:b", "http://x/y?a=1&b=2"}); }
  uint32_t some_id() { return s.chance(1, 8) ? 4294967295u - (uint32_t)s.below(3) : s.chance(1, 4) ? (uint32_t)s.raw64() : (uint32_t)s.range(1, 300); }

  // an operator; fills n
  std::string gen_op(N &n, Ty ty, bool inherits, bool expo = false) {
    std::vector<operator_enum_t> ops = {operator_constant, operator_default, operator_copy};
    if (is_int(ty) && ty != ENUM) { ops.push_back(operator_increment); ops.push_back(operator_delta); }
    if (ty == DEC) ops.push_back(operator_delta);
    if (is_str(ty)) { ops.push_back(operator_delta); ops.push_back(operator_tail); }
    n.op = s.pick(ops);
    Attrs a;
    static const std::map<operator_enum_t, std::string> names = {{operator_constant, "constant"}, {operator_default, "default"}, {operator_copy, "copy"},
                                                                  {operator_increment, "increment"}, {operator_delta, "delta"}, {operator_tail, "tail"}};
    if (!inherits) n.ctx = false; // otherwise what is not given here is that of the type
    if (n.op != operator_constant && n.op != operator_default) {
      if (s.chance(1, 4)) { n.key = word("k"); a.push_back({"key", n.key}); n.ctx = true; }
      if (s.chance(1, 4)) { n.cdict = s.pick(std::vector<std::string>{"global", "template", "type", word("d")}); a.push_back({"dictionary", n.cdict}); n.ctx = true; }
      if (s.chance(1, 6)) { n.cns = some_ns(); a.push_back({"ns", n.cns}); n.ctx = true; }
    }
    bool value = n.op == operator_constant || s.coin();
    n.has_init = n.has_init || value;
    if (value) {
      n.init = N().init;
      std::string t;
      if (expo) { n.init.exp = (int)s.range(-63, 63); t = std::to_string(n.init.exp); }
      else if (ty == ENUM) {
        std::size_t k = (std::size_t)s.below(n.elems.size());
        t = n.elems[k];
        n.init.i = (int64_t)(n.ty == field_type_set ? uint64_t(1) << k : n.vals.empty() ? k : n.vals[k]);
        if (xetra && n.ty == field_type_enum && n.elems[0] != "false" && s.chance(1, 3)) t = std::to_string(n.init.i);
        if (n.ty == field_type_set && s.chance(1, 3)) {
          n.init.i = (int64_t)(s.raw64() >> (64 - n.elems.size()));
          t = std::to_string((uint64_t)n.init.i);
        }
      } else if (ty == DEC) {
        n.init.i = s.coin() ? s.range(-2000, 2000) : gen_int(s, I64);
        n.init.exp = (int)s.range(-20, 0);
        t = dec_text(n.init.i, n.init.exp);
      } else if (is_int(ty)) {
        n.init.i = few ? (int64_t)s.below(5) : gen_int(s, ty);
        t = is_unsigned(ty) ? std::to_string((uint64_t)n.init.i) : std::to_string(n.init.i);
      } else if (ty == BYTES) {
        std::size_t k = (std::size_t)s.below(6);
        static const char *lo = "0123456789abcdef", *hi = "0123456789ABCDEF";
        for (std::size_t j = 0; j < k; ++j) {
          unsigned char c = (unsigned char)s.below(256);
          n.init.s += (char)c;
          t += s.coin() ? lo[c >> 4] : hi[c >> 4];
          if (s.chance(1, 8)) t += s.coin() ? " " : "-";
          t += s.coin() ? lo[c & 15] : hi[c & 15];
          if (s.chance(1, 8)) t += s.coin() ? " " : "-";
        }
      } else {
        std::size_t k = (std::size_t)s.below(7);
        for (std::size_t j = 0; j < k; ++j) n.init.s += s.chance(1, 4) ? (char)s.range(1, 8) : s.chance(1, 5) ? s.pick(std::vector<char>{' ', '<', '&', '"', '\'', '>', '\t', '\n'}) : (char)s.range(32, 126);
        if (ty == UNI && s.coin()) n.init.s += s.pick(std::vector<std::string>{"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80"});
        t = n.init.s;
      }
      a.push_back({"value", t});
    }
    return tag(names.at(n.op), a, {});
  }
  Attrs common(N &n, bool may_id = true) {
    Attrs a;
    if (may_id && s.chance(1, 2)) { n.id = some_id(); a.push_back({"id", std::to_string(n.id)}); }
    if (s.chance(1, 2)) { n.opt = s.coin(); a.push_back({"presence", n.opt ? "optional" : "mandatory"}); }
    if (s.chance(1, 6)) { n.ns = some_ns(); a.push_back({"ns", n.ns}); }
    if (s.chance(1, 8)) {
      if (!tags.empty() && s.coin()) {
        std::size_t x = (std::size_t)s.below(tags.size()), y = (std::size_t)s.below(tags.size());
        n.tag |= tag_vals[x] | tag_vals[y];
        a.push_back({"mfast:tag", tags[x] + s.pick(std::vector<std::string>{"|", " | ", " "}) + tags[y]});
      } else {
        uint64_t t = s.raw64() >> s.below(64);
        n.tag |= t;
        a.push_back({"mfast:tag", std::to_string(t)});
      }
    }
    return a;
  }
  std::string length_elem(uint32_t &id, std::string &name, std::string &ns, const std::vector<std::string> &body) {
    Attrs a;
    if (s.coin()) { name = word("len"); a.push_back({"name", name}); }
    if (s.chance(1, 3)) { id = some_id(); a.push_back({"id", std::to_string(id)}); }
    if (s.chance(1, 4)) { ns = some_ns(); a.push_back({"ns", ns}); }
    return tag("length", a, body);
  }
  // the element, as itself or as the type of a field element
  std::string finish(N &n, const std::string &elem, Attrs a, Attrs own, const std::vector<std::string> &content, const std::vector<std::string> &movable, bool named) {
    if (named && elem != "type") a.insert(a.begin(), {"name", n.name});
    bool wrap = elem == "type" || s.chance(1, 4);
    if (!wrap) {
      a.insert(a.end(), own.begin(), own.end());
      std::vector<std::string> c = content;
      c.insert(c.begin() + (long)s.below(c.size() + 1), movable.begin(), movable.end());
      return tag(elem, a, c);
    }
    wrapped = true;
    Attrs outer, inner = own;
    for (auto &x : a) {
      if (x.first == "name" || s.coin()) outer.push_back(x);
      else {
        inner.push_back(x);
        if (x.first == "id" && s.chance(1, 4)) outer.push_back({"id", "77"}); // overridden
      }
    }
    if (elem == "type" && named) outer.push_back({"name", n.name});
    std::vector<std::string> in = content, out;
    if (s.coin()) in.insert(in.end(), movable.begin(), movable.end());
    else out = movable;
    out.insert(out.begin(), tag(elem, inner, in));
    return tag("field", outer, out);
  }

  std::string field(N &n, unsigned depth, const std::string &rns, bool named = true) {
    std::vector<std::string> content, movable;
    Attrs a, own;
    n = N();
    if (left) --left;
    bool only = sole; // the only content of a sequence, without a name
    sole = false;
    // of a type defined before
    if (!types.empty() && !only && s.chance(1, 4)) {
      auto it = types.begin();
      std::advance(it, (long)s.below(types.size()));
      std::string type = it->first;
      Type t = it->second;
      std::string force_ns;
      if (!shared.empty() && s.chance(1, 3)) {
        auto &p = shared[s.below(shared.size())];
        type = p.first;
        t = p.second;
        force_ns = p.second.key_ns;
      }
      n = t.n;
      typed = true;
      if (named) n.name = word("f");
      else n.name = "";
      std::string old = n.ns;
      a = common(n);
      if (!force_ns.empty()) {
        for (std::size_t k = 0; k < a.size(); ++k)
          if (a[k].first == "ns") a.erase(a.begin() + (long)k--);
        n.ns = force_ns;
        a.push_back({"ns", force_ns});
      }
      (void)old;
      if (n.ty == field_type_sequence) n.length[0].opt = n.opt;
      if ((n.ty == field_type_group || n.ty == field_type_sequence) && s.chance(1, 5)) { n.dict = word("d"); a.push_back({"dictionary", n.dict}); }
      Ty ty = n.ty == field_type_int32 ? I32 : n.ty == field_type_uint32 ? U32 : n.ty == field_type_int64 ? I64 : n.ty == field_type_uint64 ? U64 : n.ty == field_type_enum || n.ty == field_type_set ? ENUM
              : n.ty == field_type_ascii_string ? ASCII : n.ty == field_type_unicode_string ? UNI : n.ty == field_type_byte_vector ? BYTES : n.ty == field_type_decimal ? DEC : GROUP;
      if (is_scalar(ty) && !n.split && s.chance(1, n.op == operator_none ? 2 : 4)) movable.push_back(gen_op(n, ty, true));
      bool plain = type.find_first_of(" .&<\"'[]:>\xc3\xe2") == std::string::npos;
      if (!plain || s.coin()) {
        own.push_back({"name", type});
        return finish(n, "type", a, own, content, movable, named);
      }
      return finish(n, type, a, own, content, movable, named);
    }
    std::string elem;
    unsigned kind = depth >= 4 || left == 0 ? (unsigned)s.below(13) : (unsigned)s.weighted({3, 3, 3, 3, 4, 4, 4, 4, 1, 1, 1, 1, 4, 5, 5});
    if (only) kind = !cpp && depth < 4 && left && s.chance(1, 4) ? 14 : (unsigned)s.below(12);
    if (named) n.name = word("f");
    a = common(n);
    Ty ty = (Ty)kind;
    if (kind == 12) ty = ENUM;
    static const field_type_enum_t fts[] = {field_type_int32, field_type_uint32, field_type_int64, field_type_uint64, field_type_decimal, field_type_ascii_string, field_type_unicode_string, field_type_byte_vector,
                                            field_type_int32_vector, field_type_uint32_vector, field_type_int64_vector, field_type_uint64_vector, field_type_enum, field_type_group, field_type_sequence};
    n.ty = fts[kind];
    elem = ty_elem(kind == 13 ? GROUP : kind == 14 ? SEQ : ty);
    if (xetra && kind == 2 && s.chance(1, 3)) elem = "timestamp";
    if (kind == 5 && s.chance(1, 4)) own.push_back({"charset", "ascii"});
    if (kind == 6) own.push_back({"charset", "unicode"});
    if (kind == 12) {
      if (s.chance(1, 3)) {
        elem = "boolean";
        n.elems = {"false", "true"};
      } else if (xetra && s.coin()) {
        n.ty = field_type_set;
        elem = "set";
        for (std::size_t k = s.chance(1, 4) ? (std::size_t)s.range(30, 64) : (std::size_t)s.range(1, 8); k; --k) {
          n.elems.push_back(word("M"));
          Attrs e = {{"name", n.elems.back()}};
          if (s.chance(1, 3)) e = {{"id", n.elems.back()}};
          else if (s.chance(1, 4)) e = {{"id", n.elems.back()}, {"name", "other"}};
          content.push_back(tag("element", e, {}));
        }
      } else {
        bool vals = s.coin();
        uint64_t v = vals && s.coin() ? s.below(5) : 0;
        for (std::size_t k = (std::size_t)s.range(1, 5); k; --k) {
          n.elems.push_back(word("E"));
          Attrs e = {{"name", n.elems.back()}};
          if (xetra && s.chance(1, 3)) { e[0].first = "id"; if (s.coin()) e.push_back({"name", "other"}); }
          if (vals) {
            bool given = !xetra || s.chance(3, 4);
            if (!given) v = n.vals.empty() ? 0 : n.vals.back() + 1;
            n.vals.push_back(v);
            if (given) e.push_back({"value", std::to_string(v)});
          }
          v += s.chance(1, 3) ? 1 + (s.raw64() >> (4 + s.below(58))) : 1;
          content.push_back(tag("element", e, {}));
        }
      }
    }
    if ((kind <= 7 || kind == 12) && !(only && cpp)) { // (fields without a name would share a dictionary key)
      if (kind == 4 && s.chance(1, 2)) {
        n.split = true;
        N e, m;
        m.ty = field_type_int64;
        unsigned w = (unsigned)s.range(1, 3);
        std::vector<std::string> parts;
        if (w & 1) {
          std::string b = s.chance(4, 5) ? gen_op(e, I32, false, true) : "";
          parts.push_back(tag("exponent", {}, b.empty() ? std::vector<std::string>() : std::vector<std::string>{b}));
          n.op = e.op; n.ctx = e.ctx; n.key = e.key; n.cdict = e.cdict; n.cns = e.cns; n.has_init = e.has_init; n.init = e.init;
        }
        if (w & 2) {
          std::string b = s.chance(4, 5) ? gen_op(m, I64, false) : "";
          parts.push_back(tag("mantissa", {}, b.empty() ? std::vector<std::string>() : std::vector<std::string>{b}));
        }
        if (parts.size() == 2 && s.chance(1, 4)) std::swap(parts[0], parts[1]);
        n.mant.push_back(m);
        movable = parts;
      } else if (s.chance(2, 3))
        movable.push_back(gen_op(n, ty, true));
      if ((kind == 6 || kind == 7) && s.chance(1, 4)) movable.push_back(length_elem(n.len_id, n.len_name, n.len_ns, {}));
    }
    if (kind >= 13) {
      std::string in = n.ns.empty() ? rns : n.ns;
      if (s.chance(1, 4)) { n.dict = s.coin() ? "template" : word("d"); a.push_back({"dictionary", n.dict}); }
      if (!in_define && s.chance(1, 5)) {
        n.tyref = word("ty");
        Attrs t = {{"name", n.tyref}};
        if (s.coin()) { n.tyref_ns = some_ns(); t.push_back({"ns", n.tyref_ns}); }
        content.push_back(tag("typeRef", t, {}));
      }
      if (kind == 14) {
        N l;
        l.ty = field_type_uint32;
        l.opt = n.opt;
        l.name = "__length__";
        if (s.coin()) {
          l.name = "";
          std::vector<std::string> b;
          few = cpp; // new sequences have that many elements
          if (s.coin()) b.push_back(gen_op(l, U32, false));
          few = false;
          content.push_back(length_elem(l.id, l.name, l.ns, b));
        }
        n.length.push_back(l);
      }
      if (kind == 14 && s.chance(1, 5)) {
        N f;
        sole = true;
        content.push_back(field(f, depth + 1, in, false));
        n.sub.push_back(f);
      } else
        fields(n.sub, content, depth + 1, in, in_define ? 1 : 0);
    }
    return finish(n, elem, a, own, content, movable, named);
  }
  void fields(std::vector<N> &out, std::vector<std::string> &xml, unsigned depth, const std::string &rns, unsigned lo) {
    std::size_t n = s.chance(1, 12) ? lo : (std::size_t)s.range(1, 6);
    for (std::size_t k = 0; k < n; ++k) {
      if (!templates.empty() && s.chance(1, 8)) {
        auto &t = templates[s.below(templates.size())];
        bool twice = false;
        if (cpp)
          for (auto &x : t.second.sub)
            for (auto &y : out) twice = twice || (!x.name.empty() && x.name == y.name);
        if (twice) continue;
        Attrs a = {{"name", t.second.name}};
        if (t.first != rns || s.chance(1, 4)) a.push_back({"templateNs", t.first});
        xml.push_back(tag("templateRef", a, {}));
        out.insert(out.end(), t.second.sub.begin(), t.second.sub.end());
        continue;
      }
      if (s.chance(1, 15)) {
        N r;
        r.ty = field_type_templateref;
        out.push_back(r);
        xml.push_back(tag("templateRef", {}, {}));
        continue;
      }
      N f;
      xml.push_back(field(f, depth, rns));
      out.push_back(f);
    }
  }
  // a document; its templates are appended to want
  std::string document(unsigned d, std::vector<N> &want, std::string &ns, std::string &tns, std::string &dict) {
    types.clear();
    tags.clear();
    tag_vals.clear();
    Attrs a = {{"xmlns", "http://www.fixprotocol.org/ns/fast/td/1.1"}};
    if (s.chance(1, 3)) { ns = some_ns(); a.push_back({"ns", ns}); }
    if (s.chance(1, 3)) { tns = s.pick(std::vector<std::string>{"urn:t", "urn:a"}); a.push_back({"templateNs", tns}); }
    if (s.chance(1, 3)) { dict = word("d"); a.push_back({"dictionary", dict}); }
    std::vector<std::string> c;
    if (s.chance(1, 5)) {
      std::vector<std::string> e;
      uint64_t v = 1;
      for (std::size_t k = (std::size_t)s.range(1, 4); k; --k) {
        tags.push_back("tag" + std::to_string(tags.size()));
        tag_vals.push_back(v);
        e.push_back(tag("element", {{"name", tags.back()}, {"value", std::to_string(v)}}, {}));
        v <<= s.range(1, 15);
      }
      c.push_back(tag("define", {{"name", "mfast:tag"}}, {tag("enum", {}, e)}));
    }
    std::size_t n = (std::size_t)s.below(7);
    std::size_t first = want.size();
    for (std::size_t k = 0; k <= n; ++k) {
      left = 25;
      if (k < n && s.chance(1, 2)) {
        Type t;
        in_define = true;
        std::string body = field(t.n, 1, tns, false);
        in_define = false;
        std::string name = s.coin() ? "D" + std::to_string(d) + "_" + std::to_string(k) : word("D");
        t.n.name = name;
        if (t.n.ty == field_type_sequence || t.n.ty == field_type_group) {
          t.key_ns = t.n.ns.empty() ? tns : t.n.ns;
          t.shared = !t.key_ns.empty();
        }
        types[name] = t;
        c.push_back(tag("define", {{"name", name}}, {body}));
        continue;
      }
      N t;
      t.ty = field_type_template;
      Attrs ta;
      t.name = word("T");
      ta.push_back({"name", t.name});
      if (s.chance(7, 8)) {
        t.id = some_id();
        if (cpp) while (!template_ids.insert(t.id).second) ++t.id; // unique among the templates of a coder
        ta.push_back({"id", std::to_string(t.id)});
      }
      if (s.chance(1, 3)) { t.ns = some_ns(); ta.push_back({"ns", t.ns}); }
      if (s.chance(1, 5)) { t.tns = some_ns(); ta.push_back({"templateNs", t.tns}); }
      if (s.chance(1, 4)) { t.dict = s.coin() ? "template" : word("d"); ta.push_back({"dictionary", t.dict}); }
      if (s.chance(1, 4)) {
        std::string v = s.pick(std::vector<std::string>{"yes", "true", "no", "false"});
        t.reset = v == "yes" || v == "true";
        ta.push_back({s.coin() ? "scp:reset" : "reset", v});
      }
      if (s.chance(1, 8)) { t.tag = s.below(1000); ta.push_back({"mfast:tag", std::to_string(t.tag)}); }
      std::vector<std::string> tc;
      if (s.chance(1, 5)) {
        t.tyref = word("ty");
        Attrs r = {{"name", t.tyref}};
        if (s.coin()) { t.tyref_ns = some_ns(); r.push_back({"ns", t.tyref_ns}); }
        tc.push_back(tag("typeRef", r, {}));
      }
      std::string key = t.ns.empty() ? tns : t.ns;
      fields(t.sub, tc, 0, key, 0);
      want.push_back(t);
      c.push_back(tag("template", ta, tc));
      templates.push_back({key, t});
    }
    (void)first;
    std::string head = s.coin() ? "<?xml version=\"1.0\"?>\n" : s.coin() ? "<?xml version=\"1.0\" encoding=\"UTF-8\"?>" : "";
    a.push_back({"xmlns:scp", "http://www.fixprotocol.org/ns/fast/scp/1.1"});
    return head + comment() + tag("templates", a, c) + comment();
  }
};

} // namespace xd
