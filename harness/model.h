// Reference model of FAST templates, messages and operators, written from the
// FAST 1.1 specification and independent of mFAST: template schemas, message
// values, generators, an XML printer, an encoder (canonical or making arbitrary
// legal choices) and a decoder.
#pragma once
#include "pbt.h"
#include <cstring>
#include <algorithm>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace fm {
using pbt::Src;

enum Ty { I32, U32, I64, U64, DEC, ASCII, UNI, BYTES, I32V, U32V, I64V, U64V, ENUM, GROUP, SEQ, TREF };
enum OpK { NONE, CONST, DEFAULT, COPY, INC, DELTA, TAIL };

inline const char *op_name(OpK k) {
  static const char *n[] = {"none", "constant", "default", "copy", "increment", "delta", "tail"};
  return n[k];
}
inline bool is_int(Ty t) { return t <= U64 || t == ENUM; }
inline bool is_str(Ty t) { return t == ASCII || t == UNI || t == BYTES; }
inline bool is_ivec(Ty t) { return t >= I32V && t <= U64V; }
inline bool is_scalar(Ty t) { return t <= BYTES || t == ENUM; }
inline bool is_unsigned(Ty t) { return t == U32 || t == U64 || t == ENUM; }

// an operator operand: integer (or mantissa), exponent, string
struct Scalar {
  int64_t i = 0;
  int exp = 0;
  std::string s;
  bool operator==(const Scalar &o) const { return i == o.i && exp == o.exp && s == o.s; }
};

struct Op {
  OpK k = NONE;
  bool has_init = false;
  Scalar init;
  std::string dict, key, ns; // as written on the operator ("" = not written)
  int slot = -1;             // resolved dictionary entry
  bool uses_dict() const { return k == COPY || k == INC || k == DELTA || k == TAIL; }
  bool pmap_bit(bool opt) const {
    return k == DEFAULT || k == COPY || k == INC || k == TAIL || (k == CONST && opt);
  }
};

struct Field {
  Ty ty = I32;
  std::string name;
  uint32_t id = 0;
  bool opt = false;
  Op op; // of the value; of the exponent when split
  bool split = false;
  Op mop;                 // mantissa operator when split
  std::vector<Field> sub; // group / sequence element fields
  std::string len_name;   // named <length> element ("" = none or unnamed)
  bool len_elem = false;
  Op len_op;
  std::string dict; // dictionary attribute of group / sequence
  std::string ns;   // ns attribute
  std::string tyref, tyref_ns; // <typeRef> of group / sequence
  std::vector<std::pair<std::string, uint64_t>> elems; // enum
  int tpl_inline = -1;                                 // this field came from a static templateRef to this template
  bool inline_first = false;
  bool quiet = false;         // generated values are nearly always the initial value
  bool boolean = false;       // <boolean>: an enumeration of false and true
  bool set = false;           // <set>: an ENUM for the purposes of coding
  uint64_t tag = 0;           // mfast:tag attribute
  std::string bytes_len_name; // cosmetic <length> of byteVector / unicode
};

struct Template {
  std::string name, ns, dict;
  std::string tyref, tyref_ns;
  uint32_t id = 1;
  bool reset = false;
  std::vector<Field> f;
};

struct Schema {
  std::vector<Template> t;
  std::string ns, dict;
  std::map<std::string, int> slots; // qualified key -> slot
  std::vector<Ty> slot_ty;
  int find_id(uint32_t id) const {
    for (std::size_t k = 0; k < t.size(); ++k)
      if (t[k].id == id) return (int)k;
    return -1;
  }
};

struct V {
  bool present = false;
  int64_t i = 0; // integers (unsigned ones as their bit pattern), mantissa
  int exp = 0;
  std::string s;
  std::vector<int64_t> iv;
  std::vector<V> sub;
  std::vector<std::vector<V>> el;
  int tmpl = -1;
};
struct Msg {
  int tmpl = 0;
  std::vector<V> f;
};

inline bool operator==(const V &a, const V &b);
inline bool eqv(const std::vector<V> &a, const std::vector<V> &b) {
  if (a.size() != b.size()) return false;
  for (std::size_t k = 0; k < a.size(); ++k)
    if (!(a[k] == b[k])) return false;
  return true;
}
inline bool operator==(const V &a, const V &b) {
  if (a.present != b.present) return false;
  if (!a.present) return true;
  if (a.i != b.i || a.exp != b.exp || a.s != b.s || a.iv != b.iv || a.tmpl != b.tmpl) return false;
  if (!eqv(a.sub, b.sub) || a.el.size() != b.el.size()) return false;
  for (std::size_t k = 0; k < a.el.size(); ++k)
    if (!eqv(a.el[k], b.el[k])) return false;
  return true;
}

// ------------------------------------------------------------------ printing
inline std::string quoted(const std::string &s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c < 0x20 || c >= 0x7f || c == '"' || c == '\\') {
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    } else
      r += (char)c;
  }
  return r + "\"";
}
inline std::string show(const std::vector<Field> &fs, const std::vector<V> &vs, const Schema &sc);
inline std::string show(const Field &f, const V &v, const Schema &sc) {
  std::ostringstream o;
  if (!v.present) return "-";
  switch (f.ty) {
  case I32: case I64: o << v.i; break;
  case U32: case U64: case ENUM: o << (uint64_t)v.i; break;
  case DEC: o << v.i << "e" << v.exp; break;
  case ASCII: case UNI: o << quoted(v.s); break;
  case BYTES: o << "x" << quoted(v.s); break;
  case I32V: case I64V: case U32V: case U64V:
    o << "<";
    for (auto x : v.iv) {
      if (f.ty == U64V || f.ty == U32V) o << (uint64_t)x << ",";
      else o << x << ",";
    }
    o << ">";
    break;
  case GROUP: o << show(f.sub, v.sub, sc); break;
  case SEQ:
    o << "[";
    for (auto &e : v.el) o << show(f.sub, e, sc);
    o << "]";
    break;
  case TREF: o << sc.t[v.tmpl].name << show(sc.t[v.tmpl].f, v.sub, sc); break;
  }
  return o.str();
}
inline std::string show(const std::vector<Field> &fs, const std::vector<V> &vs, const Schema &sc) {
  std::string r = "{";
  for (std::size_t k = 0; k < fs.size() && k < vs.size(); ++k) {
    if (k) r += " ";
    r += fs[k].name + "=" + show(fs[k], vs[k], sc);
  }
  return r + "}";
}
inline std::string show(const Msg &m, const Schema &sc) { return sc.t[m.tmpl].name + show(sc.t[m.tmpl].f, m.f, sc); }

inline std::string xml_esc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    switch (c) {
    case '<': r += "&lt;"; break;
    case '>': r += "&gt;"; break;
    case '&': r += "&amp;"; break;
    case '"': r += "&quot;"; break;
    case '\'': r += "&apos;"; break;
    default:
      if (c < 0x20) { char b[8]; snprintf(b, sizeof b, "&#x%x;", c); r += b; }
      else r += (char)c;
    }
  }
  return r;
}
inline std::string dec_text(int64_t m, int e) { // e <= 0 or m*10^e short
  std::string d = m < 0 ? std::to_string(m).substr(1) : std::to_string(m);
  std::string r;
  if (e >= 0) r = d + std::string((std::size_t)e, '0');
  else {
    std::size_t n = (std::size_t)-e;
    if (d.size() <= n) d = std::string(n - d.size() + 1, '0') + d;
    r = d.substr(0, d.size() - n) + "." + d.substr(d.size() - n);
  }
  return (m < 0 ? "-" : "") + r;
}
inline std::string init_text(Ty ty, const Op &op, const Field &f) {
  switch (ty) {
  case I32: case I64: return std::to_string(op.init.i);
  case U32: case U64: return std::to_string((uint64_t)op.init.i);
  case ENUM:
    for (auto &e : f.elems)
      if (e.second == (uint64_t)op.init.i) return e.first;
    return "?";
  case DEC: return dec_text(op.init.i, op.init.exp);
  case BYTES: {
    std::string r;
    static const char *d = "0123456789abcdef";
    for (unsigned char c : op.init.s) { r += d[c >> 4]; r += d[c & 15]; }
    return r;
  }
  default: return op.init.s;
  }
}
inline std::string op_xml(const Op &op, const std::string &value) {
  if (op.k == NONE) return "";
  std::string r = std::string("<") + op_name(op.k);
  if (!op.dict.empty()) r += " dictionary=\"" + op.dict + "\"";
  if (!op.key.empty()) r += " key=\"" + op.key + "\"";
  if (!op.ns.empty()) r += " ns=\"" + op.ns + "\"";
  if (op.has_init) r += " value=\"" + xml_esc(value) + "\"";
  return r + "/>";
}
inline const char *ty_elem(Ty t) {
  static const char *n[] = {"int32", "uInt32", "int64", "uInt64", "decimal", "string", "string", "byteVector",
                            "int32Vector", "uInt32Vector", "int64Vector", "uInt64Vector", "enum", "group", "sequence",
                            "templateRef"};
  return n[t];
}
inline std::string fields_xml(const std::vector<Field> &fs, const Schema &sc, const std::string &ind);
inline std::string tyref_xml(const std::string &name, const std::string &ns, const std::string &ind) {
  if (name.empty()) return "";
  return ind + "<typeRef name=\"" + name + "\"" + (ns.empty() ? "" : " ns=\"" + ns + "\"") + "/>\n";
}
inline std::string field_xml(const Field &f, const Schema &sc, const std::string &ind) {
  std::string r = ind;
  if (f.ty == TREF) return r + "<templateRef/>\n";
  const char *elem = f.boolean ? "boolean" : ty_elem(f.ty);
  r += std::string("<") + elem + " name=\"" + xml_esc(f.name) + "\"";
  if (f.tag) r += " mfast:tag=\"" + std::to_string(f.tag) + "\"";
  if (f.id) r += " id=\"" + std::to_string(f.id) + "\"";
  if (f.opt) r += " presence=\"optional\"";
  if (f.ty == UNI) r += " charset=\"unicode\"";
  if (!f.ns.empty()) r += " ns=\"" + f.ns + "\"";
  if ((f.ty == GROUP || f.ty == SEQ) && !f.dict.empty()) r += " dictionary=\"" + f.dict + "\"";
  std::string body;
  if (f.ty == GROUP || f.ty == SEQ) {
    if (f.ty == SEQ && f.len_elem) {
      Op o = f.len_op;
      body += ind + "  <length" + (f.len_name.empty() ? "" : " name=\"" + f.len_name + "\"") + ">" +
              op_xml(o, std::to_string((uint64_t)o.init.i)) + "</length>\n";
    }
    body = tyref_xml(f.tyref, f.tyref_ns, ind + "  ") + body;
    body += fields_xml(f.sub, sc, ind + "  ");
    return r + ">\n" + body + ind + "</" + ty_elem(f.ty) + ">\n";
  }
  if (f.ty == ENUM && !f.boolean)
    for (auto &e : f.elems) body += "<element name=\"" + e.first + "\" value=\"" + std::to_string(e.second) + "\"/>";
  if (f.split) {
    if (f.op.k != NONE) body += "<exponent>" + op_xml(f.op, std::to_string(f.op.init.exp)) + "</exponent>";
    body += "<mantissa>" + op_xml(f.mop, std::to_string(f.mop.init.i)) + "</mantissa>";
  } else
    body += op_xml(f.op, f.op.has_init ? init_text(f.ty, f.op, f) : "");
  if (body.empty()) return r + "/>\n";
  return r + ">" + body + "</" + elem + ">\n";
}
inline std::string fields_xml(const std::vector<Field> &fs, const Schema &sc, const std::string &ind) {
  std::string r;
  for (std::size_t k = 0; k < fs.size(); ++k) {
    if (fs[k].tpl_inline >= 0) {
      if (fs[k].inline_first) {
        const Template &t = sc.t[fs[k].tpl_inline];
        r += ind + "<templateRef name=\"" + t.name + "\"" +
             (t.ns.empty() ? "" : " templateNs=\"" + t.ns + "\"") + "/>\n";
      }
      continue;
    }
    r += field_xml(fs[k], sc, ind);
  }
  return r;
}
inline std::string template_xml(const Template &t, const Schema &sc) {
  std::string r = "  <template name=\"" + t.name + "\" id=\"" + std::to_string(t.id) + "\"";
  if (!t.ns.empty()) r += " ns=\"" + t.ns + "\"";
  if (!t.dict.empty()) r += " dictionary=\"" + t.dict + "\"";
  if (t.reset) r += " scp:reset=\"yes\"";
  return r + ">\n" + tyref_xml(t.tyref, t.tyref_ns, "    ") + fields_xml(t.f, sc, "    ") + "  </template>\n";
}
inline std::string schema_xml(const Schema &sc) {
  std::string r = "<?xml version=\"1.0\"?>\n<templates xmlns=\"http://www.fixprotocol.org/ns/fast/td/1.1\" "
                  "xmlns:scp=\"http://www.fixprotocol.org/ns/fast/scp/1.1\"";
  if (!sc.ns.empty()) r += " ns=\"" + sc.ns + "\"";
  if (!sc.dict.empty()) r += " dictionary=\"" + sc.dict + "\"";
  r += ">\n";
  for (auto &t : sc.t) r += template_xml(t, sc);
  return r + "</templates>\n";
}

// -------------------------------------------------------- dictionary entries
struct Scope {
  std::string dict, ns, tmpl, type;
  Scope inside(const std::string &d, const std::string &n, const std::string &ty, const std::string &ty_ns) const {
    Scope in = *this;
    if (!d.empty()) in.dict = d;
    if (!n.empty()) in.ns = n;
    if (!ty.empty()) in.type = (ty_ns.empty() ? in.ns : ty_ns) + "|" + ty;
    return in;
  }
};
// the dictionary entry an operator refers to
inline std::string entry_name(const Op &op, const Scope &scope, const std::string &fns, const std::string &name) {
  std::string dict = !op.dict.empty() ? op.dict : !scope.dict.empty() ? scope.dict : "global";
  std::string ns = !op.ns.empty() ? op.ns : !fns.empty() ? fns : scope.ns;
  return dict + "\x01" + (dict == "template" ? scope.tmpl : dict == "type" ? scope.type : "") + "\x01" + ns + "\x01" +
         (!op.key.empty() ? op.key : name);
}
inline int resolve_op(Schema &sc, Op &op, const Scope &scope, const std::string &fns, const std::string &name, Ty ty) {
  if (!op.uses_dict()) return -1;
  std::string q = entry_name(op, scope, fns, name);
  auto it = sc.slots.find(q);
  if (it != sc.slots.end()) {
    op.slot = it->second;
    return op.slot;
  }
  int n = (int)sc.slot_ty.size();
  sc.slots[q] = n;
  sc.slot_ty.push_back(ty);
  op.slot = n;
  return n;
}
// pseudo types of the dictionary entries of split decimals
static const Ty EXPO = (Ty)100, MANT = (Ty)101;
static const Ty ENUMK = (Ty)102;
inline Ty key_ty(Ty t) { return t == ENUM ? ENUMK : t; }

// ------------------------------------------------------------- value ranges
inline int64_t ty_min(Ty t) {
  switch (t) {
  case I32: return std::numeric_limits<int32_t>::min();
  case I64: case DEC: case MANT: return std::numeric_limits<int64_t>::min();
  case EXPO: return -63;
  default: return 0;
  }
}
inline __int128 ty_max(Ty t) {
  switch (t) {
  case I32: return std::numeric_limits<int32_t>::max();
  case U32: return std::numeric_limits<uint32_t>::max();
  case U64: case ENUM: return (__int128)std::numeric_limits<uint64_t>::max();
  case EXPO: return 63;
  default: return std::numeric_limits<int64_t>::max();
  }
}
inline __int128 wide(Ty t, int64_t v) { return is_unsigned(t) ? (__int128)(uint64_t)v : (__int128)v; }

inline int64_t gen_int(Src &s, Ty t) {
  __int128 lo = ty_min(t), hi = ty_max(t);
  switch (s.weighted({4, 4, 3, 3, 2, 2})) {
  case 0: return s.range(0, 3);
  case 1: { // small around zero
    int64_t v = s.range(-130, 130);
    return lo < 0 ? v : (v < 0 ? -v : v);
  }
  case 2: { // around a power of two (stop-bit group boundaries)
    int bits = (int)s.range(0, (t == I32 || t == U32) ? 32 : 64);
    __int128 v = ((__int128)1 << bits) + s.range(-2, 2);
    if (lo < 0 && s.coin()) v = -v;
    if (v < lo) v = lo;
    if (v > hi) v = hi;
    return (int64_t)(uint64_t)v;
  }
  case 3: { // 7-bit group boundaries
    int bits = 7 * (int)s.range(1, (t == I32 || t == U32) ? 4 : 9) - (lo < 0 ? 1 : 0);
    __int128 v = ((__int128)1 << bits) + s.range(-2, 2);
    if (lo < 0 && s.coin()) v = -v;
    if (v < lo) v = lo;
    if (v > hi) v = hi;
    return (int64_t)(uint64_t)v;
  }
  case 4: { // extremes
    __int128 d = s.range(0, 2);
    __int128 v = s.coin() ? lo + d : hi - d;
    return (int64_t)(uint64_t)v;
  }
  default: {
    uint64_t r = s.raw64();
    if (t == I32) return (int32_t)r;
    if (t == U32) return (int64_t)(uint32_t)r;
    return (int64_t)r;
  }
  }
}

inline void utf8(std::string &r, uint32_t cp) {
  if (cp < 0x80) r += (char)cp;
  else if (cp < 0x800) { r += (char)(0xC0 | cp >> 6); r += (char)(0x80 | (cp & 63)); }
  else if (cp < 0x10000) { r += (char)(0xE0 | cp >> 12); r += (char)(0x80 | (cp >> 6 & 63)); r += (char)(0x80 | (cp & 63)); }
  else { r += (char)(0xF0 | cp >> 18); r += (char)(0x80 | (cp >> 12 & 63)); r += (char)(0x80 | (cp >> 6 & 63)); r += (char)(0x80 | (cp & 63)); }
}
inline uint32_t gen_cp(Src &s) {
  switch (s.weighted({6, 2, 2, 1, 1})) {
  case 0: return (uint32_t)s.range('a', 'f');
  case 1: return (uint32_t)s.range(0x20, 0x7e);
  case 2: return (uint32_t)s.range(0x80, 0x7ff);
  case 3: { uint32_t c = (uint32_t)s.range(0x800, 0xffff); return c >= 0xd800 && c < 0xe000 ? 0x20ac : c; }
  default: return (uint32_t)s.range(0x10000, 0x10ffff);
  }
}
inline std::size_t gen_len(Src &s) {
  switch (s.weighted({10, 10, 2, 1})) {
  case 0: return (std::size_t)s.range(0, 4);
  case 1: return (std::size_t)s.range(0, 12);
  case 2: return (std::size_t)s.range(12, 70);
  default: return (std::size_t)s.range(100, 300);
  }
}
inline char gen_chr(Src &s, Ty t) {
  if (t == BYTES) return s.chance(1, 2) ? (char)s.below(256) : (char)s.pick(std::vector<int>{'a', 'b', 0, 0x7f, 0x80, 0xff});
  return s.chance(1, 4) ? (char)s.range(1, 0x7f) : (char)s.range('a', 'd');
}
inline std::string gen_str(Src &s, Ty t, std::size_t n) {
  std::string r;
  if (t == UNI)
    for (std::size_t k = 0; k < n; ++k) utf8(r, gen_cp(s));
  else
    for (std::size_t k = 0; k < n; ++k) r += gen_chr(s, t);
  return r;
}

// ---------------------------------------------------------- schema generator
inline Scope template_scope(const Schema &sc, const Template &t) {
  Scope root;
  root.dict = sc.dict;
  root.ns = sc.ns;
  root.tmpl = t.ns + "|" + t.name;
  return root.inside(t.dict, t.ns, t.tyref, t.tyref_ns);
}
struct GenOpt {
  unsigned max_templates = 3;
  unsigned max_fields = 7;
  unsigned max_depth = 3;
  bool int_vectors = true;
  bool tref = true;
  bool enums = true;
  bool keys = true;      // explicit keys / dictionaries and cross-type sharing
  bool ns = false;       // namespaces
  bool share = false;    // much sharing, all kinds of dictionaries, namespaces and type references
  bool inline_refs = true;
  bool resets = true;
  bool init_xml_safe = true;
  bool big_strings = true;
  bool seq_len_ops = true;
  unsigned min_fields = 1;
  bool bools = false;      // some enumerations are <boolean> fields
  bool tref_heavy = false; // many dynamic template references, anywhere
  // no entry that an optional field can empty is shared with a mandatory copy
  // or increment field (the encoder refuses those with D6)
  bool no_empty_mandatory = true;
  bool no_empty_delta = true; // the same for delta fields (D6)
  bool field_ids = false;
  unsigned wide_den = 50; // 1/wide_den of the templates have more bits than a machine word (0: none)
  bool no_empty_elements = false; // every sequence element takes at least one byte
  bool distinct_aggregates = false; // names of groups and sequences are unique
  // restricts operator/type combinations (nullptr = all)
  bool (*accept)(const Field &) = nullptr;
};

inline Scalar gen_init(Src &s, Ty ty, const Field &f) {
  Scalar r;
  switch (ty) {
  case I32: case U32: case I64: case U64: r.i = gen_int(s, ty); break;
  case ENUM: r.i = (int64_t)f.elems[s.below(f.elems.size())].second; break;
  case DEC: {
    r.i = s.coin() ? s.range(-1000, 1000) : s.range(-1000000000000ll, 1000000000000ll);
    r.exp = (int)s.range(-8, 0);
    while (r.i != 0 && r.i % 10 == 0) { r.i /= 10; }
    if (r.i == 0) r.exp = 0;
    break;
  }
  case UNI: case ASCII: {
    std::size_t n = (std::size_t)s.range(1, 8);
    if (ty == ASCII)
      for (std::size_t k = 0; k < n; ++k) r.s += (char)(s.chance(1, 4) ? s.range('!', '~') : s.range('a', 'd'));
    else
      for (std::size_t k = 0; k < n; ++k) { uint32_t c = gen_cp(s); utf8(r.s, c == ' ' ? 'x' : c); }
    break;
  }
  case BYTES: r.s = gen_str(s, BYTES, (std::size_t)s.range(1, 6)); break;
  default: break;
  }
  return r;
}

struct KeyUse {
  Ty ty;
  bool may_empty; // some member can leave the entry empty
  bool has_delta; // some member needs a non-empty entry
  bool has_tail;
  bool has_mand; // some member is a mandatory copy / increment field
};

struct SchemaGen {
  Src &s;
  GenOpt o;
  Schema sc;
  std::map<std::string, KeyUse> keys;
  unsigned fields_left = 60;
  std::vector<Ty> share_types;
  SchemaGen(Src &src, const GenOpt &opt) : s(src), o(opt) {}

  // is using this entry legal?  (one type per key; delta never meets an empty
  // previous value, which no encoder could express)
  bool try_key(const Op &op, const Scope &scope, const std::string &fns, const std::string &name, Ty ty, bool opt) {
    std::string q = entry_name(op, scope, fns, name);
    bool may_empty = opt && op.k != DELTA;
    bool delta = op.k == DELTA;
    bool mand = !opt && (op.k == COPY || op.k == INC) && o.no_empty_mandatory;
    auto it = keys.find(q);
    if (it == keys.end()) {
      // a mandatory field without initial value can be the first one to find
      // an entry that a reset made undefined; that is fine for the encoder
      keys[q] = KeyUse{ty, may_empty, delta, op.k == TAIL, mand};
      return true;
    }
    KeyUse &u = it->second;
    if (u.ty != ty) return false;
    if (o.no_empty_delta && (u.may_empty || may_empty) && (u.has_delta || delta)) return false;
    if ((u.may_empty || may_empty) && (u.has_mand || mand)) return false;
    u.may_empty |= may_empty;
    u.has_mand |= mand;
    u.has_delta |= delta;
    u.has_tail |= op.k == TAIL;
    return true;
  }
  void gen_key(Op &op, const Scope &scope, const std::string &fns, const std::string &name, Ty ty, bool opt) {
    if (!op.uses_dict()) return;
    if (o.share) {
      static const std::vector<std::string> dicts = {"global", "template", "type", "usr", "usr2"};
      if (s.coin()) op.key = (s.chance(1, 4) ? "f" : "k") + std::to_string(s.below(2)) ;
      if (s.coin()) op.dict = s.pick(dicts);
      if (s.chance(1, 4)) op.ns = s.pick(std::vector<std::string>{"urn:a", "urn:b"});
    } else if (o.keys) {
      if (s.chance(1, 4)) op.key = "k" + std::to_string(s.below(3));
      if (s.chance(1, 4)) op.dict = s.pick(std::vector<std::string>{"global", "template", "usr", "usr2"});
      if (o.ns && s.chance(1, 6)) op.ns = s.pick(std::vector<std::string>{"urn:a", "urn:b"});
    }
    for (int n = 0; !try_key(op, scope, fns, name, ty, opt); ++n) op.key = name + "_x" + std::to_string(n);
  }
  void gen_ops(Op &op, Ty ty, bool opt, const Field &f) {
    unsigned w_none = 3, w_const = 1, w_def = 2, w_copy = 3, w_inc = is_int(ty) && ty != ENUM ? 3 : 0,
             w_delta = ty == ENUM ? 0 : 4, w_tail = is_str(ty) ? 3 : 0;
    if (ty == EXPO) w_inc = 1;
    if (ty == MANT) w_inc = 1;
    static const OpK ks[] = {NONE, CONST, DEFAULT, COPY, INC, DELTA, TAIL};
    op.k = ks[s.weighted({w_none, w_const, w_def, w_copy, w_inc, w_delta, w_tail})];
    if (op.k == NONE) return;
    bool need = op.k == CONST || (op.k == DEFAULT && !opt);
    op.has_init = need || s.coin();
    if (op.has_init) {
      if (ty == EXPO) op.init.exp = (int)s.range(-8, 8), op.init.i = op.init.exp;
      else if (ty == MANT) op.init.i = gen_int(s, I64);
      else op.init = gen_init(s, ty, f);
    }
  }
  void gen_tyref(std::string &name, std::string &ns) {
    if (!s.chance(1, 3)) return;
    name = s.pick(std::vector<std::string>{"Y", "Z"});
    if (s.chance(1, 4)) ns = s.pick(std::vector<std::string>{"urn:a", "urn:b"});
  }
  Field gen_field(unsigned depth, const Scope &scope, unsigned idx) {
    Field f;
    if (fields_left) --fields_left;
    bool deep = depth < o.max_depth && fields_left > 4;
    unsigned wv = o.int_vectors ? 1 : 0;
    f.ty = (Ty)s.weighted({3, 3, 3, 3, 4, 4, 3, 3, wv, wv, wv, wv, o.enums ? 2u : 0u, deep ? 3u : 0u, deep ? 4u : 0u,
                           o.tref && o.tref_heavy ? 9u : o.tref && depth > 0 ? 2u : 0u});
    if (f.ty == TREF && o.tref == false) f.ty = I32;
    if (o.share && is_scalar(f.ty)) {
      if (share_types.empty())
        for (int k = 0; k < 2; ++k) share_types.push_back((Ty)s.below(8));
      f.ty = s.pick(share_types);
    }
    f.name = "f" + std::to_string(idx);
    // generated classes cannot contain a member of their own name
    if (o.distinct_aggregates && (f.ty == GROUP || f.ty == SEQ))
      f.name += "_d" + std::to_string(depth) + "t" + std::to_string(sc.t.size());
    if (o.field_ids && s.coin()) f.id = (uint32_t)(1000 * depth + idx + 1);
    f.opt = f.ty == TREF ? false : s.coin();
    if (f.ty == ENUM && o.bools && s.coin()) {
      f.boolean = true;
      f.elems = {{"false", 0}, {"true", 1}};
    } else if (f.ty == ENUM) {
      unsigned n = (unsigned)s.range(2, 5);
      uint64_t v = 0;
      for (unsigned k = 0; k < n; ++k) {
        f.elems.push_back({"E" + std::to_string(k), v});
        v += 1 + (s.chance(1, 3) ? s.below(200) : 0);
      }
    }
    if (is_scalar(f.ty)) {
      if (f.ty == DEC && s.chance(1, 2)) {
        f.split = true;
        gen_ops(f.op, EXPO, f.opt, f);
        gen_ops(f.mop, MANT, false, f);
      } else
        gen_ops(f.op, f.ty, f.opt, f);
    }
    if (f.ty == GROUP || f.ty == SEQ) {
      if (o.keys && s.chance(1, 5)) f.dict = s.pick(std::vector<std::string>{"global", "template", "usr", "grp"});
      if (o.share) {
        if (s.chance(1, 3)) f.dict = s.pick(std::vector<std::string>{"global", "template", "type", "usr"});
        gen_tyref(f.tyref, f.tyref_ns);
      }
    }
    if (o.share && f.ty != TREF && s.chance(1, 6)) f.ns = s.pick(std::vector<std::string>{"urn:a", "urn:b"});
    if (f.ty == SEQ && s.coin()) {
      f.len_elem = true;
      if (s.coin()) f.len_name = "len" + std::to_string(idx);
      if (o.seq_len_ops && s.chance(2, 3)) {
        f.len_op.k = s.pick(std::vector<OpK>{CONST, DEFAULT, COPY, INC, DELTA});
        if (f.len_op.k != CONST && f.len_op.k != DEFAULT && f.len_name.empty()) f.len_name = "len" + std::to_string(idx);
        f.len_op.has_init = f.len_op.k == CONST || (f.len_op.k == DEFAULT && !f.opt) || s.coin();
        if (f.len_op.has_init) f.len_op.init.i = s.range(0, 3);
      }
    }
    return f;
  }
  // second pass: children and dictionary keys (after the accept filter)
  void finish(Field &f, unsigned depth, const Scope &scope) {
    if (is_scalar(f.ty)) {
      if (f.split) {
        gen_key(f.op, scope, f.ns, f.name + "....exponent", EXPO, f.opt);
        gen_key(f.mop, scope, f.ns, f.name + "....mantissa", MANT, false);
      } else
        gen_key(f.op, scope, f.ns, f.name, key_ty(f.ty), f.opt);
      return;
    }
    if (f.ty == GROUP || f.ty == SEQ) {
      Scope in = scope.inside(f.dict, f.ns, f.tyref, f.tyref_ns);
      if (f.ty == SEQ) gen_key(f.len_op, in, "", f.len_name, U32, f.opt);
      gen_fields(f.sub, depth + 1, in, 1, depth == 0 ? 5 : 3);
      if (f.ty == SEQ && o.no_empty_elements && !always_bytes(f.sub)) {
        Field b;
        b.ty = U32;
        b.name = "f" + std::to_string(f.sub.size());
        f.sub.push_back(b);
      }
    }
  }
  // do these fields take at least one byte in every message?
  static bool always_bytes(const std::vector<Field> &v) {
    for (auto &f : v) {
      if (f.ty == TREF || is_ivec(f.ty)) return true;
      if (f.ty == GROUP) {
        if (f.opt || always_bytes(f.sub)) return true; // (an optional group needs a presence map)
        continue;
      }
      const Op &op = f.ty == SEQ ? f.len_op : f.op;
      if (op.pmap_bit(f.opt) || (f.split && f.mop.pmap_bit(false))) return true; // presence map
      if (op.k == NONE || op.k == DELTA) return true;
      if (f.split && (f.mop.k == NONE || f.mop.k == DELTA)) return true;
    }
    return false;
  }
  void gen_fields(std::vector<Field> &out, unsigned depth, const Scope &scope, unsigned lo, unsigned hi) {
    unsigned n = (unsigned)s.range(lo, hi);
    for (unsigned k = 0; k < n; ++k) {
      Field f;
      int tries = 0;
      do {
        f = gen_field(depth, scope, (unsigned)out.size());
        if (++tries > 20) { f = Field(); f.name = "f" + std::to_string(out.size()); f.ty = U32; break; }
      } while (o.accept && !o.accept(f));
      finish(f, depth, scope);
      out.push_back(f);
    }
  }
  static void mark_inline(std::vector<Field> &v, int t) {
    for (std::size_t k = 0; k < v.size(); ++k) { v[k].tpl_inline = t; v[k].inline_first = k == 0; }
  }
  static bool has_tref(const std::vector<Field> &v) {
    for (auto &f : v)
      if (f.ty == TREF || has_tref(f.sub)) return true;
    return false;
  }
  static bool uses_template_dict(const std::vector<Field> &v) {
    for (auto &f : v)
      if (f.op.dict == "template" || f.mop.dict == "template" || f.len_op.dict == "template" || f.dict == "template" ||
          uses_template_dict(f.sub))
        return true;
    return false;
  }
  // many fields that need presence-map bits, in the template, a group or a sequence
  void add_wide(Template &t, unsigned ti, const Scope &scope) {
    unsigned n = (unsigned)s.range(40, 130);
    Field agg;
    agg.ty = (Ty)s.pick(std::vector<int>{GROUP, SEQ, I32});
    agg.opt = s.coin();
    agg.name = "wide_" + std::to_string(ti);
    std::vector<Field> fs;
    for (unsigned k = 0; k < n; ++k) {
      Field f;
      f.ty = (Ty)s.pick(std::vector<int>{U32, I64, ASCII, DEC, U64});
      f.name = "w" + std::to_string(ti) + "_" + std::to_string(k);
      f.opt = s.coin();
      f.quiet = !s.chance(1, 6);
      f.op.k = f.quiet || s.coin() ? DEFAULT : COPY;
      f.op.has_init = true;
      f.op.init = gen_init(s, f.ty, f);
      finish(f, 0, scope);
      fs.push_back(f);
    }
    if (agg.ty == I32) t.f.insert(t.f.end(), fs.begin(), fs.end());
    else {
      agg.sub = fs;
      t.f.insert(t.f.begin() + (long)s.below(t.f.size() + 1), agg);
    }
  }
  Schema gen() {
    unsigned nt = (unsigned)s.range(1, o.max_templates);
    if (o.keys && s.chance(1, 8)) sc.dict = s.pick(std::vector<std::string>{"usr", "template"});
    if (o.share && s.chance(1, 3)) sc.ns = s.pick(std::vector<std::string>{"urn:a", "urn:b"});
    uint32_t id = 0;
    for (unsigned k = 0; k < nt; ++k) {
      Template t;
      t.name = "T" + std::to_string(k);
      switch (s.weighted({6, 2, 1})) {
      case 0: id += 1 + (uint32_t)s.below(3); break;
      case 1: id += 1 + (uint32_t)s.below(200); break;
      default: id += 1 + (uint32_t)s.below(40000); break;
      }
      t.id = id;
      if (o.share) gen_tyref(t.tyref, t.tyref_ns);
      if ((o.ns || o.share) && s.chance(1, 3)) t.ns = s.pick(std::vector<std::string>{"urn:a", "urn:b"});
      if (o.keys && s.chance(1, 5)) t.dict = s.pick(std::vector<std::string>{"global", "template", "usr"});
      if (o.resets && s.chance(1, 10)) t.reset = true;
      fields_left = 30;
      Scope scope = template_scope(sc, t);
      bool tref = o.tref;
      o.tref = tref && k > 0; // template 0 never refers to others: references terminate
      gen_fields(t.f, 0, scope, o.min_fields, o.max_fields);
      o.tref = tref;
      if (o.tref && k > 0 && s.chance(1, 3)) {
        Field f;
        f.ty = TREF;
        f.name = "f" + std::to_string(t.f.size());
        t.f.push_back(f);
      }
      if (o.wide_den && s.chance(1, o.wide_den)) add_wide(t, k, scope);
      sc.t.push_back(t);
    }
    sc.slots.clear();
    resolve(sc);
    return sc;
  }
  static void resolve_fields(Schema &sc, std::vector<Field> &fs, const Scope &scope) {
    for (auto &f : fs) {
      if (f.split) {
        resolve_op(sc, f.op, scope, f.ns, f.name + "....exponent", EXPO);
        resolve_op(sc, f.mop, scope, f.ns, f.name + "....mantissa", MANT);
      } else if (is_scalar(f.ty))
        resolve_op(sc, f.op, scope, f.ns, f.name, key_ty(f.ty));
      if (f.ty == GROUP || f.ty == SEQ) {
        Scope in = scope.inside(f.dict, f.ns, f.tyref, f.tyref_ns);
        if (f.ty == SEQ) resolve_op(sc, f.len_op, in, "", f.len_name, U32);
        resolve_fields(sc, f.sub, in);
      }
    }
  }
  static void resolve(Schema &sc) {
    sc.slots.clear();
    sc.slot_ty.clear();
    for (auto &t : sc.t) {
      Scope scope = template_scope(sc, t);
      resolve_fields(sc, t.f, scope);
    }
  }
};
} // namespace fm
