// C14: string, byte-vector and integer-vector fields against the standard containers.
#include "pbt.h"
#include <cstring>
#include <list>
#include <memory>
#include <mfast.h>
#include <mfast/arena_allocator.h>
#include <mfast/xml_parser/dynamic_templates_description.h>
using pbt::Case;
using pbt::Src;
using namespace mfast;

namespace {
const char *TEMPLATES = R"(<templates xmlns="http://www.fixprotocol.org/ns/fast/td/1.1"><template name="T" id="1">
<string name="a0"/><string name="a1" presence="optional"/><string name="a2"><default value="initial"/></string>
<string name="a3"/><string name="a4" presence="optional"/><string name="a5"><default value="other"/></string>
<string name="u0" charset="unicode"/><string name="u1" charset="unicode" presence="optional"/><string name="u2" charset="unicode"><default value="initial"/></string>
<string name="u3" charset="unicode"/><string name="u4" charset="unicode" presence="optional"/><string name="u5" charset="unicode"><default value="other"/></string>
<byteVector name="b0"/><byteVector name="b1" presence="optional"/><byteVector name="b2"><default value="0001ff80"/></byteVector>
<byteVector name="b3"/><byteVector name="b4" presence="optional"/><byteVector name="b5"><default value="00"/></byteVector>
<int32Vector name="c0"/><int32Vector name="c1" presence="optional"/><int32Vector name="c2" presence="optional"/>
<int32Vector name="c3"/><int32Vector name="c4" presence="optional"/><int32Vector name="c5"/>
<uInt64Vector name="d0"/><uInt64Vector name="d1" presence="optional"/><uInt64Vector name="d2" presence="optional"/>
<uInt64Vector name="d3"/><uInt64Vector name="d4" presence="optional"/><uInt64Vector name="d5"/>
</template></templates>)";
const template_instruction *inst() {
  static dynamic_templates_description *d = new dynamic_templates_description(TEMPLATES);
  return (*d)[0];
}

template <typename T> struct Model {
  std::vector<T> v;
  bool present = true, opt = false;
  bool writable = false; // the field surely owns its memory
};
template <typename T> std::string show(const std::vector<T> &v) {
  std::ostringstream o;
  if (sizeof(T) == 1) return pbt::hex((const void *)v.data(), v.size());
  for (auto x : v) o << (long long)x << ' ';
  return o.str();
}
template <typename T> T gen_value(Src &s) {
  if (sizeof(T) == 1) return (T)(s.coin() ? 'a' + s.below(4) : s.below(256));
  return s.coin() ? (T)s.below(5) : (T)s.raw64();
}
template <typename T> std::vector<T> gen_vec(Src &s) {
  std::size_t n = s.weighted({1, 6, 2, 1});
  n = n == 0 ? 0 : n == 1 ? s.below(5) : n == 2 ? s.below(24) : (std::size_t)s.range(25, 300);
  std::vector<T> r(n);
  for (auto &x : r) x = gen_value<T>(s);
  return r;
}

// what only strings have
template <typename M> struct Str {
  enum { is = 0 };
  static void as(const M &m, const std::vector<typename M::value_type> &x) { m.as(x); }
  static void op(const M &, unsigned, const std::vector<typename M::value_type> &, typename M::value_type, std::size_t, std::size_t) {}
  static void refer(const M &m, const typename M::value_type *p, std::size_t n, bool other) {
    if (other) m.shallow_assign(p, n);
    else m.refers_to(p, n);
  }
  template <typename C> static void check(const C &, const C &, const std::vector<typename M::value_type> &, const std::vector<typename M::value_type> &, bool) {}
};
template <typename CH> struct Str<string_mref<CH>> {
  typedef string_mref<CH> M;
  enum { is = 1 };
  static boost::string_ref ref(const std::vector<char> &x) { return boost::string_ref(x.data(), x.size()); }
  static void as(const M &m, const std::vector<char> &x) { m.string_mref_base<CH>::as(ref(x)); }
  static void op(M m, unsigned k, const std::vector<char> &x, char c, std::size_t pos, std::size_t len) {
    switch (k) {
    case 0: m.append(ref(x)); break;
    case 1: m.append(ref(x), pos, len); break;
    case 2: m.append(x.data(), x.size()); break;
    case 3: m.append(len, c); break;
    case 4: m.append(x.begin(), x.end()); break;
    case 5: m += ref(x); break;
    case 6: m += c; break;
    default: m = ref(x);
    }
  }
  static void refer(const M &m, const char *p, std::size_t n, bool) { m.refers_to(boost::string_ref(p, n)); }
  static int sgn(int x) { return (x > 0) - (x < 0); }
  template <typename C> static void check(const C &a, const C &b, const std::vector<char> &ma, const std::vector<char> &mb, bool cstr) {
    std::string sa(ma.begin(), ma.end()), sb(mb.begin(), mb.end());
    boost::string_ref rb = ref(mb);
    PBT_CHECK(a.value() == boost::string_ref(sa), "value()");
    PBT_CHECK(sgn(a.compare(b)) == sgn(sa.compare(sb)), "compare");
    PBT_CHECK((a == b) == (sa == sb) && (a != b) == (sa != sb), "== or != of two fields");
    PBT_CHECK((a < b) == (sa < sb) && (a > b) == (sa > sb) && (a <= b) == (sa <= sb) && (a >= b) == (sa >= sb),
              "order of two fields " << pbt::hex(sa) << " and " << pbt::hex(sb));
    // (std::rel_ops, used in namespace mfast, hide the members from the operator syntax)
    PBT_CHECK(a.operator<(b) == (sa < sb) && a.operator>(b) == (sa > sb) && a.operator<=(b) == (sa <= sb) && a.operator>=(b) == (sa >= sb) &&
                  a.operator==(b) == (sa == sb) && a.operator!=(b) == (sa != sb), "order of two fields " << pbt::hex(sa) << " and " << pbt::hex(sb));
    PBT_CHECK((a == rb) == (sa == sb) && (a != rb) == (sa != sb) && (a < rb) == (sa < sb) && (a > rb) == (sa > sb) && (a <= rb) == (sa <= sb) &&
                  (a >= rb) == (sa >= sb), "order of a field and a string");
    if (cstr) PBT_CHECK(std::memcmp(a.c_str(), sa.c_str(), sa.size() + 1) == 0, "c_str()");
  }
};

// integer vectors have no initial value
template <typename M> struct Init {
  enum { is = 1 };
  static void to(const M &m) { m.to_initial_value(); }
};
template <typename T> struct Init<int_vector_mref<T>> {
  enum { is = 0 };
  static void to(const int_vector_mref<T> &) {}
};
template <typename M, typename C> struct Run {
  typedef typename M::value_type T;
  typedef std::vector<T> Vec;
  Src &s;
  Case &c;
  message_type &msg;
  int base;
  Model<T> m[6];
  std::list<Vec> external; // memory that fields refer to; never to be written
  std::list<Vec> copies;
  std::size_t ops = 0;
  const value_storage &storage(int k) { return *field_cref_core_access::storage_of(msg.cref()[(std::size_t)(base + k)]); }

  M field(int k) { return M(msg.ref()[(std::size_t)(base + k)]); }
  C cfield(int k) { return C(msg.cref()[(std::size_t)(base + k)]); }

  void check(int k, const char *after) {
    Model<T> &x = m[k];
    C f = cfield(k);
    PBT_CHECK(f.present() == x.present && f.absent() != x.present, "after " << after << " field " << k << " is " << (x.present ? "absent" : "present"));
    PBT_CHECK(f.size() == x.v.size() && f.length() == x.v.size(), "after " << after << " field " << k << " has size " << f.size() << ", expected " << show(x.v));
    Vec got(f.begin(), f.end());
    PBT_CHECK(got == x.v, "after " << after << " field " << k << " is " << show(got) << ", expected " << show(x.v));
  }
  void deep_check(int k) {
    Model<T> &x = m[k];
    C f = cfield(k);
    M w = field(k);
    Vec r(f.rbegin(), f.rend()), r2(x.v.rbegin(), x.v.rend()), r3(f.crbegin(), f.crend()), b(f.cbegin(), f.cend());
    PBT_CHECK(r == r2 && r3 == r2 && b == x.v, "iterators of field " << k);
    Vec wb(w.begin(), w.end()), wr(w.rbegin(), w.rend());
    PBT_CHECK(wb == x.v && wr == r2, "mutable iterators of field " << k);
    for (std::size_t i = 0; i < x.v.size(); ++i) PBT_CHECK(f[i] == x.v[i] && f.data()[i] == x.v[i], "element " << i << " of field " << k);
    int o = (int)s.below(6);
    C g = cfield(o);
    if (x.present && m[o].present) {
      PBT_CHECK((f == g) == (x.v == m[o].v) && (f != g) == (x.v != m[o].v), "equality of fields " << k << " and " << o);
      Str<M>::check(f, g, x.v, m[o].v, x.writable);
    }
    auto e = external.begin();
    for (auto &y : copies) { PBT_CHECK(*e == y, "memory that a field refers to was changed to " << show(*e) << " from " << show(y)); ++e; }
  }
  void say(const std::string &t) { if (c.want_log) c.note(t); }

  void step() {
    int k = (int)s.below(6);
    Model<T> &x = m[k];
    M f = field(k);
    std::string fs = "field " + std::to_string(k) + ": ";
    unsigned op = s.weighted({4, 3, 3, 2, 3, 3, 4, 2, 4, 3, 4, 3, 4, 2, 2, 2, 2, 2, 2, 2, 3, 2});
    bool touch = true; // the operation gives the field memory of its own
    auto pos = [&] { return s.below(x.v.size() + 1); };
    switch (op) {
    case 0: { Vec a = gen_vec<T>(s); say(fs + "as " + show(a)); Str<M>::as(f, a); x.v = a; break; }
    case 1: {
      Vec a = gen_vec<T>(s);
      bool in = s.coin();
      say(fs + "assign range " + (in ? "(list) " : "") + show(a));
      if (in) { std::list<T> l(a.begin(), a.end()); f.assign(l.begin(), l.end()); }
      else f.assign(a.begin(), a.end());
      x.v = a;
      break;
    }
    case 2: { std::size_t n = s.below(20); T val = gen_value<T>(s); say(fs + "assign " + std::to_string(n)); f.assign(n, val); x.v.assign(n, val); break; }
    case 3: {
      std::size_t n = s.below(s.chance(1, 4) ? 400 : 20);
      T val = s.coin() ? gen_value<T>(s) : T();
      say(fs + "resize " + std::to_string(n));
      if (val == T()) f.resize(n);
      else f.resize(n, val);
      x.v.resize(n, val);
      break;
    }
    case 4: {
      std::size_t n = s.below(40);
      say(fs + "reserve " + std::to_string(n));
      f.reserve(n);
      if (!x.present) x.present = cfield(k).present(); // whether this makes it present is left open
      touch = false;
      break;
    }
    case 5: case 6: {
      unsigned n = op == 5 ? 1 : (unsigned)s.range(1, 40); // (also one after the other, up to the capacity)
      say(fs + "push_back x" + std::to_string(n));
      for (unsigned i = 0; i < n; ++i) { T val = gen_value<T>(s); f.push_back(val); x.v.push_back(val); if (s.chance(1, 4)) { x.present = x.writable = true; check(k, "push_back"); deep_check(k); } }
      break;
    }
    case 7: say(fs + "pop_back"); f.pop_back(); if (x.v.size()) x.v.pop_back(); touch = false; break;
    case 8: {
      std::size_t p = pos();
      T val = gen_value<T>(s);
      say(fs + "insert at " + std::to_string(p));
      typename M::iterator it = f.insert(f.begin() + p, val);
      x.v.insert(x.v.begin() + (long)p, val);
      PBT_CHECK((std::size_t)(it - f.begin()) == p, "insert returns position " << it - f.begin() << ", not " << p);
      break;
    }
    case 9: {
      std::size_t p = pos(), n = s.below(9);
      T val = gen_value<T>(s);
      say(fs + "insert " + std::to_string(n) + " at " + std::to_string(p));
      f.insert(f.begin() + p, n, val);
      x.v.insert(x.v.begin() + (long)p, n, val);
      if (n == 0) { if (!x.present) x.present = cfield(k).present(); touch = false; }
      break;
    }
    case 10: case 11: {
      std::size_t p = pos();
      Vec a = gen_vec<T>(s);
      bool in = op == 11;
      say(fs + "insert range " + (in ? "(list) " : "") + show(a) + " at " + std::to_string(p));
      if (in) { std::list<T> l(a.begin(), a.end()); f.insert(f.begin() + p, l.begin(), l.end()); }
      else f.insert(f.begin() + p, a.begin(), a.end());
      x.v.insert(x.v.begin() + (long)p, a.begin(), a.end());
      if (a.empty()) { if (!x.present) x.present = cfield(k).present(); touch = false; }
      break;
    }
    case 12: {
      if (!x.v.size()) return;
      std::size_t p = s.below(x.v.size()), n = s.below(x.v.size() - p + 1);
      if (s.chance(1, 6)) n += s.below(5); // more than there is
      Vec a = gen_vec<T>(s);
      say(fs + "replace " + std::to_string(n) + " at " + std::to_string(p) + " by " + show(a));
      f.replace(p, n, a.data(), a.size());
      Vec y(x.v.begin(), x.v.begin() + (long)p);
      y.insert(y.end(), a.begin(), a.end());
      if (p + n < x.v.size()) y.insert(y.end(), x.v.begin() + (long)(p + n), x.v.end());
      x.v = y;
      break;
    }
    case 13: say(fs + "clear"); f.clear(); x.v.clear(); if (x.opt) x.present = false; touch = false; break;
    case 14: say(fs + "omit"); f.omit(); if (x.opt) { x.v.clear(); x.present = false; } touch = false; break;
    case 15: {
      external.push_back(gen_vec<T>(s));
      copies.push_back(external.back());
      Vec &e = external.back();
      say(fs + "refers_to " + show(e));
      Str<M>::refer(f, e.data(), e.size(), s.coin());
      x.v = e;
      x.present = true;
      x.writable = false;
      touch = false;
      break;
    }
    case 16: {
      int o = (int)s.below(6);
      if (m[o].opt != x.opt) return; // (a mandatory field must not become absent)
      say(fs + "swap with " + std::to_string(o));
      f.swap(field(o));
      if (o != k) { std::swap(x.v, m[o].v); std::swap(x.present, m[o].present); std::swap(x.writable, m[o].writable); check(o, "swap"); }
      touch = false;
      break;
    }
    case 17: {
      int o = (int)s.below(6);
      if (!m[o].present && !x.opt) return;
      say(fs + "as field " + std::to_string(o));
      f.as(cfield(o));
      x.v = m[o].v;
      if (m[o].present) break;
      x.present = false;
      touch = false;
      break;
    }
    case 18: {
      if (Init<M>::is == 0 || (!x.opt && k != 2 && k != 5)) return; // (a mandatory field without one: left open)
      say(fs + "to_initial_value");
      Init<M>::to(f);
      x.v = initial(k);
      touch = false;
      if (x.opt) x.present = false;
      break;
    }
    case 19: {
      if (!x.writable || x.v.empty()) return;
      std::size_t i = s.below(x.v.size());
      T val = gen_value<T>(s);
      say(fs + "[" + std::to_string(i) + "] = ");
      switch (s.below(3)) {
      case 0: f[i] = val; break;
      case 1: *(f.begin() + i) = val; break;
      default: f.data()[i] = val;
      }
      x.v[i] = val;
      touch = false;
      break;
    }
    case 20: {
      if (!Str<M>::is) return;
      unsigned q = (unsigned)s.below(8);
      Vec a = gen_vec<T>(s);
      T val = gen_value<T>(s);
      std::size_t p = 0, n = s.below(9);
      if (q == 1) { if (a.empty()) return; p = s.below(a.size()); n = s.below(a.size() - p); }
      say(fs + "append variant " + std::to_string(q) + " " + show(a));
      Str<M>::op(f, q, a, val, p, n);
      switch (q) {
      case 1: a = Vec(a.begin() + (long)p, a.begin() + (long)(p + n)); break;
      case 3: a.assign(n, val); break;
      case 6: a.assign(1, val); break;
      case 7: x.v.clear(); break;
      default: break;
      }
      x.v.insert(x.v.end(), a.begin(), a.end());
      if (a.empty() && q != 7) { if (!x.present) x.present = cfield(k).present(); touch = false; }
      break;
    }
    default: {
      // make the storage exactly full
      std::size_t n = s.below(12);
      say(fs + "resize down and up by " + std::to_string(n));
      f.resize(x.v.size() / 2);
      x.v.resize(x.v.size() / 2);
      std::size_t grow = n;
      for (std::size_t i = 0; i < grow; ++i) { f.insert(f.begin(), (T)i); x.v.insert(x.v.begin(), (T)i); }
      break;
    }
    }
    if (touch) { x.present = true; if (x.v.size()) x.writable = true; }
    check(k, "this operation");
    if (s.coin()) deep_check(k);
    ++ops;
  }
  Vec initial(int k) {
    static const char *bytes[] = {"", "", "\x00\x01\xff\x80", "", "", "\x00"};
    static const std::size_t bn[] = {0, 0, 4, 0, 0, 1};
    if (Str<M>::is) { std::string t = k == 2 ? "initial" : k == 5 ? "other" : ""; return Vec(t.begin(), t.end()); }
    if (sizeof(T) == 1) return Vec(bytes[k], bytes[k] + bn[k]);
    return Vec();
  }
  void go() {
    for (int k = 0; k < 6; ++k) {
      m[k].opt = inst()->subinstruction((std::size_t)(base + k))->optional();
      m[k].present = !m[k].opt;
      m[k].v = initial(k);
      check(k, "construction");
    }
    std::size_t n = (std::size_t)s.range(1, 24);
    for (std::size_t i = 0; i < n; ++i) step();
    for (int k = 0; k < 6; ++k) { check(k, "all operations"); deep_check(k); c.mix(show(m[k].v)); }
    // the values in the template are as before
    message_type fresh(malloc_allocator::instance(), inst());
    for (int k = 0; k < 6; ++k) {
      C f(fresh.cref()[(std::size_t)(base + k)]);
      Vec v(f.begin(), f.end());
      PBT_CHECK(v == initial(k), "a new message starts with " << show(v) << " in field " << k);
    }
    c.sub = ops;
    c.nontrivial = ops >= 4;
  }
};

void containers(Src &s, Case &c) {
  unsigned kind = (unsigned)s.below(5);
  bool arena = s.chance(1, 3);
  static const char *n[] = {"ascii", "unicode", "byteVector", "int32Vector", "uInt64Vector"};
  c.label(n[kind]);
  if (c.want_log) c.note(std::string(n[kind]) + (arena ? ", arena allocator" : ", malloc allocator") + "; fields 0,3 mandatory, 1,4 optional, 2,5 with initial value (or as 1, 0)");
  c.mix(kind * 2 + arena);
  arena_allocator aa;
  allocator *al = arena ? (allocator *)&aa : (allocator *)malloc_allocator::instance();
  message_type msg(al, inst());
  switch (kind) {
  case 0: Run<ascii_string_mref, ascii_string_cref>{s, c, msg, 0}.go(); break;
  case 1: Run<unicode_string_mref, unicode_string_cref>{s, c, msg, 6}.go(); break;
  case 2: Run<byte_vector_mref, byte_vector_cref>{s, c, msg, 12}.go(); break;
  case 3: Run<int32_vector_mref, int32_vector_cref>{s, c, msg, 18}.go(); break;
  default: Run<uint64_vector_mref, uint64_vector_cref>{s, c, msg, 24}.go(); break;
  }
}
} // namespace
PBT_PROPERTY("C14.containers", "histories of 1-24 container operations (assign, append, insert, replace, resize, reserve, push/pop, clear, omit, refers_to, swap, "
             "element writes, c_str, comparisons) over six fields of one kind, mandatory, optional or with an initial value, malloc or arena memory, against "
             "std::vector; non-trivial = at least four operations", containers, 300000, 8000000)
