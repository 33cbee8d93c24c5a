// C26: fields are found, iterated over, visited, converted and printed as they are.
#include "codec_common.h"
#include "values.h"
#include <mfast/field_comparator.h>
#include <mfast/output.h>
#include <typeinfo>
using namespace cc;
using namespace mfast;

namespace {
const value_storage *at(const field_cref &f) { return field_cref_core_access::storage_of(f); }

// ---------------------------------------------------------------- visitors
// what a visitor was called with
struct Seen {
  const std::type_info *type = nullptr;
  const void *storage = nullptr;
  const field_instruction *inst = nullptr;
  const mfast::allocator *alloc = nullptr;
  int calls = 0;
};
struct Watch { // returns how often it was called
  Seen s;
  template <typename R> void see(const R &r) {
    s.type = &typeid(R);
    s.storage = at(field_cref(r));
    s.inst = r.instruction();
    ++s.calls;
  }
  template <typename R> int visit(const R &r) { see(r); return s.calls * 2; }
  template <typename R> int visit(const R &r, int) { see(r); return s.calls * 2 + 1; }
};
struct WatchVoid : Watch {
  template <typename R> void visit(const R &r) { see(r); }
  template <typename R> void visit(const R &r, int) { see(r); }
};
struct WatchMut { // the same for references that can change the field
  Seen s;
  template <typename R> void see(const R &r) {
    s.type = &typeid(typename cref_of<R>::type);
    s.storage = field_mref_core_access::storage_of(r);
    s.inst = r.instruction();
    s.alloc = r.allocator();
    ++s.calls;
  }
  template <typename R> int visit(const R &r) { see(r); return s.calls * 2; }
  template <typename R> int visit(const R &r, int) { see(r); return s.calls * 2 + 1; }
};
const std::type_info &type_of(Ty t) {
  switch (t) {
  case I32: return typeid(int32_cref);
  case U32: return typeid(uint32_cref);
  case I64: return typeid(int64_cref);
  case U64: return typeid(uint64_cref);
  case DEC: return typeid(decimal_cref);
  case ASCII: return typeid(ascii_string_cref);
  case UNI: return typeid(unicode_string_cref);
  case BYTES: return typeid(byte_vector_cref);
  case I32V: return typeid(int32_vector_cref);
  case U32V: return typeid(uint32_vector_cref);
  case I64V: return typeid(int64_vector_cref);
  case U64V: return typeid(uint64_vector_cref);
  case ENUM: return typeid(enum_cref);
  case GROUP: return typeid(group_cref);
  case SEQ: return typeid(sequence_cref);
  default: return typeid(nested_message_cref);
  }
}
bool composite(Ty t) { return t == GROUP || t == SEQ || t == TREF; }

const char *type_name(Ty t, bool split) {
  switch (t) {
  case I32: return "field_type_int32";
  case U32: return "field_type_uint32";
  case I64: return "field_type_int64";
  case U64: return "field_type_uint64";
  case DEC: return split ? "field_type_exponent" : "field_type_decimal";
  case ASCII: return "field_type_ascii_string";
  case UNI: return "field_type_unicode_string";
  case BYTES: return "field_type_byte_vector";
  case I32V: return "field_type_int32_vector";
  case U32V: return "field_type_uint32_vector";
  case I64V: return "field_type_int64_vector";
  case U64V: return "field_type_uint64_vector";
  case ENUM: return "field_type_enum";
  case GROUP: return "field_type_group";
  case SEQ: return "field_type_sequence";
  default: return "field_type_templateref";
  }
}

// rebuilds the value tree of a message with visitors and iterators only
struct Read {
  const Schema &sc;
  const Field *f;
  V v;
  Read(const Schema &sc_, const Field *f_) : sc(sc_), f(f_) {}
  void visit(const int32_cref &r) { v.i = r.value(); }
  void visit(const uint32_cref &r) { v.i = r.value(); }
  void visit(const int64_cref &r) { v.i = r.value(); }
  void visit(const uint64_cref &r) { v.i = (int64_t)r.value(); }
  void visit(const enum_cref &r) { v.i = (int64_t)r.value(); }
  void visit(const set_cref &) { PBT_FAIL("a set is visited"); }
  void visit(const decimal_cref &r) { v.i = r.mantissa(); v.exp = r.exponent(); }
  void visit(const ascii_string_cref &r) { v.s.assign(r.begin(), r.end()); }
  void visit(const unicode_string_cref &r) { v.s.assign(r.begin(), r.end()); }
  void visit(const byte_vector_cref &r) { v.s.assign(r.begin(), r.end()); }
  template <typename T> void visit(const vector_cref<T> &r) { for (auto x : r) v.iv.push_back((int64_t)x); }
  void visit(const int32_vector_cref &r) { for (auto x : r) v.iv.push_back(x); }
  void visit(const uint32_vector_cref &r) { for (auto x : r) v.iv.push_back(x); }
  void visit(const int64_vector_cref &r) { for (auto x : r) v.iv.push_back(x); }
  void visit(const uint64_vector_cref &r) { for (auto x : r) v.iv.push_back((int64_t)x); }
  void visit(const group_cref &r, int) { v.sub = walk(aggregate_cref(r), f->sub); }
  void visit(const sequence_cref &r, int) { for (auto e : r) v.el.push_back(walk(e, f->sub)); }
  void visit(const nested_message_cref &r, int) {
    message_cref t = r.target();
    v.present = t.instruction() != nullptr;
    if (!v.present) return;
    v.tmpl = sc.find_id(t.instruction()->id());
    v.sub = walk(t, sc.t[v.tmpl].f);
  }
  std::vector<V> walk(const aggregate_cref &m, const std::vector<Field> &fs) {
    std::vector<V> out;
    std::size_t k = 0;
    for (auto x : m) {
      PBT_CHECK(k < fs.size(), "more fields than the template has");
      const Field &g = fs[k++];
      out.push_back(V());
      if (x.absent() && g.ty != TREF) continue;
      Read r(sc, &g);
      r.v.present = true;
      if (k % 2) x.accept_accessor(r);
      else apply_accessor(r, x);
      out.back() = r.v;
    }
    PBT_CHECK(k == fs.size(), "only " << k << " of " << fs.size() << " fields");
    return out;
  }
};
// stores a value through a visitor
struct Write {
  const V &v;
  explicit Write(const V &x) : v(x) {}
  void visit(const int32_mref &r) { r.as((int32_t)v.i); }
  void visit(const uint32_mref &r) { r.as((uint32_t)v.i); }
  void visit(const int64_mref &r) { r.as(v.i); }
  void visit(const uint64_mref &r) { r.as((uint64_t)v.i); }
  void visit(const enum_mref &r) { r.as((uint64_t)v.i); }
  void visit(const set_mref &) { PBT_FAIL("a set is visited"); }
  void visit(const decimal_mref &r) { r.as(v.i, (int16_t)v.exp); }
  void visit(const ascii_string_mref &r) { r.assign(v.s.begin(), v.s.end()); }
  void visit(const unicode_string_mref &r) { r.assign(v.s.begin(), v.s.end()); }
  void visit(const byte_vector_mref &r) { r.assign((const unsigned char *)v.s.data(), (const unsigned char *)v.s.data() + v.s.size()); }
  template <typename R> void ints(const R &r) { std::vector<typename R::value_type> t(v.iv.begin(), v.iv.end()); r.assign(t.begin(), t.end()); }
  void visit(const int32_vector_mref &r) { ints(r); }
  void visit(const uint32_vector_mref &r) { ints(r); }
  void visit(const int64_vector_mref &r) { ints(r); }
  void visit(const uint64_vector_mref &r) { ints(r); }
  void visit(const group_mref &, int) { PBT_FAIL("a group is visited"); }
  void visit(const sequence_mref &, int) { PBT_FAIL("a sequence is visited"); }
  void visit(const nested_message_mref &, int) { PBT_FAIL("a message is visited"); }
};

template <typename T> bool casts(const field_cref &f) {
  try {
    T r = dynamic_cast_as<T>(f);
    PBT_CHECK(at(field_cref(r)) == at(f) && r.instruction() == f.instruction(), f.name() << ": dynamic_cast_as yields another field");
    return true;
  } catch (const std::bad_cast &) {
    return false;
  }
}
// by the class of the instruction: byte vectors are unicode strings are ASCII
// strings, and sequences are groups
unsigned cast_mask(const field_cref &f) {
  unsigned m = 0, b = 1;
#define TRY(T) m |= casts<T>(f) ? b : 0, b <<= 1
  TRY(int32_cref); TRY(uint32_cref); TRY(int64_cref); TRY(uint64_cref); TRY(decimal_cref); TRY(enum_cref);
  TRY(ascii_string_cref); TRY(unicode_string_cref); TRY(byte_vector_cref);
  TRY(int32_vector_cref); TRY(uint32_vector_cref); TRY(int64_vector_cref); TRY(uint64_vector_cref);
  TRY(group_cref); TRY(sequence_cref); TRY(nested_message_cref);
#undef TRY
  return m;
}
unsigned own_bit(Ty t) {
  static const Ty order[] = {I32, U32, I64, U64, DEC, ENUM, ASCII, UNI, BYTES, I32V, U32V, I64V, U64V, GROUP, SEQ, TREF};
  for (unsigned k = 0; k < 16; ++k)
    if (order[k] == t) return 1u << k;
  return 0;
}
unsigned derived_bits(Ty t) { return t == UNI ? own_bit(ASCII) : t == BYTES ? own_bit(ASCII) | own_bit(UNI) : t == SEQ ? own_bit(GROUP) : 0; }

// ------------------------------------------------------------------ looking up
struct Look {
  Src &s;
  const Schema &sc;
  Case &c;
  std::size_t fields = 0, found = 0, missed = 0, twice = 0;

  template <typename Agg> void lookup(const Agg &a, const aggregate_cref &m, const std::vector<Field> &fs) {
    auto id_of = [&](std::size_t k) { return fs[k].ty == TREF ? m.subinstruction(k)->id() : fs[k].id; };
    auto name_of = [&](std::size_t k) { return fs[k].ty == TREF ? std::string(m.subinstruction(k)->name()) : fs[k].name; };
    for (int n = 0; n < 6; ++n) {
      std::size_t k = (std::size_t)s.below(fs.size());
      uint32_t id = s.chance(1, 3) ? (uint32_t)s.below(9) : s.chance(1, 6) ? 0xFFFFFFFFu : id_of(k);
      int want = -1, count = 0;
      for (std::size_t j = 0; j < fs.size(); ++j)
        if (id_of(j) == id) { if (want < 0) want = (int)j; ++count; }
      PBT_CHECK(a.field_index_with_id(id) == want, "field_index_with_id(" << id << ") is " << a.field_index_with_id(id) << " instead of " << want);
      field_cref r = detail::field_ref_with_id(m.field_storage(0), m.instruction(), id);
      if (want < 0) PBT_CHECK(r.instruction() == nullptr && r.absent(), "field_ref_with_id(" << id << ") finds a field");
      else PBT_CHECK(at(r) == m.field_storage((std::size_t)want) && r.instruction() == m.subinstruction((std::size_t)want), "field_ref_with_id(" << id << ") is another field");
      ++(want < 0 ? missed : found);
      twice += count > 1;
      std::string nm = name_of(k);
      switch (s.below(6)) {
      case 0: nm += "x"; break;
      case 1: if (!nm.empty()) nm.pop_back(); break;
      case 2: if (!nm.empty()) nm[0] = (char)(nm[0] ^ 0x20); break;
      default: break;
      }
      want = -1;
      for (std::size_t j = 0; j < fs.size(); ++j)
        if (want < 0 && name_of(j) == nm) want = (int)j;
      std::string copy(nm.c_str()); // another address
      PBT_CHECK(a.field_index_with_name(copy.c_str()) == want, "field_index_with_name(" << nm << ") is " << a.field_index_with_name(copy.c_str()) << " instead of " << want);
      field_cref q = detail::field_ref_with_name(m.field_storage(0), m.instruction(), copy.c_str());
      if (want < 0) PBT_CHECK(q.instruction() == nullptr && q.absent(), "field_ref_with_name(" << nm << ") finds a field");
      else PBT_CHECK(at(q) == m.field_storage((std::size_t)want) && q.instruction() == m.subinstruction((std::size_t)want), "field_ref_with_name(" << nm << ") is another field");
      ++(want < 0 ? missed : found);
    }
  }
  // iterators: random access over the same fields as []
  template <typename Agg> void iterate(const Agg &a, std::size_t n) {
    auto b = a.begin(), e = a.end();
    PBT_CHECK((std::size_t)(e - b) == n && b + (std::ptrdiff_t)n == e && e - (std::ptrdiff_t)n == b, "end() - begin() is " << (e - b) << " instead of " << n);
    std::size_t p = 0;
    auto it = b;
    for (int k = 0; k < 8; ++k) {
      std::size_t q = (std::size_t)s.below(n + 1);
      switch (s.below(4)) {
      case 0: it += (std::ptrdiff_t)q - (std::ptrdiff_t)p; break;
      case 1: for (; p < q; ++p) ++it; for (; p > q; --p) it--; break;
      case 2: it = e - (std::ptrdiff_t)(n - q); break;
      default: it = b + (std::ptrdiff_t)q;
      }
      p = q;
      PBT_CHECK((std::size_t)(it - b) == p && (it == e) == (p == n) && (it == b) == (p == 0), "an iterator at " << p << " is at " << (it - b));
      if (p == n) continue;
      auto f = *it;
      auto g = a[p];
      PBT_CHECK(at(f) == at(g) && f.instruction() == g.instruction(), "an iterator at " << p << " refers to " << f.name() << " instead of " << g.name());
      auto h = b[(std::ptrdiff_t)p];
      (void)h;
    }
  }
  // every field of an aggregate and of what is inside of it
  void all(const aggregate_mref &m, const std::vector<Field> &fs) {
    const aggregate_cref &cm = m;
    PBT_CHECK(cm.num_fields() == fs.size(), "num_fields() is " << cm.num_fields());
    if (fs.empty()) return;
    lookup(cm, cm, fs);
    iterate(cm, fs.size());
    iterate(m, fs.size());
    for (std::size_t k = 0; k < fs.size(); ++k) {
      const Field &f = fs[k];
      field_cref r = cm[k];
      field_mref w = m[k];
      std::string what = "field " + f.name + ": ";
      ++fields;
      PBT_CHECK(at(w) == at(r) && w.allocator() == m.allocator(), what << "operator[] of the mutable reference is another field");
      if (f.ty != TREF) PBT_CHECK(r.name() == f.name && r.id() == f.id && r.optional() == f.opt, what << "is " << r.name() << " id " << r.id());
      else {
        const template_instruction *t = nested_message_cref(r).target_instruction();
        PBT_CHECK(r.id() == (t ? t->id() : 0), what << "id() is " << r.id());
      }
      PBT_CHECK(r.instruction()->field_type_name() == std::string(type_name(f.ty, f.split)), what << "the name of its type is " << r.instruction()->field_type_name());
      visit(r, w, f, what);
      print(r, f, what);
      PBT_CHECK((cast_mask(r) & ~derived_bits(f.ty)) == own_bit(f.ty), what << "dynamic_cast_as allows other types: " << cast_mask(r));
      if (r.absent() && f.ty != TREF) continue;
      if (f.ty == GROUP) {
        group_cref g(r);
        PBT_CHECK(g.num_fields() == f.sub.size(), what << "num_fields() is " << g.num_fields());
        if (!f.sub.empty()) {
          lookup(g, aggregate_cref(g), f.sub);
          for (std::size_t j = 0; j < f.sub.size(); ++j)
            PBT_CHECK(at(g[j]) == aggregate_cref(g).field_storage(j) && at(group_mref(w)[j]) == at(g[j]) && g.field_storage(j) == at(g[j]), what << "its field " << j << " is another one");
        }
        all(aggregate_mref(group_mref(w)), f.sub);
      } else if (f.ty == SEQ) {
        sequence_mref q(w);
        for (std::size_t j = 0; j < q.size(); ++j) all(q[j], f.sub);
      } else if (f.ty == TREF) {
        nested_message_mref n(w);
        if (n.target_instruction()) all(n.target(), sc.t[(std::size_t)sc.find_id(n.target_instruction()->id())].f);
      }
    }
  }
  void visit(const field_cref &r, const field_mref &w, const Field &f, const std::string &what) {
    auto check = [&](const Seen &x, const char *by) {
      PBT_CHECK(x.calls == 1, what << by << " calls the visitor " << x.calls << " times");
      PBT_CHECK(*x.type == type_of(f.ty), what << by << " calls the visitor with " << x.type->name() << " instead of " << type_of(f.ty).name());
      PBT_CHECK(x.storage == at(r) && x.inst == r.instruction(), what << by << " calls the visitor with another field");
    };
    int want = composite(f.ty) ? 3 : 2;
    Watch a;
    int res = apply_accessor(a, r);
    check(a.s, "apply_accessor");
    PBT_CHECK(res == want, what << "apply_accessor returns " << res << " instead of " << want);
    Watch b;
    r.accept_accessor(b);
    check(b.s, "accept_accessor");
    WatchVoid d;
    apply_accessor(d, r);
    check(d.s, "apply_accessor without result");
    if (f.ty == GROUP && r.absent()) return; // a mutable reference to a group makes it present
    WatchMut x;
    res = apply_mutator(x, w);
    check(x.s, "apply_mutator");
    PBT_CHECK(res == want && x.s.alloc == w.allocator(), what << "apply_mutator returns " << res << " instead of " << want << " or uses another allocator");
    WatchMut y;
    w.accept_mutator(y);
    check(y.s, "accept_mutator");
    PBT_CHECK(y.s.alloc == w.allocator(), what << "accept_mutator uses another allocator");
  }
  template <typename REF> std::string out(const REF &r, int how) {
    std::ostringstream o;
    if (how == 1) o << std::showbase << std::uppercase;
    if (how == 2) o << std::hex;
    if (how == 3) o << std::oct << std::showpos;
    std::ios_base::fmtflags before = o.flags();
    o << r;
    PBT_CHECK(o.flags() == before, "printing changes the flags of the stream");
    PBT_CHECK(o.good(), "printing fails");
    std::size_t n = o.str().size();
    o << std::dec << std::noshowpos << 42; // what follows isn't affected
    PBT_CHECK(o.str().substr(n) == "42", "printing affects what is printed afterwards: " << o.str().substr(n));
    return o.str().substr(0, n);
  }
  template <typename T> std::string plain(T v, int how) {
    std::ostringstream o;
    if (how == 1) o << std::showbase << std::uppercase;
    if (how == 2) o << std::hex;
    if (how == 3) o << std::oct << std::showpos;
    o << v;
    return o.str();
  }
  void print(const field_cref &r, const Field &f, const std::string &what) {
    if (r.absent()) return;
    int how = (int)s.below(4);
    std::string got, want;
    switch (f.ty) {
    case I32: got = out(int32_cref(r), how); want = plain(int32_cref(r).value(), how); break;
    case U32: got = out(uint32_cref(r), how); want = plain(uint32_cref(r).value(), how); break;
    case I64: got = out(int64_cref(r), how); want = plain(int64_cref(r).value(), how); break;
    case U64: got = out(uint64_cref(r), how); want = plain(uint64_cref(r).value(), how); break;
    case ASCII: got = out(ascii_string_cref(r), how); want = std::string(ascii_string_cref(r).data(), ascii_string_cref(r).size()); want = want.c_str(); break;
    case UNI: got = out(unicode_string_cref(r), how); want = std::string(unicode_string_cref(r).data(), unicode_string_cref(r).size()); want = want.c_str(); break;
    case BYTES: {
      byte_vector_cref b(r);
      got = out(b, how == 1 ? 0 : how);
      for (std::size_t k = 0; k < b.size(); ++k) {
        char t[3];
        snprintf(t, sizeof t, "%02x", b[k]);
        want += t;
      }
      break;
    }
    default: return;
    }
    PBT_CHECK(got == want, what << "is printed as " << pbt::hex(got) << " instead of " << pbt::hex(want));
  }
};

// ------------------------------------------------------------------ conversion
template <typename T> T small_or_any(Src &s) {
  static const int64_t in[] = {0, 1, -1, 9, 10, 127, 128, 255, 256, 32767, -32768, 65535, 65536, 2147483647, -2147483647 - 1, 4294967295ll};
  if (s.coin()) return (T)in[s.below(sizeof in / sizeof *in)];
  return (T)(s.raw64() >> s.below(64));
}
template <typename A, typename B> bool fits(B v) { return (B)(A)v == v && ((A)v < 0) == (v < 0); }

struct Conv {
  Src &s;
  const Schema &sc;
  Case &c;
  std::size_t stored = 0, refused = 0;
  template <typename T> bool refuses(field_mref w, const T &t, const std::string &what) {
    try {
      w.as(t);
    } catch (const incompatible_type_conversion_error &) {
      return true;
    }
    (void)what;
    return false;
  }
  template <typename T> void integer(field_mref w, const Field &f, V &cur, const char *tn) {
    T v = small_or_any<T>(s);
    std::string what = f.name + ".as(" + tn + " " + std::to_string(v) + ")";
    bool ok = true;
    V n;
    n.present = true;
    switch (f.ty) {
    case I32: if (!fits<int32_t>(v)) return; n.i = (int32_t)v; break;
    case U32: if (!fits<uint32_t>(v)) return; n.i = (uint32_t)v; break;
    case I64: if (!fits<int64_t>(v)) return; n.i = (int64_t)v; break;
    case U64: if (!fits<uint64_t>(v)) return; n.i = (int64_t)(uint64_t)v; break;
    case ENUM: {
      uint64_t e = f.elems[s.below(f.elems.size())].second;
      if (!fits<T>(e)) return;
      v = (T)e;
      n.i = (int64_t)e;
      break;
    }
    case DEC:
      if (!fits<int64_t>(v) || f.split) return;
      n.i = (int64_t)v;
      break;
    default: ok = false;
    }
    bool r = refuses(w, v, what);
    PBT_CHECK(r == !ok, what << (r ? " is refused" : " is accepted by a field of another type"));
    if (!ok) { ++refused; return; }
    ++stored;
    if (f.ty == DEC) { // the same number, without zeros at the end
      decimal_cref d(w);
      PBT_CHECK(d.present() && d.exponent() >= 0 && d.exponent() < 20, what << " has exponent " << d.exponent());
      __int128 x = d.mantissa();
      for (int k = 0; k < d.exponent(); ++k) x *= 10;
      PBT_CHECK(x == (__int128)n.i, what << " is " << d.mantissa() << "e" << d.exponent());
      n.i = d.mantissa();
      n.exp = d.exponent();
    }
    cur = n;
  }
  void one(field_mref w, const Field &f, V &cur) {
    switch (s.below(9)) {
    case 0: integer<int32_t>(w, f, cur, "int32"); break;
    case 1: integer<uint32_t>(w, f, cur, "uint32"); break;
    case 2: integer<int64_t>(w, f, cur, "int64"); break;
    case 3: integer<uint64_t>(w, f, cur, "uint64"); break;
    case 4: integer<int16_t>(w, f, cur, "int16"); break;
    case 5: { // text
      std::string t = gen_str(s, ASCII, gen_len(s));
      t = t.c_str();
      bool ok = f.ty == ASCII || f.ty == UNI;
      const char *p = t.c_str();
      bool r = refuses<const char *>(w, p, "text");
      PBT_CHECK(r == !ok, f.name << ".as(const char *)" << (r ? " is refused" : " is accepted by a field of another type"));
      ++(ok ? stored : refused);
      if (ok) { cur = V(); cur.present = true; cur.s = t; }
      break;
    }
    case 6: { // bytes
      std::string t = gen_str(s, BYTES, gen_len(s));
      bool ok = f.ty == BYTES;
      bool r = refuses(w, std::vector<unsigned char>(t.begin(), t.end()), "bytes");
      PBT_CHECK(r == !ok, f.name << ".as(vector)" << (r ? " is refused" : " is accepted by a field of another type"));
      ++(ok ? stored : refused);
      if (ok) { cur = V(); cur.present = true; cur.s = t; }
      break;
    }
    case 7: {
      unsigned char t[5];
      for (auto &x : t) x = (unsigned char)s.below(256);
      bool ok = f.ty == BYTES, r = false;
      try {
        w.as(t);
      } catch (const incompatible_type_conversion_error &) {
        r = true;
      }
      PBT_CHECK(r == !ok, f.name << ".as(unsigned char[5])" << (r ? " is refused" : " is accepted by a field of another type"));
      ++(ok ? stored : refused);
      if (ok) { cur = V(); cur.present = true; cur.s.assign((const char *)t, 5); }
      break;
    }
    default: {
      if (f.ty == DEC && f.split) return;
      int64_t m = s.range(-999999, 999999);
      int e = (int)s.range(-4, 3);
      decimal d(std::to_string(m) + "e" + std::to_string(e));
      bool ok = f.ty == DEC;
      bool r = refuses(w, d, "decimal");
      PBT_CHECK(r == !ok, f.name << ".as(decimal)" << (r ? " is refused" : " is accepted by a field of another type"));
      ++(ok ? stored : refused);
      if (!ok) break;
      decimal_cref x(w);
      __int128 a = m, b = x.mantissa();
      PBT_CHECK(x.present() && x.exponent() > -30 && x.exponent() < 30, f.name << ".as(decimal) has exponent " << x.exponent());
      for (int k = x.exponent(); k < e; ++k) a *= 10;
      for (int k = e; k < x.exponent(); ++k) b *= 10;
      PBT_CHECK(a == b, f.name << ".as(decimal " << m << "e" << e << ") is " << x.mantissa() << "e" << x.exponent());
      cur = V();
      cur.present = true;
      cur.i = x.mantissa();
      cur.exp = x.exponent();
    }
    }
  }
};

void c26(Src &s, Case &c) {
  GenOpt go;
  go.tref = s.chance(1, 3);
  go.wide_den = 0;
  go.keys = false;
  go.field_ids = s.coin();
  go.inline_refs = s.coin();
  SchemaGen g(s, go);
  Schema sc = g.gen();
  if (!go.inline_refs && s.coin()) // fields that share an id, and large ids
    for (auto &t : sc.t)
      for (auto &f : t.f)
        if (f.ty != TREF && s.coin()) f.id = s.chance(1, 8) ? 0xFFFFFFFFu : (uint32_t)s.below(6);
  if (!go.inline_refs && s.coin()) // large values of enumerations
    for (auto &t : sc.t)
      for (auto &f : t.f)
        if (f.ty == ENUM && !f.boolean && !f.op.has_init) f.elems.back().second = ~0ull - s.below(3);
  std::string xml = schema_xml(sc);
  c.mix(xml);
  if (c.want_log) c.note(xml);
  std::unique_ptr<br::Loaded> L;
  br::must_not_throw([&] { L.reset(new br::Loaded(sc, xml)); }, "loading the definition");
  int ti = (int)s.below(sc.t.size());
  const std::vector<Field> &fs = sc.t[ti].f;
  malloc_allocator alloc;
  message_type msg(&alloc, const_cast<template_instruction *>(L->b.ti[ti]));
  Msg mm;
  mm.tmpl = ti;
  mm.f = vals::random_values(s, sc, fs, (int)sc.t.size() + 3);
  L->b.fill(msg.ref(), fs, mm.f);
  auto state = [&] {
    Msg r;
    r.tmpl = ti;
    L->b.extract(msg.cref(), fs, r.f);
    return show(r, sc);
  };
  std::string before = state();
  if (c.want_log) c.note(before);
  c.mix(before);

  // the value tree, by visitors and iterators
  auto visited = [&] {
    Read r(sc, nullptr);
    Msg x;
    x.tmpl = ti;
    x.f = r.walk(msg.cref(), fs);
    return show(x, sc);
  };
  std::string seen = visited();
  PBT_CHECK(seen == before, "visitors read\n" << seen << "\ninstead of\n" << before);
  Look look{s, sc, c};
  look.all(msg.ref(), fs);
  PBT_CHECK(state() == before, "looking at the fields has changed the message: " << state() << "\ninstead of " << before);

  // values stored by visitors
  std::size_t written = 0;
  std::function<void(const aggregate_mref &, const std::vector<Field> &, std::vector<V> &)> put = [&](const aggregate_mref &m, const std::vector<Field> &f, std::vector<V> &v) {
    std::size_t k = 0;
    for (auto w : m) {
      std::size_t j = k++;
      const Field &x = f[j];
      if (composite(x.ty)) {
        if (!v[j].present) continue;
        if (x.ty == GROUP) put(aggregate_mref(group_mref(w)), x.sub, v[j].sub);
        else if (x.ty == SEQ) {
          std::size_t n = 0;
          for (auto e : sequence_mref(w)) put(e, x.sub, v[j].el[n++]);
        } else put(nested_message_mref(w).target(), sc.t[(std::size_t)v[j].tmpl].f, v[j].sub);
        continue;
      }
      if (x.op.k == CONST || (x.split && x.mop.k == CONST) || s.coin()) continue;
      V nv;
      for (int t = 0; t < 4 && !nv.present; ++t) nv = vals::random_value(s, sc, x, 0, 0);
      if (!nv.present) continue;
      Write wr(nv);
      if (s.coin()) w.accept_mutator(wr);
      else apply_mutator(wr, w);
      v[j] = nv;
      ++written;
    }
  };
  Msg now;
  now.tmpl = ti;
  L->b.extract(msg.cref(), fs, now.f);
  put(msg.ref(), fs, now.f);
  PBT_CHECK(state() == show(now, sc), "after storing values by visitors the message is\n" << state() << "\ninstead of\n" << show(now, sc));

  // conversions
  Conv conv{s, sc, c};
  if (!fs.empty())
    for (int n = 0; n < 12; ++n) {
      std::size_t k = (std::size_t)s.below(fs.size());
      if (fs[k].op.k == CONST || (fs[k].split && fs[k].mop.k == CONST)) continue;
      conv.one(msg.ref()[k], fs[k], now.f[k]);
      std::string got = state(), want = show(now, sc);
      PBT_CHECK(got == want, "after a conversion of " << fs[k].name << " the message is\n" << got << "\ninstead of\n" << want);
    }
  PBT_CHECK(visited() == show(now, sc), "in the end visitors read\n" << visited() << "\ninstead of\n" << show(now, sc));
  c.sub = look.fields;
  if (look.twice) c.label("several fields of the same id");
  if (look.missed) c.label("no field of that id or name");
  if (written) c.label("values stored by visitors");
  if (conv.stored) c.label("values converted");
  if (conv.refused) c.label("conversions refused");
  c.nontrivial = look.fields >= 4 && look.found && look.missed && written && conv.stored + conv.refused > 3;
}

PBT_PROPERTY("C26.fields",
             "a message of a generated template: every field at any depth looked up by id and name (existing, shared and missing ones), reached by iterators, visited with and without result, "
             "cast, printed, stored by visitors and converted from values of every type; compared with the fields addressed by their position. "
             "Non-trivial: at least 4 fields, lookups that find and that find nothing, values stored by visitors and several conversions.",
             c26, 20000, 300000)
} // namespace
