// C18: what the accessor code written by docgen uses.
#pragma once
#include <mfast.h>
#include <functional>
#include <sstream>
#include <string>
#include <vector>
#include "pbt.h"
struct Acc {
  pbt::Src &s;
  std::string at;
  unsigned long checks = 0;
  explicit Acc(pbt::Src &src) : s(src) {}
  void fail(const char *field, const std::string &what) { throw pbt::Failure(at + ", field " + field + ": " + what); }
  void chk(bool ok, const char *field, const char *what) { ++checks; if (!ok) fail(field, what); }

  typedef std::function<bool(const mfast::field_cref &)> Is;
  template <typename T> T num() {
    switch (s.below(4)) {
    case 0: return (T)s.range(-2, 2);
    case 1: return std::numeric_limits<T>::max();
    case 2: return std::numeric_limits<T>::min();
    default: return (T)(s.raw64() >> s.below(64));
    }
  }
  template <typename T> Is put(const mfast::int_mref<T> &m) {
    T v = num<T>();
    m.as(v);
    return [v](const mfast::field_cref &f) { return f.present() && mfast::int_cref<T>(f).value() == v; };
  }
  Is put(const mfast::decimal_mref &m) {
    int64_t v = num<int64_t>();
    int8_t e = (int8_t)s.range(-63, 63);
    // (a part with a constant operator cannot be set)
    auto d = m.instruction();
    if (d && d->mantissa_instruction()) {
      if (d->field_operator() == mfast::operator_constant) e = d->initial_value().of_decimal.exponent_;
      if (d->mantissa_instruction()->field_operator() == mfast::operator_constant) v = d->mantissa_instruction()->initial_value().get<int64_t>();
    }
    m.as(v, e);
    return [v, e](const mfast::field_cref &f) { return f.present() && mfast::decimal_cref(f).mantissa() == v && mfast::decimal_cref(f).exponent() == e; };
  }
  std::string bytes() {
    std::string r;
    for (std::size_t n = (std::size_t)s.below(20); n; --n) r += (char)s.range(1, 126);
    return r;
  }
  template <typename T> Is put(const mfast::string_mref<T> &m) {
    std::string v = bytes();
    m.as(v);
    return [v](const mfast::field_cref &f) { mfast::ascii_string_cref a(f); return f.present() && std::string(a.data(), a.size()) == v; };
  }
  Is put(const mfast::byte_vector_mref &m) {
    std::string v = bytes();
    m.assign((const unsigned char *)v.data(), (const unsigned char *)v.data() + v.size());
    return [v](const mfast::field_cref &f) { mfast::byte_vector_cref a(f); return f.present() && std::string((const char *)a.data(), a.size()) == v; };
  }
  template <typename T> Is put(const mfast::int_vector_mref<T> &m) {
    std::vector<T> v;
    for (std::size_t n = (std::size_t)s.below(6); n; --n) v.push_back(num<T>());
    m.resize(v.size());
    for (std::size_t k = 0; k < v.size(); ++k) m[k] = v[k];
    return [v](const mfast::field_cref &f) {
      mfast::int_vector_cref<T> a(f);
      return f.present() && a.size() == v.size() && std::equal(v.begin(), v.end(), a.begin());
    };
  }
  static const mfast::value_storage *at_(const mfast::field_cref &f) { return mfast::field_cref_core_access::storage_of(f); }
  static const mfast::value_storage *at_(const mfast::field_mref_base &f) { return mfast::field_mref_core_access::storage_of(f); }
  template <typename C> void get(const char *n, const mfast::field_cref &g, const C &c) {
    chk(at_(c) == at_(g), n, "get_ refers to another field");
    chk(static_cast<const mfast::field_instruction *>(c.instruction()) == g.instruction(), n, "get_ has the instruction of another field");
  }
  template <typename F> bool absent(F f) {
    try {
      f();
    } catch (mfast::bad_optional_access &) {
      return true;
    }
    return false;
  }
  template <typename G, typename S, typename T>
  void leaf(const char *n, const mfast::field_cref &g, G gf, S sf, T tf) {
    get(n, g, gf());
    auto m = sf();
    chk(at_(m) == at_(g), n, "set_ refers to another field");
    chk(static_cast<const mfast::field_instruction *>(m.instruction()) == g.instruction(), n, "set_ has the instruction of another field");
    Is is = put(m);
    chk(is(g), n, "the value set is not that of the field");
    chk(is(gf()), n, "get_ gives another value than was set");
    chk(!absent(tf), n, "try_get_ of a field that is present");
    chk(is(tf()), n, "try_get_ gives another value than was set");
  }
  template <typename G, typename T> void constant(const char *n, const mfast::field_cref &g, G gf, T tf) {
    get(n, g, gf());
    if (g.present()) { chk(!absent(tf), n, "try_get_ of a constant that is present"); get(n, g, tf()); }
    else chk(absent(tf), n, "try_get_ of a constant that is absent");
  }
  template <typename O, typename T> void omit(const char *n, const mfast::field_cref &g, bool now, O of, T tf) {
    bool keep = g.present() && s.coin();
    if (keep && !now) return;
    of();
    chk(g.absent(), n, "omit_ leaves the field present");
    chk(absent(tf), n, "try_get_ of an absent field does not throw");
  }
};
// copies of groups (a type with the name of a message cannot be copied)
template <typename T> typename std::enable_if<std::is_base_of<mfast::message_type, T>::value>::type g18_copies(Acc &, T &, const mfast::aggregate_cref &) {}
template <typename T> typename std::enable_if<!std::is_base_of<mfast::message_type, T>::value>::type g18_copies(Acc &a, T &x, const mfast::aggregate_cref &g) {
  T y(x);
  a.chk(mfast::aggregate_cref(y.cref()) == g, "-", "a copy is not equal");
  T z(std::move(y));
  a.chk(mfast::aggregate_cref(z.cref()) == g, "-", "a moved group is not equal");
  T w;
  w = z;
  a.chk(mfast::aggregate_cref(w.cref()) == g, "-", "an assigned group is not equal");
  T v(x.cref());
  a.chk(mfast::aggregate_cref(v.cref()) == g, "-", "a copy of a reference is not equal");
}
typedef void (*AccFn)(Acc &);
struct G18Entry {
  unsigned set, doc;
  const mfast::templates_description *desc;
  std::vector<AccFn> templates, types;
};
void g18_add(const G18Entry &e);
