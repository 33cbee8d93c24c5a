// C21: decimal fields keep exact values - text, mantissa and exponent,
// normalisation, conversion and comparison against exact decimal arithmetic.
#include "codec_common.h"
#include "jsonlib.h"
#include <mfast/output.h>
#include <cmath>
#include <sstream>
using namespace cc;
using namespace mfast;

namespace {
typedef __int128 wide_t;
std::string canon(int64_t m, long e) { return js::canonical(std::to_string(m) + "e" + std::to_string(e)); }
std::string str128(wide_t v) {
  bool neg = v < 0;
  std::string r;
  do { int d = (int)(v % 10); r += (char)('0' + (d < 0 ? -d : d)); v /= 10; } while (v);
  if (neg) r += '-';
  return std::string(r.rbegin(), r.rend());
}
// a decimal number as text, in any legal form
std::string gen_text(Src &s, bool &huge) {
  std::string r;
  switch (s.below(4)) {
  case 0: r = "-"; break;
  case 1: r = s.chance(1, 4) ? "+" : ""; break;
  default: break;
  }
  huge = false;
  auto digits = [&](std::size_t n) {
    std::string d;
    for (std::size_t k = 0; k < n; ++k) d += (char)('0' + s.below(10));
    return d;
  };
  std::string ip;
  switch (s.weighted({4, 3, 2, 2, 2})) {
  case 0: ip = std::to_string(s.below(1000)); break;
  case 1: { // near the limits
    wide_t v = ((wide_t)1 << 63) + s.range(-3, 3);
    ip = str128(v);
    break;
  }
  case 2: ip = digits((std::size_t)s.range(1, 22)); break;
  case 3: ip = std::string((std::size_t)s.range(1, 30), '0') + digits((std::size_t)s.range(0, 10)); break;
  default: ip = digits((std::size_t)s.range(1, 5)) + std::string((std::size_t)s.range(1, 50), '0'); break;
  }
  std::string fp;
  if (s.coin()) {
    switch (s.weighted({3, 2, 2, 2})) {
    case 0: fp = digits((std::size_t)s.range(0, 8)); break;
    case 1: fp = std::string((std::size_t)s.range(1, 40), '0') + digits((std::size_t)s.range(0, 5)); break;
    case 2: fp = digits((std::size_t)s.range(0, 6)) + std::string((std::size_t)s.range(1, 30), '0'); break;
    default: fp = digits((std::size_t)s.range(0, 22)); break;
    }
    // move the point inside a number near the limits
    if (s.chance(1, 4) && ip.size() > 2) { std::size_t p = (std::size_t)s.range(1, (int64_t)ip.size() - 1); fp = ip.substr(p); ip = ip.substr(0, p); }
    r += ip + "." + fp;
  } else
    r += ip;
  if (s.chance(1, 3)) {
    int e = (int)(s.chance(1, 8) ? s.range(-40000, 40000) : s.range(-60, 60));
    r += (s.coin() ? "e" : "E") + std::string(e >= 0 && s.coin() ? "+" : "") + std::to_string(e);
  }
  return r;
}
// the number of a text: can it be held, and what is it
struct Num {
  bool ok;
  std::string canonical;
};
Num number_of(const std::string &t) {
  Num n;
  n.canonical = js::canonical(t);
  n.ok = true;
  if (n.canonical == "0") {
    // the exponent of a zero does not matter, within what is stored
    n.ok = true;
    return n;
  }
  std::size_t e = n.canonical.find('e');
  std::string d = n.canonical.substr(0, e);
  bool neg = d[0] == '-';
  std::string u = neg ? d.substr(1) : d;
  if (u.size() > 19) n.ok = false;
  else {
    wide_t v = 0;
    for (char c : u) v = v * 10 + (c - '0');
    if (neg) v = -v;
    n.ok = v >= std::numeric_limits<int64_t>::min() && v <= std::numeric_limits<int64_t>::max();
  }
  return n;
}
// the exponent part and the digits decide whether 16 bits are enough
bool small_exponent(const std::string &t) {
  std::size_t p = t.find_first_of("eE");
  long e = p == std::string::npos ? 0 : std::stol(t.substr(p + 1));
  return e >= -1000 && e <= 1000;
}

struct World {
  Src &s;
  Case &c;
  decimal_mref d;
  bool fixed; // constant exponent
  int fe;     // its value
  int64_t m = 0;
  long e = 0; // what the field must denote
  bool normal = false;
  std::string last;
  void known(int64_t mm, long ee, bool n) { m = mm; e = ee; normal = n; }
  std::string want() const { return canon(m, e); }
  void check(const std::string &what) {
    last = what;
    if (c.want_log) c.note(what + " -> " + std::to_string(d.mantissa()) + "e" + std::to_string(d.exponent()));
    PBT_CHECK(d.present(), "absent after " << what);
    PBT_CHECK(canon(d.mantissa(), d.exponent()) == want(),
              "after " << what << " the field is " << d.mantissa() << "e" << d.exponent() << " instead of " << want());
    if (fixed) {
      if (normal) PBT_CHECK(d.exponent() == fe, "after " << what << " the exponent is " << d.exponent() << " instead of the constant " << fe);
    } else if (normal) {
      PBT_CHECK(d.mantissa() == 0 ? d.exponent() == 0 : d.mantissa() % 10 != 0,
                "after " << what << " the field is not normalized: " << d.mantissa() << "e" << d.exponent());
    }
    decimal_cref r(d);
    // text
    std::string t = r.to_string();
    PBT_CHECK(js::canonical(t) == want(), "after " << what << " to_string() gives " << t << " instead of " << want());
    // floating point, for exponents far from the ends of its range (FAST has -63 to 63)
    if (d.exponent() >= -200 && d.exponent() <= 200) {
    long double ex = strtold((std::to_string(d.mantissa()) + "e" + std::to_string(d.exponent())).c_str(), nullptr);
    double x = (double)r;
    long double err = fabsl((long double)x - ex);
    PBT_CHECK(ex == 0 ? x == 0 : err <= 1e-15L * fabsl(ex), "after " << what << " the double is " << x << ", the number " << want());
    }
    // multiprecision
    PBT_CHECK(js::canonical(r.value().str(30, std::ios_base::scientific)) == want(), "after " << what << " value() is " << r.value().str(30, std::ios_base::scientific) << " instead of " << want());
  }
};

bool fits(wide_t v) { return v >= std::numeric_limits<int64_t>::min() && v <= std::numeric_limits<int64_t>::max(); }

void c21(Src &s, Case &c) {
  int fe = (int)s.range(-8, 8);
  std::string xml = "<?xml version=\"1.0\"?>\n<templates xmlns=\"http://www.fixprotocol.org/ns/fast/td/1.1\"><template name=\"T\" id=\"1\">"
                    "<decimal name=\"a\"/><decimal name=\"b\" presence=\"optional\"><copy/></decimal>"
                    "<decimal name=\"c\"><exponent><constant value=\"" + std::to_string(fe) + "\"/></exponent><mantissa><delta/></mantissa></decimal>"
                    "<decimal name=\"d\" presence=\"optional\"><exponent><copy/></exponent></decimal></template></templates>";
  dynamic_templates_description desc(xml.c_str());
  message_type msg(malloc_allocator::instance(), desc[0]);
  message_type other(malloc_allocator::instance(), desc[0]);
  int fi = (int)s.below(4);
  World w{s, c, decimal_mref(msg.ref()[(uint32_t)fi]), fi == 2, fe};
  decimal_mref d2(other.ref()[(uint32_t)fi]);
  if (c.want_log) c.note("field " + std::string(1, (char)('a' + fi)) + (fi == 2 ? " constant exponent " + std::to_string(fe) : ""));
  std::size_t n = (std::size_t)s.range(1, 8);
  unsigned ops = 0, odd = 0;
  auto repr = [&](const std::string &canonical, int64_t &m, long &e) { // exact in the form with the constant exponent?
    if (canonical == "0") { m = 0; e = w.fixed ? fe : 0; return true; }
    std::size_t p = canonical.find('e');
    m = std::stoll(canonical.substr(0, p));
    e = std::stol(canonical.substr(p + 1));
    if (!w.fixed) return true;
    if (e < fe) return false;
    wide_t v = m;
    for (long k = e; k > fe; --k) {
      v *= 10;
      if (!fits(v)) return false;
    }
    m = (int64_t)v;
    e = fe;
    return true;
  };
  for (std::size_t k = 0; k < n; ++k) {
    switch (s.weighted({5, 4, 2, 2, 2, 2, 2})) {
    case 0: { // from text
      bool huge;
      std::string t = gen_text(s, huge);
      Num num = number_of(t);
      c.mix(t);
      int64_t m;
      long e;
      bool thrown;
      std::string err;
      if (!small_exponent(t) && w.fixed) break; // rounding to a constant exponent is not specified
      if (!small_exponent(t)) { // out of what is stored: an exception or the number, nothing else
        thrown = br::throws([&] { d2.as(boost::string_ref(t)); }, &err);
        if (!thrown) PBT_CHECK(canon(d2.mantissa(), d2.exponent()) == num.canonical, t << " is read as " << d2.mantissa() << "e" << d2.exponent());
        c.label("huge exponent");
        break;
      }
      if (!num.ok) {
        thrown = br::throws([&] { d2.as(boost::string_ref(t)); }, &err);
        PBT_CHECK(thrown, t << " does not fit, but is read as " << d2.mantissa() << "e" << d2.exponent());
        c.label("text that does not fit");
        ++odd;
        break;
      }
      if (!repr(num.canonical, m, e)) break;
      br::must_not_throw([&] { w.d.as(boost::string_ref(t)); }, ("reading " + t).c_str());
      w.known(m, e, true);
      w.check("as(\"" + t + "\")");
      c.label("text");
      // streaming the storage
      std::istringstream is(t + "x");
      decimal_value_storage st;
      is >> st;
      PBT_CHECK(is.good() && is.get() == 'x', "reading " << t << " from a stream failed or did not stop behind it");
      PBT_CHECK(canon(st.mantissa(), st.exponent()) == num.canonical, t << " is read from a stream as " << st.mantissa() << "e" << st.exponent());
      ++odd;
      break;
    }
    case 1: { // mantissa and exponent
      int64_t m = gen_int(s, I64);
      int e = w.fixed ? fe : (int)s.range(-63, 63);
      if (s.coin()) w.d.as(m, (int16_t)e);
      else { w.d.set_mantissa(m); w.d.set_exponent(e); }
      w.known(m, e, w.fixed);
      w.check("as(" + std::to_string(m) + ", " + std::to_string(e) + ")");
      PBT_CHECK(w.d.mantissa() == m && w.d.exponent() == e, "mantissa and exponent are not the ones assigned");
      c.label("mantissa and exponent");
      c.mix((uint64_t)m + (uint64_t)e);
      break;
    }
    case 2: { // integers
      int64_t v = s.coin() ? gen_int(s, I64) : gen_int(s, I32) * (s.coin() ? 1000 : 1);
      int64_t m;
      long e;
      if (!repr(canon(v, 0), m, e)) break;
      if (v == (int32_t)v && s.coin()) w.d.as((int32_t)v);
      else if (v >= 0 && s.coin()) w.d.as((uint64_t)v);
      else w.d.as(v);
      w.known(m, e, true);
      w.check("as(" + std::to_string(v) + ")");
      c.label("integer");
      break;
    }
    case 3: { // a multiprecision number of at most 18 digits
      int64_t v = s.coin() ? gen_int(s, I64) % 1000000000000000000ll : s.range(-100000, 100000);
      int e0 = (int)s.range(-40, 40);
      int64_t m;
      long e;
      std::string t = std::to_string(v) + "e" + std::to_string(e0);
      if (!repr(js::canonical(t), m, e)) break;
      mfast::decimal x(t.c_str());
      w.d.as(x);
      w.known(m, e, true);
      w.check("as(decimal " + t + ")");
      c.label("multiprecision");
      ++odd;
      break;
    }
    case 4: { // double: not exact, but close; texts of few digits are
      if (w.fixed) break;
      double x;
      if (s.coin()) x = (double)gen_int(s, I64) * std::pow(10.0, (double)s.range(-30, 30));
      else x = (double)s.range(-100000000, 100000000) / 1024.0;
      w.d.as(x);
      long double got = strtold((std::to_string(w.d.mantissa()) + "e" + std::to_string(w.d.exponent())).c_str(), nullptr);
      PBT_CHECK(fabsl(got - (long double)x) <= 2e-16L * fabsl((long double)x), "as(double " << std::to_string(x) << ") gives " << w.d.mantissa() << "e" << w.d.exponent());
      w.known(w.d.mantissa(), w.d.exponent(), true);
      w.check("as(double)");
      c.label("double");
      break;
    }
    case 5: { // normalize whatever is there
      if (ops == 0) break;
      int64_t m;
      long e;
      if (!repr(w.want(), m, e)) break;
      w.d.normalize();
      w.known(m, e, true);
      w.check("normalize()");
      int64_t m1 = w.d.mantissa();
      int e1 = w.d.exponent();
      w.d.normalize();
      PBT_CHECK(w.d.mantissa() == m1 && w.d.exponent() == e1, "normalize() twice is not normalize() once");
      c.label("normalize");
      ++odd;
      break;
    }
    default: { // copy and compare with another one
      if (ops == 0 || w.d.exponent() > 63 || w.d.exponent() < -63) break; // as(cref) demands an exponent FAST allows
      d2.as(decimal_cref(w.d));
      PBT_CHECK(d2.mantissa() == w.d.mantissa() && d2.exponent() == w.d.exponent() && d2.present(), "a copy differs");
      PBT_CHECK(decimal_cref(d2) == decimal_cref(w.d) && !(decimal_cref(d2) != decimal_cref(w.d)), "a copy is not equal");
      int64_t m = w.d.mantissa(), v = s.coin() ? m : m + s.range(-1, 1) * (m > -5 && m < 5);
      int e = w.fixed ? fe : (int)(w.d.exponent() + s.range(-1, 1));
      if (e > 63 || e < -63) break;
      d2.as(v, (int16_t)e);
      bool eq = decimal_cref(d2) == decimal_cref(w.d);
      if (eq) PBT_CHECK(canon(v, e) == w.want(), "equal to a different number");
      else PBT_CHECK(v != m || e != w.d.exponent(), "not equal to the same mantissa and exponent");
      d2.normalize();
      decimal_mref d3(w.d);
      int64_t sm = w.d.mantissa();
      int16_t se = w.d.exponent();
      d3.normalize();
      PBT_CHECK((decimal_cref(d2) == decimal_cref(d3)) == (canon(v, e) == w.want()), "normalized decimals are equal exactly when the numbers are: " << v << "e" << e << " and " << w.want());
      w.d.as(sm, se);
      c.label("copy and compare");
      break;
    }
    }
    ++ops;
    if (w.last.empty()) ops = 0; // nothing assigned so far
  }
  c.sub = n;
  c.nontrivial = odd >= 1;
}

// initial values written in template definitions
void c21_initial(Src &s, Case &c) {
  bool huge;
  std::string t;
  do t = gen_text(s, huge);
  while (!small_exponent(t));
  Num num = number_of(t);
  c.mix(t);
  unsigned kind = (unsigned)s.below(3);
  static const char *ops[] = {"default", "constant", "copy"};
  std::string xml = "<?xml version=\"1.0\"?>\n<templates xmlns=\"http://www.fixprotocol.org/ns/fast/td/1.1\"><template name=\"T\" id=\"1\">"
                    "<decimal name=\"a\"><" + std::string(ops[kind]) + " value=\"" + t + "\"/></decimal></template></templates>";
  if (c.want_log) c.note(xml);
  long ex = num.canonical == "0" ? 0 : std::stol(num.canonical.substr(num.canonical.find('e') + 1));
  std::unique_ptr<dynamic_templates_description> desc;
  std::string err;
  bool thrown = br::throws([&] { desc.reset(new dynamic_templates_description(xml.c_str())); }, &err);
  if (!num.ok) {
    PBT_CHECK(thrown, "the initial value " << t << " does not fit but is accepted");
    c.label("does not fit");
  } else if (ex < -63 || ex > 63) {
    c.label("exponent outside -63 to 63"); // FAST allows no such exponent
    if (thrown) return;
  } else
    PBT_CHECK(!thrown, "the initial value " << t << " is refused: " << err);
  if (thrown) { c.nontrivial = true; return; }
  decimal_cref v(&static_cast<const decimal_field_instruction *>((*desc)[0]->subinstruction(0))->initial_value(), (*desc)[0]->subinstruction(0));
  if (c.want_log) c.note("initial value " + std::to_string(v.mantissa()) + "e" + std::to_string(v.exponent()));
  PBT_CHECK(canon(v.mantissa(), v.exponent()) == num.canonical, "the initial value " << t << " is " << v.mantissa() << "e" << v.exponent());
  message_type m(malloc_allocator::instance(), (*desc)[0]);
  decimal_mref d(m.ref()[0]);
  PBT_CHECK(d.mantissa() == v.mantissa() && d.exponent() == v.exponent(), "a new message does not have the initial value");
  if (kind != 1) {
    d.as(17, 3);
    d.to_initial_value();
    PBT_CHECK(d.mantissa() == v.mantissa() && d.exponent() == v.exponent() && d.present(), "to_initial_value() gives something else");
    PBT_CHECK(decimal_cref(d).is_initial_value(), "is_initial_value() is false");
  }
  c.nontrivial = true;
}

PBT_PROPERTY("C21.decimals",
             "histories of 1-8 operations on a decimal field (mandatory, optional, with a constant or a copied exponent): texts in every form and at the limits, "
             "mantissa and exponent, integers, multiprecision numbers, doubles, normalize, copy and compare; after each the number, its text, double and multiprecision "
             "values are compared with exact arithmetic. Non-trivial: text, multiprecision or normalize took part.",
             c21, 60000, 900000)
PBT_PROPERTY("C21.initial", "initial values of decimals in template definitions, in every form and at the limits. Non-trivial: all.", c21_initial, 20000, 200000)
} // namespace
