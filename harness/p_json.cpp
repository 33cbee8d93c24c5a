// C19: JSON output against an independent parser and back.
// C20: JSON input in every legal rendering, and texts that are not legal.
#include "codec_common.h"
#include "jsonlib.h"
#include "values.h"
#include <mfast/json/json.h>
#include <mfast/sequence_ref.h>
#include <iomanip>
#include <sstream>
using namespace cc;
using namespace vals;
using namespace mfast;

namespace {
const uint64_t RAW = 4, IGNORE = 8; // tags of fields: raw JSON object, left out

// ------------------------------------------------------------------ schemas
void decorate(Src &s, std::vector<Field> &fs, bool names) {
  static const std::vector<std::string> odd = {"a b", "q\"q", "back\\slash", "\xc3\xa9t\xc3\xa9", "x/y", "\xf0\x9f\x98\x80", "{", "tab\tname", "0"};
  for (auto &f : fs) {
    if (names && s.chance(1, 10)) f.name += s.pick(odd);
    if (f.ty == BYTES && f.op.k != CONST && s.chance(1, 4)) f.tag |= RAW;
    if (f.ty != TREF && s.chance(1, 10)) f.tag |= IGNORE;
    decorate(s, f.sub, names);
    if (f.ty == SEQ && f.sub.size() == 1 && f.sub[0].ty != TREF && f.sub[0].ty != GROUP && f.sub[0].ty != SEQ && s.coin()) {
      f.sub[0].name = "";
      f.sub[0].opt = false;
      f.sub[0].op = Op();
      f.sub[0].mop = Op();
      f.sub[0].split = false;
    }
  }
}
Schema gen_schema(Src &s, bool tref) {
  GenOpt go;
  go.max_templates = tref ? 3 : 1;
  go.max_fields = 6;
  go.wide_den = 0;
  go.tref = tref;
  go.bools = true;
  go.keys = false;
  SchemaGen g(s, go);
  Schema sc = g.gen();
  for (auto &t : sc.t) decorate(s, t.f, true);
  return sc;
}

// ------------------------------------------------------------- random JSON
std::string esc(Src &s, const std::string &v, bool plain);
std::string ws(Src &s) {
  static const char *w[] = {"", "", "", " ", "\n", "\t ", " \r\n  "};
  return w[s.below(7)];
}
std::string gen_text(Src &s) {
  std::string r;
  std::size_t n = (std::size_t)s.below(8);
  for (std::size_t k = 0; k < n; ++k)
    if (s.chance(1, 3)) r += s.pick(std::vector<std::string>{"{", "}", "[", "]", "\"", "\\", ",", ":", "\n", "\x01"});
    else utf8(r, gen_cp(s));
  return r;
}
std::string gen_number(Src &s) {
  switch (s.below(5)) {
  case 0: return std::to_string(gen_int(s, I64));
  case 1: return std::to_string((uint64_t)gen_int(s, U64)) + "." + std::to_string(s.below(100000));
  case 2: return (s.coin() ? "-" : "") + std::to_string(s.below(10)) + (s.coin() ? "e" : "E") + (s.coin() ? "+" : s.coin() ? "-" : "") + std::to_string(s.below(500));
  case 3: return "1" + std::string((std::size_t)s.below(60), '0');
  default: return std::to_string(s.below(10));
  }
}
std::string gen_value(Src &s, int depth) {
  switch (s.weighted({3, 3, 1, 1, 1, depth > 0 ? 2u : 0u, depth > 0 ? 2u : 0u})) {
  case 0: return gen_number(s);
  case 1: return "\"" + esc(s, gen_text(s), false) + "\"";
  case 2: return "true";
  case 3: return "false";
  case 4: return "null";
  case 5: {
    std::string r = "[" + ws(s);
    std::size_t n = (std::size_t)s.below(4);
    for (std::size_t k = 0; k < n; ++k) r += (k ? "," + ws(s) : "") + gen_value(s, depth - 1) + ws(s);
    return r + "]";
  }
  default: {
    std::string r = "{" + ws(s);
    std::size_t n = (std::size_t)s.below(4);
    for (std::size_t k = 0; k < n; ++k)
      r += (k ? "," + ws(s) : "") + "\"" + esc(s, gen_text(s), false) + "\"" + ws(s) + ":" + ws(s) + gen_value(s, depth - 1) + ws(s);
    return r + "}";
  }
  }
}
std::string gen_object(Src &s) {
  std::string r = "{" + ws(s);
  std::size_t n = (std::size_t)s.below(4);
  for (std::size_t k = 0; k < n; ++k)
    r += (k ? "," + ws(s) : "") + "\"" + esc(s, gen_text(s), false) + "\"" + ws(s) + ":" + ws(s) + gen_value(s, 2) + ws(s);
  return r + "}";
}
// UTF-8 text as the inside of a JSON string
std::string esc(Src &s, const std::string &v, bool plain) {
  std::string r;
  char b[16];
  for (std::size_t p = 0; p < v.size();) {
    unsigned char c = (unsigned char)v[p];
    std::size_t n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
    uint32_t cp = c;
    if (n > 1) {
      cp = c & (0xffu >> (n + 1));
      for (std::size_t k = 1; k < n && p + k < v.size(); ++k) cp = cp << 6 | ((unsigned char)v[p + k] & 63);
    }
    static const char *two = "\"\\/\b\f\n\r\t", *let = "\"\\/bfnrt";
    const char *q = cp && cp < 0x80 ? strchr(two, (int)cp) : nullptr;
    bool must = cp < 0x20 || cp == '"' || cp == '\\';
    if (q && (plain ? must : must ? s.chance(2, 3) : s.coin())) { r += '\\'; r += let[q - two]; }
    else if (must || (!plain && s.chance(1, 8))) {
      bool up = !plain && s.coin();
      auto u4 = [&](uint32_t x) { snprintf(b, sizeof b, up ? "\\u%04X" : "\\u%04x", x); r += b; };
      if (cp >= 0x10000) { u4(0xD800 + ((cp - 0x10000) >> 10)); u4(0xDC00 + ((cp - 0x10000) & 0x3ff)); }
      else u4(cp);
    } else
      r.append(v, p, n);
    p += n;
  }
  return r;
}

// --------------------------------------------------------------- the values
void adjust(Src &s, const Schema &sc, const std::vector<Field> &fs, std::vector<V> &vs) {
  for (std::size_t k = 0; k < fs.size(); ++k) {
    const Field &f = fs[k];
    V &v = vs[k];
    if (!v.present) continue;
    bool cst = f.op.k == CONST && !f.split;
    if ((f.ty == ASCII || f.ty == UNI) && !cst) {
      if (s.chance(1, 6)) v.s.insert(f.ty == UNI ? 0 : (std::size_t)s.below(v.s.size() + 1), 1, '\0');
      if (s.chance(1, 6)) v.s += s.pick(std::vector<std::string>{"\"", "\\", "/", "\x1f", "\b", "\x7f", "\n"});
    }
    if (f.ty == BYTES && (f.tag & RAW)) v.s = gen_object(s);
    else if (f.ty == BYTES && !cst && s.chance(1, 5)) v.s = gen_str(s, BYTES, 16);
    if (f.ty == GROUP) adjust(s, sc, f.sub, v.sub);
    if (f.ty == TREF) adjust(s, sc, sc.t[v.tmpl].f, v.sub);
    for (auto &e : v.el) adjust(s, sc, f.sub, e);
  }
}
std::string hexs(const std::string &b) {
  std::string r;
  char t[3];
  for (unsigned char c : b) { snprintf(t, sizeof t, "%02x", c); r += t; }
  return r;
}
std::string dec_canonical(const V &v) { return js::canonical(std::to_string(v.i) + "e" + std::to_string(v.exp)); }

// ------------------------------------------- JSON tree against the message
struct Compare {
  const Schema &sc;
  uint64_t mask, ignore;
  std::string err;
  uint64_t leaves = 0;
  bool fail(const std::string &path, const std::string &m) {
    if (err.empty()) err = path + ": " + m;
    return false;
  }
  bool number(const js::Value &j, const std::string &want, const std::string &path) {
    if (j.k != js::Value::NUMBER) return fail(path, "is not a number");
    ++leaves;
    if (j.s != want) return fail(path, "is " + j.s + ", the field is " + want);
    return true;
  }
  bool value(const js::Value &j, const Field &f, const V &v, const std::string &path) {
    switch (f.ty) {
    case I32: case I64: return number(j, std::to_string(v.i), path);
    case U32: case U64: return number(j, std::to_string((uint64_t)v.i), path);
    case ENUM:
      if (!f.boolean) return number(j, std::to_string((uint64_t)v.i), path);
      ++leaves;
      if (j.k != js::Value::BOOL || j.b != (v.i != 0)) return fail(path, "is not the boolean of the field");
      return true;
    case DEC:
      ++leaves;
      if (j.k != js::Value::NUMBER) return fail(path, "is not a number");
      if (js::canonical(j.s) != dec_canonical(v)) return fail(path, "is " + j.s + ", the field is " + std::to_string(v.i) + "e" + std::to_string(v.exp));
      return true;
    case ASCII: case UNI:
      ++leaves;
      if (j.k != js::Value::STRING) return fail(path, "is not a string");
      if (j.s != v.s) return fail(path, "is " + quoted(j.s) + ", the field is " + quoted(v.s));
      return true;
    case BYTES: {
      ++leaves;
      if (f.tag & mask) return true; // (checked through the text itself by the round trip)
      if (j.k != js::Value::STRING) return fail(path, "is not a string");
      std::string h;
      for (char c : j.s)
        if (c != '-') h += (char)tolower(c);
      if (h != hexs(v.s)) return fail(path, "is " + j.s + ", the field is " + hexs(v.s));
      return true;
    }
    case I32V: case U32V: case I64V: case U64V: {
      if (j.k != js::Value::ARRAY || j.a.size() != v.iv.size()) return fail(path, "is not an array of " + std::to_string(v.iv.size()));
      for (std::size_t k = 0; k < v.iv.size(); ++k)
        if (!number(j.a[k], f.ty == U64V || f.ty == U32V ? std::to_string((uint64_t)v.iv[k]) : std::to_string(v.iv[k]), path + "[" + std::to_string(k) + "]")) return false;
      return true;
    }
    case GROUP: return agg(j, f.sub, v.sub, path);
    case TREF: return agg(j, sc.t[v.tmpl].f, v.sub, path);
    case SEQ: {
      if (j.k != js::Value::ARRAY || j.a.size() != v.el.size()) return fail(path, "is not an array of " + std::to_string(v.el.size()));
      for (std::size_t k = 0; k < v.el.size(); ++k) {
        std::string p = path + "[" + std::to_string(k) + "]";
        bool unnamed = f.sub.size() == 1 && f.sub[0].name.empty();
        if (unnamed ? !value(j.a[k], f.sub[0], v.el[k][0], p) : !agg(j.a[k], f.sub, v.el[k], p)) return false;
      }
      return true;
    }
    }
    return true;
  }
  bool agg(const js::Value &j, const std::vector<Field> &fs, const std::vector<V> &vs, const std::string &path) {
    if (fs.size() == 1 && fs[0].ty == TREF && vs[0].present)
      return agg(j, sc.t[vs[0].tmpl].f, vs[0].sub, path + "()");
    if (j.k != js::Value::OBJECT) return fail(path, "is not an object");
    std::size_t n = 0;
    for (std::size_t k = 0; k < fs.size(); ++k) {
      if (!vs[k].present || (fs[k].tag & ignore)) continue;
      std::string p = path + "." + fs[k].name;
      if (n >= j.o.size()) return fail(p, "is missing");
      if (fs[k].ty != TREF && j.o[n].first != fs[k].name) return fail(p, "expected here, found " + quoted(j.o[n].first));
      if (!value(j.o[n].second, fs[k], vs[k], p)) return false;
      ++n;
    }
    if (n != j.o.size()) return fail(path, "has the member " + quoted(j.o[n].first) + ", which is not a present field");
    return true;
  }
};

// decimals denote numbers: compare them by value, everything else exactly
bool same(const Schema &sc, const std::vector<Field> &fs, const std::vector<V> &a, const std::vector<V> &b, std::string &why);
bool same(const Schema &sc, const Field &f, const V &a, const V &b, std::string &why) {
  if (a.present != b.present) { why = f.name + (a.present ? " should be present" : " should be absent"); return false; }
  if (!a.present) return true;
  bool ok = true;
  switch (f.ty) {
  case DEC: ok = dec_canonical(a) == dec_canonical(b); break;
  case GROUP: return same(sc, f.sub, a.sub, b.sub, why);
  case SEQ:
    ok = a.el.size() == b.el.size();
    for (std::size_t k = 0; ok && k < a.el.size(); ++k)
      if (!same(sc, f.sub, a.el[k], b.el[k], why)) return false;
    break;
  default: ok = a == b;
  }
  if (!ok) why = f.name + " is " + show(f, b, sc) + " instead of " + show(f, a, sc);
  return ok;
}
bool same(const Schema &sc, const std::vector<Field> &fs, const std::vector<V> &a, const std::vector<V> &b, std::string &why) {
  for (std::size_t k = 0; k < fs.size(); ++k)
    if (!same(sc, fs[k], a[k], b[k], why)) return false;
  return true;
}
std::string schema_text(const Schema &sc) {
  std::string x = schema_xml(sc);
  std::size_t p = x.find("<templates ");
  return x.substr(0, p) + "<templates xmlns:mfast=\"http://www.ociweb.com/ns/mfast\" " + x.substr(p + 11);
}
void stats(Case &c, const std::vector<Field> &fs, const std::vector<V> &vs, unsigned &n) {
  for (std::size_t k = 0; k < fs.size(); ++k) {
    if (!vs[k].present) { c.label("absent field"); continue; }
    ++n;
    switch (fs[k].ty) {
    case ASCII: case UNI:
      if (vs[k].s.find('\0') != std::string::npos) c.label("string with NUL");
      for (unsigned char ch : vs[k].s)
        if (ch < 0x20 || ch == '"' || ch == '\\') { c.label("string to escape"); break; }
      break;
    case BYTES: c.label(fs[k].tag & RAW ? "raw JSON object" : vs[k].s.size() == 16 ? "UUID" : "byte vector"); break;
    case DEC: c.label("decimal"); break;
    case GROUP: c.label("group"); stats(c, fs[k].sub, vs[k].sub, n); break;
    case SEQ: for (auto &e : vs[k].el) { c.label("element"); stats(c, fs[k].sub, e, n); } break;
    case TREF: c.label("nested message"); break;
    case ENUM: c.label(fs[k].boolean ? "boolean" : "enum"); break;
    default: if (is_ivec(fs[k].ty)) c.label("integer vector");
    }
  }
}

// -------------------------------------------------------------------- C19
void c19(Src &s, Case &c) {
  bool tref = s.chance(1, 4);
  Schema sc = gen_schema(s, tref);
  std::string xml = schema_text(sc);
  c.mix(xml);
  if (c.want_log) c.note(xml);
  br::Loaded L(sc, xml);
  unsigned n = 0;
  std::size_t rounds = (std::size_t)s.range(1, 3);
  for (std::size_t r = 0; r < rounds; ++r) {
    int t = (int)(sc.t.size() - 1 - s.below(sc.t.size()));
    const std::vector<Field> &fs = sc.t[t].f;
    std::vector<V> vs = random_values(s, sc, fs, t ? t + 1 : 2);
    adjust(s, sc, fs, vs);
    c.mix(show(fs, vs, sc));
    if (c.want_log) c.note("message " + show(fs, vs, sc));
    stats(c, fs, vs, n);
    message_type m(malloc_allocator::instance(), L.b.ti[t]);
    L.b.fill(m.ref(), fs, vs);
    uint64_t mask = s.chance(3, 4) ? RAW : 0;
    std::ostringstream o;
    // a reused stream that shows some other state must not matter for later output
    if (s.chance(1, 4)) o << std::setfill('*');
    bool ok = false;
    br::must_not_throw([&] { ok = json::encode(o, m.cref(), (unsigned)mask); }, "encode");
    PBT_CHECK(ok, "encode returned false");
    std::string text = o.str();
    if (c.want_log) c.note("JSON " + text);
    js::Value j;
    try {
      j = js::parse(text);
    } catch (const js::Bad &b) {
      PBT_FAIL("the output is not JSON (" << b.what() << "): " << text);
    }
    Compare cmp{sc, mask, 0};
    PBT_CHECK(cmp.agg(j, fs, vs, sc.t[t].name), "wrong output: " << cmp.err << "\n" << text);
    if (s.chance(1, 3)) {
      std::ostringstream o2;
      br::must_not_throw([&] { ok = json::encode(o2, m.cref(), (unsigned)mask, (unsigned)IGNORE); }, "encode with ignored tags");
      PBT_CHECK(ok, "encode returned false");
      try {
        j = js::parse(o2.str());
      } catch (const js::Bad &b) {
        PBT_FAIL("the output with ignored tags is not JSON (" << b.what() << "): " << o2.str());
      }
      Compare cmp2{sc, mask, IGNORE};
      PBT_CHECK(cmp2.agg(j, fs, vs, sc.t[t].name), "wrong output with ignored tags: " << cmp2.err << "\n" << o2.str());
    }
    if (tref) continue; // (decoding nested messages is documented as unsupported)
    std::string why;
    {
      message_type m2(malloc_allocator::instance(), L.b.ti[t]);
      std::istringstream in(text);
      br::must_not_throw([&] { json::decode(in, m2.ref(), (unsigned)mask); }, "decoding the output");
      std::vector<V> got;
      L.b.extract(m2.cref(), fs, got);
      PBT_CHECK(same(sc, fs, vs, got, why), "after the round trip " << why << "\n" << text);
    }
    // every sequence on its own
    for (std::size_t k = 0; k < fs.size(); ++k) {
      if (fs[k].ty != SEQ || !vs[k].present || !s.coin()) continue;
      std::ostringstream os;
      br::must_not_throw([&] { ok = json::encode(os, sequence_cref(m.cref()[(uint32_t)k]), (unsigned)mask); }, "encoding a sequence");
      PBT_CHECK(ok, "encode returned false");
      try {
        j = js::parse(os.str());
      } catch (const js::Bad &b) {
        PBT_FAIL("the output of a sequence is not JSON (" << b.what() << "): " << os.str());
      }
      Compare cmp3{sc, mask, 0};
      PBT_CHECK(cmp3.value(j, fs[k], vs[k], fs[k].name), "wrong output of a sequence: " << cmp3.err << "\n" << os.str());
      message_type m2(malloc_allocator::instance(), L.b.ti[t]);
      std::istringstream in(os.str());
      br::must_not_throw([&] { json::decode(in, sequence_mref(m2.ref()[(uint32_t)k]), (unsigned)mask); }, "decoding a sequence");
      std::vector<V> got;
      L.b.extract(m2.cref(), fs, got);
      PBT_CHECK(same(sc, fs[k], vs[k], got[k], why), "after the round trip of a sequence " << why << "\n" << os.str());
      c.label("sequence on its own");
    }
    ++c.sub;
  }
  c.nontrivial = n >= 4;
}

// -------------------------------------------------------------------- C20
struct Render {
  Src &s;
  const Schema &sc;
  uint64_t mask;
  bool all; // mention every mandatory field
  uint64_t unknown = 0, skipped = 0, nulls = 0;
  // when a spot is reached at which something is to go wrong
  bool spoil = false, spoiled = false;
  std::string what;
  std::string str(const std::string &v) { return "\"" + esc(s, v, s.coin()) + "\""; }
  std::string dec(V v, const Field &f) {
    if (v.i == 0 && v.exp > 0 && !(f.split && f.op.k == CONST)) v.exp = 0;
    if (f.split && f.op.k == CONST) return s.coin() ? std::to_string(v.i) + "e" + std::to_string(v.exp) : v.exp <= 0 ? dec_text(v.i, v.exp) : std::to_string(v.i) + "E+" + std::to_string(v.exp);
    switch (s.below(4)) {
    case 0: return dec_text(v.i, v.exp);
    case 1: return std::to_string(v.i) + (s.coin() ? "e" : "E") + (v.exp >= 0 && s.coin() ? "+" : "") + std::to_string(v.exp);
    case 2: { // a fraction and an exponent
      int sh = (int)s.range(1, 6);
      return dec_text(v.i, -sh) + "e" + std::to_string(v.exp + sh);
    }
    default: { // trailing zeros
      std::string t = dec_text(v.i, v.exp);
      return v.exp < 0 ? t + std::string((std::size_t)s.below(4), '0') : t + "." + std::string((std::size_t)s.range(1, 4), '0');
    }
    }
  }
  std::string bytes(const V &v) {
    std::string r = "\"";
    for (unsigned char ch : v.s) {
      char b[3];
      snprintf(b, sizeof b, s.coin() ? "%02x" : "%02X", ch);
      r += b;
      if (s.chance(1, 10)) r += s.coin() ? " " : "-";
    }
    return r + "\"";
  }
  // a value which the field cannot hold
  std::string wrong(const Field &f) {
    std::vector<std::string> w;
    auto add = [&](std::initializer_list<const char *> l) { for (auto x : l) w.push_back(x); };
    switch (f.ty) {
    case I32: add({"2147483648", "-2147483649", "9223372036854775808"}); break;
    case U32: add({"4294967296", "-1", "-4294967295"}); break;
    case I64: add({"9223372036854775808", "-9223372036854775809"}); break;
    case U64: add({"18446744073709551616", "-1", "-18446744073709551615"}); break;
    case ENUM: if (!f.boolean) add({"18446744073709551616", "-1"}); break;
    default: break;
    }
    if (is_int(f.ty) && !f.boolean) add({"1.5", "\"1\"", "true", "false", "{}", "[]", "[1]", "nul", "-", "x"});
    if (f.boolean) add({"2", "tru", "\"true\"", "falsy", "{}", "[true]", "True", "-1"});
    if (f.ty == DEC) add({"\"1\"", "true", "{}", "[]", "12345678901234567890123", "0.12345678901234567890123", "1e99999999", "1e", "-", ".5", "1e-99999"});
    if (f.ty == ASCII || f.ty == UNI) add({"1", "true", "{}", "[\"a\"]", "a", "'a'", "\"a\\x\"", "\"\\u12\"", "\"\\u00g0\"", "\"\\U0041\""});
    if (f.ty == BYTES && (f.tag & mask)) add({"1", "\"{}\"", "[]", "true", "\"7b7d\""});
    else if (f.ty == BYTES) add({"1", "{}", "[]", "true", "\"1\"", "\"12 3\"", "\"0g\"", "\"0x12\"", "\"z\""});
    if (is_ivec(f.ty)) {
      add({"1", "{}", "\"1\"", "[1,]", "[,1]", "[1 2]", "[1", "[true]", "[\"1\"]", "[1.5]", "[[1]]", "[null]"});
      if (f.ty == I32V) add({"[2147483648]", "[1,-2147483649]"});
      if (f.ty == U32V) add({"[4294967296]", "[3,-1]"});
      if (f.ty == I64V) add({"[9223372036854775808]"});
      if (f.ty == U64V) add({"[18446744073709551616]", "[-1]"});
    }
    if (f.ty == GROUP) add({"[]", "1", "\"{}\"", "true", "{,}", "{\"a\"}", "{a:1}", "{'a':1}", "{\"a\" 1}", "{\"a\":}", "{\"a\":1,}", "{\"a\":1 \"b\":2}"});
    if (f.ty == SEQ) add({"{}", "1", "\"[]\"", "true", "[1 2]", "[,]", "[\"a\":1]"});
    std::string t = s.pick(w);
    what = f.name + ": " + t;
    spoiled = true;
    return t;
  }
  std::string value(const Field &f, const V &v) {
    if (spoil && !spoiled && !is_agg(f.ty) && s.chance(1, 3)) return wrong(f);
    if (spoil && !spoiled && is_agg(f.ty) && s.chance(1, 6)) return wrong(f);
    switch (f.ty) {
    case I32: case I64: return std::to_string(v.i);
    case U32: case U64: return std::to_string((uint64_t)v.i);
    case ENUM: return f.boolean ? (v.i ? "true" : "false") : std::to_string((uint64_t)v.i);
    case DEC: return dec(v, f);
    case ASCII: case UNI: return str(v.s);
    case BYTES: return f.tag & mask ? v.s : bytes(v);
    case I32V: case U32V: case I64V: case U64V: {
      std::string r = "[" + ws(s);
      for (std::size_t k = 0; k < v.iv.size(); ++k) {
        if (k) r += "," + ws(s);
        r += (f.ty == U64V || f.ty == U32V ? std::to_string((uint64_t)v.iv[k]) : std::to_string(v.iv[k])) + ws(s);
      }
      return r + "]";
    }
    case SEQ: {
      std::string r = "[" + ws(s);
      for (std::size_t k = 0; k < v.el.size(); ++k) {
        if (k) r += "," + ws(s);
        std::vector<V> e = v.el[k];
        r += (f.sub.size() == 1 && f.sub[0].name.empty() ? value(f.sub[0], e[0]) : object(f.sub, e)) + ws(s);
        (const_cast<V &>(v)).el[k] = e;
      }
      return r + "]";
    }
    case GROUP: return object(f.sub, const_cast<V &>(v).sub);
    default: return "null";
    }
  }
  static bool is_agg(Ty t) { return t == GROUP || t == SEQ; }
  // the members in some order; mandatory fields that are not mentioned get
  // their initial value in vs
  std::string object(const std::vector<Field> &fs, std::vector<V> &vs) {
    std::vector<std::string> mem;
    auto key = [&](const std::string &k) { return str(k) + ws(s) + ":" + ws(s); };
    for (std::size_t k = 0; k < fs.size(); ++k) {
      const Field &f = fs[k];
      if (!vs[k].present) {
        if (s.chance(1, 4)) { mem.push_back(key(f.name) + "null"); ++nulls; }
        continue;
      }
      if (!all && !f.opt && s.chance(1, 8)) {
        vs[k] = initial_value(f);
        ++skipped;
        continue;
      }
      mem.push_back(key(f.name) + value(f, vs[k]));
    }
    while (s.chance(1, 3)) {
      std::string k;
      if (!fs.empty() && s.chance(2, 3)) {
        k = fs[s.below(fs.size())].name;
        switch (s.below(5)) {
        case 0: k += '\0'; break;
        case 1: k += '\0' + std::string("x"); break;
        case 2: k += "x"; break;
        case 3: k = k.empty() ? "x" : k.substr(0, k.size() - 1); break;
        default: k = "x" + k;
        }
      } else
        k = gen_text(s);
      bool known = false;
      for (auto &f : fs) known |= f.name == k;
      if (known) continue;
      mem.push_back(key(k) + gen_value(s, 3));
      ++unknown;
    }
    for (std::size_t k = mem.size(); k > 1; --k) std::swap(mem[k - 1], mem[s.below(k)]);
    std::string r = "{" + ws(s);
    for (std::size_t k = 0; k < mem.size(); ++k) r += (k ? "," + ws(s) : "") + mem[k] + ws(s);
    return r + "}";
  }
};

void c20(Src &s, Case &c) {
  Schema sc = gen_schema(s, false);
  std::string xml = schema_text(sc);
  c.mix(xml);
  if (c.want_log) c.note(xml);
  br::Loaded L(sc, xml);
  const std::vector<Field> &fs = sc.t[0].f;
  message_type m(malloc_allocator::instance(), L.b.ti[0]);
  std::size_t rounds = (std::size_t)s.range(1, 4);
  unsigned n = 0;
  bool odd = false;
  for (std::size_t r = 0; r < rounds; ++r) {
    std::vector<V> vs = random_values(s, sc, fs, 3);
    adjust(s, sc, fs, vs);
    Render R{s, sc, s.chance(3, 4) ? RAW : 0, r > 0};
    std::string text = R.object(fs, vs);
    std::string tail = s.pick(std::vector<std::string>{"", "", " ", "\n{}", "x", ","});
    c.mix(text);
    stats(c, fs, vs, n);
    if (c.want_log) c.note("message " + show(fs, vs, sc) + "\nJSON " + text);
    js::Value j;
    try {
      j = js::parse(text);
    } catch (const js::Bad &b) {
      PBT_FAIL("(harness) rendered text is not JSON: " << b.what());
    }
    std::istringstream in(ws(s) + text + tail);
    br::must_not_throw([&] { json::decode(in, m.ref(), (unsigned)R.mask); }, "decoding");
    std::vector<V> got;
    L.b.extract(m.cref(), fs, got);
    std::string why;
    PBT_CHECK(same(sc, fs, vs, got, why), "wrong result: " << why << "\n" << text);
    // what follows the object is left in the stream
    std::string rest;
    if (in.good()) rest.assign(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
    PBT_CHECK(rest == tail, "after the object the stream holds " << quoted(rest) << " instead of " << quoted(tail));
    odd |= R.unknown || R.nulls || R.skipped;
    if (R.unknown) c.label("unknown member");
    if (R.nulls) c.label("null member");
    if (R.skipped) c.label("mandatory field not mentioned");
    ++c.sub;
  }
  c.nontrivial = n >= 4 && odd;
}

void c20_bad(Src &s, Case &c) {
  Schema sc = gen_schema(s, false);
  std::string xml = schema_text(sc);
  c.mix(xml);
  if (c.want_log) c.note(xml);
  br::Loaded L(sc, xml);
  const std::vector<Field> &fs = sc.t[0].f;
  std::size_t rounds = (std::size_t)s.range(1, 4);
  message_type m(malloc_allocator::instance(), L.b.ti[0]);
  for (std::size_t r = 0; r < rounds; ++r) {
    std::vector<V> vs = random_values(s, sc, fs, 3);
    adjust(s, sc, fs, vs);
    Render R{s, sc, RAW, true};
    unsigned kind = s.weighted({3, 3, 3});
    R.spoil = kind == 0;
    std::string text = R.object(fs, vs), what;
    bool must = true;
    int seq = -1;
    if (kind == 0) {
      what = R.what;
      must = R.spoiled;
    } else if (kind == 1) { // cut short
      for (std::size_t k = 0; k < fs.size(); ++k)
        if (fs[k].ty == SEQ && vs[k].present && s.chance(1, 4)) { seq = (int)k; text = R.value(fs[k], vs[k]); break; }
      text = text.substr(0, (std::size_t)s.below(text.size()));
      what = "cut short";
      c.label(seq < 0 ? "object cut short" : "sequence cut short");
    } else { // mutated
      std::size_t k = (std::size_t)s.range(1, 4);
      for (; k; --k) {
        std::size_t p = (std::size_t)s.below(text.size() + 1);
        static const std::vector<std::string> bits = {"{", "}", "[", "]", "\"", "\\", ",", ":", "\\u", "\\ud800", "null", "1e9", "-", std::string(1, '\0'), "\xff", "\xf0", "999999999999999999999", "\\ud800\\ud800"};
        switch (s.below(4)) {
        case 0: text.insert(p, s.pick(bits)); break;
        case 1: if (p < text.size()) text.erase(p, (std::size_t)s.range(1, 3)); break;
        case 2: if (p < text.size()) text[p] = (char)s.below(256); break;
        default: if (p < text.size()) text.insert(p, text.substr(p, (std::size_t)s.range(1, 20)));
        }
      }
      must = false;
      what = "mutated";
    }
    c.mix(text);
    if (c.want_log) c.note((must ? "illegal (" + what + "): " : "mutated: ") + text);
    std::istringstream in(text);
    std::string w;
    bool thrown = br::throws([&] {
      if (seq >= 0) json::decode(in, sequence_mref(m.ref()[(uint32_t)seq]), (unsigned)RAW);
      else json::decode(in, m.ref(), (unsigned)RAW);
    }, &w);
    PBT_CHECK(thrown || !must, "accepted illegal text (" << what << "): " << text);
    if (must) { c.label("illegal text rejected"); c.nontrivial = true; }
    else c.label(thrown ? "mutated text rejected" : "mutated text accepted");
    // whatever happened, the message is still a message
    std::vector<V> got;
    L.b.extract(m.cref(), fs, got);
    message_type copy(m.cref(), malloc_allocator::instance());
    PBT_CHECK(copy.cref() == m.cref(), "a copy of the message differs from it");
    ++c.sub;
  }
}

PBT_PROPERTY("C19.encode",
             "random templates (every field type, boolean and tagged fields, odd names, unnamed elements, dynamic references) and messages are written as JSON; "
             "an independent strict parser must find exactly the present fields with their values, and decoding into a new message must give the message back. "
             "Non-trivial: at least four present fields.",
             c19, 40000, 600000)
PBT_PROPERTY("C20.valid",
             "messages rendered as JSON with members in any order, any white space and escapes, unknown members of any shape, nulls and unmentioned fields are decoded one after another "
             "into the same message. Non-trivial: at least four present fields, and an unknown, null or unmentioned member.",
             c20, 40000, 600000)
PBT_PROPERTY("C20.invalid",
             "such texts with one value the field cannot hold, cut short, or mutated: the first two kinds must be rejected, and nothing may crash (AddressSanitizer). "
             "Non-trivial: a text that has to be rejected.",
             c20_bad, 40000, 600000)
} // namespace
