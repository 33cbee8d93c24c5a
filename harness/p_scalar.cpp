// C11: the stop-bit encoding of single values. C12: presence maps.
#include "ref_codec.h"
#include <memory>
#include <mfast.h>
#include <mfast/exceptions.h>
#include <mfast/coder/encoder/fast_ostream.h>
#include <mfast/coder/encoder/fast_ostream_inserter.h>
#include <mfast/coder/encoder/resizable_fast_ostreambuf.h>
#include <mfast/coder/encoder/encoder_presence_map.h>
#include <mfast/coder/decoder/fast_istream.h>
#include <mfast/coder/decoder/fast_istream_extractor.h>
#include <mfast/coder/decoder/decoder_presence_map.h>
#include <mfast/xml_parser/dynamic_templates_description.h>
using namespace fm;
using pbt::Case;

namespace {
enum K { V16, VI32, VU32, VI64, VU64, VASCII, VUNI, VBYTES, VDEC, VDELTA_I32, VDELTA_U32, VDELTA_I64, VDELTA_U64, VNULL, NK };
const char *kn[] = {"int16", "int32", "uint32", "int64", "uint64", "ascii", "unicode", "byteVector", "decimal",
                    "int32 delta", "uint32 delta", "int64 delta", "uint64 delta", "null"};
bool integral(K k) { return k <= VU64; }
bool delta(K k) { return k >= VDELTA_I32 && k <= VDELTA_U64; }
bool uns(K k) { return k == VU32 || k == VU64 || k == VDELTA_U32 || k == VDELTA_U64; }
int bits(K k) {
  switch (k) {
  case V16: return 16;
  case VI32: case VU32: case VDELTA_I32: case VDELTA_U32: return 32;
  default: return 64;
  }
}
__int128 lo(K k) { return uns(k) ? 0 : -((__int128)1 << (bits(k) - 1)); }
__int128 hi(K k) { return ((__int128)1 << (bits(k) - (uns(k) ? 0 : 1))) - 1; }
std::string str(__int128 v) {
  bool n = v < 0;
  unsigned __int128 u = n ? -(unsigned __int128)v : (unsigned __int128)v;
  std::string s;
  do { s.insert(s.begin(), (char)('0' + (int)(u % 10))); u /= 10; } while (u);
  return n ? "-" + s : s;
}
// integers around the places where the encoding changes its length
__int128 gen_int(Src &s, K k) {
  __int128 l = lo(k), h = hi(k), v;
  switch (s.below(5)) {
  case 0: v = s.range(-2, 130); break;
  case 1: v = h - (int64_t)s.below(3); break;
  case 2: v = l + (int64_t)s.below(3); break;
  case 3: {
    unsigned e = (unsigned)s.below((unsigned)bits(k) + 1);
    v = ((__int128)1 << e) + s.range(-2, 2);
    if (s.coin()) v = -v;
    break;
  }
  default: {
    v = (__int128)(s.raw64() >> s.below(64));
    if (s.coin()) v = -v;
  }
  }
  if (v < l || v > h) v = l + (__int128)((unsigned __int128)(v - l) % (unsigned __int128)(h - l + 1));
  if (v < l) v += h - l + 1;
  return v;
}
std::string gen_bytes(Src &s, K k) {
  std::size_t n = s.weighted({1, 6, 2, 1});
  n = n == 0 ? 0 : n == 1 ? s.below(6) : n == 2 ? s.below(40) : (std::size_t)s.range(100, 400);
  std::string r;
  for (std::size_t i = 0; i < n; ++i) r += k == VASCII ? (char)s.range(1, 127) : (char)(s.coin() ? s.below(256) : "\0\x80\x7f\xff"[s.below(4)]);
  if (k == VASCII && s.chance(1, 16)) r.assign(1, '\0');
  return r;
}

struct Templates {
  std::unique_ptr<mfast::dynamic_templates_description> d;
  mfast::malloc_allocator alloc;
  std::unique_ptr<mfast::message_type> m;
  Templates() {
    const char *ty[] = {"int32", "uInt32", "int64", "uInt64", "string charset=\"ascii\"", "string charset=\"unicode\"", "byteVector", "decimal"};
    std::string x = "<templates><template name=\"T\" id=\"1\">";
    int n = 0;
    for (auto t : ty)
      for (int o = 0; o < 2; ++o)
        x += "<" + std::string(t) + " name=\"f" + std::to_string(n++) + "\"" + (o ? " presence=\"optional\"" : "") + "/>";
    x += "</template></templates>";
    d.reset(new mfast::dynamic_templates_description(x));
    m.reset(new mfast::message_type(&alloc, (*d)[0]));
  }
};
Templates &tpl() {
  static Templates *t = new Templates;
  return *t;
}
int field_of(K k, bool nullable) {
  int b = k == VI32 ? 0 : k == VU32 ? 1 : k == VI64 ? 2 : k == VU64 ? 3 : k == VASCII ? 4 : k == VUNI ? 5 : k == VBYTES ? 6 : 7;
  return b * 2 + nullable;
}

struct Val {
  K k;
  bool nullable = false, null = false;
  int how = 0; // 0 bool argument, 1 compile-time constant, 2 through a reference
  __int128 i = 0, base = 0;
  int exp = 0;
  std::string s;
};
std::string show(const Val &v) {
  std::string r = std::string(kn[v.k]) + (v.nullable ? " nullable " : " ");
  if (v.how == 2) r += "(ref) ";
  if (v.null) return r + "null";
  if (v.k >= VASCII && v.k <= VBYTES) return r + pbt::hex(v.s);
  if (v.k == VDEC) return r + str(v.i) + "e" + std::to_string(v.exp);
  if (delta(v.k)) return r + str(v.i) + " - " + str(v.base);
  return r + str(v.i);
}
Val gen_val(Src &s) {
  Val v;
  v.k = (K)s.below(NK);
  v.nullable = s.coin();
  if (v.k == VNULL) { v.null = v.nullable = true; return v; }
  bool can_ref = v.k != V16 && !delta(v.k);
  v.how = v.k == VDEC ? 2 : (int)s.below(can_ref ? 3 : 2);
  v.null = v.nullable && !delta(v.k) && s.chance(1, 5);
  if (v.k == VDEC) { v.exp = (int)s.range(-63, 63); v.i = gen_int(s, VI64); }
  else if (v.k >= VASCII && v.k <= VBYTES) v.s = gen_bytes(s, v.k);
  else {
    v.i = gen_int(s, v.k);
    if (delta(v.k)) v.base = s.coin() ? gen_int(s, v.k) : s.coin() ? lo(v.k) : hi(v.k);
  }
  return v;
}
void expect(std::string &o, const Val &v) {
  if (v.null) { put_null(o); return; }
  if (v.k == VASCII) put_ascii(o, v.s, v.nullable);
  else if (v.k == VUNI || v.k == VBYTES) put_bytes(o, v.s, v.nullable);
  else if (v.k == VDEC) { put_int(o, v.exp + (v.nullable && v.exp >= 0)); put_int(o, v.i); }
  else {
    __int128 x = v.i - v.base;
    if (v.nullable && x >= 0) ++x;
    if (uns(v.k) && !delta(v.k)) put_uint(o, (unsigned __int128)x);
    else put_int(o, x);
  }
}

template <typename N> void write_direct(mfast::fast_ostream &o, const Val &v, N n) {
  switch (v.k) {
  case V16: o.encode((int16_t)v.i, v.null, n); break;
  case VI32: o.encode((int32_t)v.i, v.null, n); break;
  case VU32: o.encode((uint32_t)v.i, v.null, n); break;
  case VI64: o.encode((int64_t)v.i, v.null, n); break;
  case VU64: o.encode((uint64_t)v.i, v.null, n); break;
  case VASCII: o.encode(v.null ? nullptr : v.s.c_str(), (uint32_t)v.s.size(), (const mfast::ascii_field_instruction *)nullptr, n); break;
  case VUNI: o.encode(v.null ? nullptr : v.s.c_str(), (uint32_t)v.s.size(), (const mfast::unicode_field_instruction *)nullptr, n); break;
  case VBYTES:
    o.encode(v.null ? nullptr : (const unsigned char *)v.s.c_str(), (uint32_t)v.s.size(), (const mfast::byte_vector_field_instruction *)nullptr, n);
    break;
  case VDELTA_I32: o.encode_delta((int32_t)v.i, (int32_t)v.base, n); break;
  case VDELTA_U32: o.encode_delta((uint32_t)v.i, (uint32_t)v.base, n); break;
  case VDELTA_I64: o.encode_delta((int64_t)v.i, (int64_t)v.base, n); break;
  case VDELTA_U64: o.encode_delta((uint64_t)v.i, (uint64_t)v.base, n); break;
  default: o.encode_null();
  }
}
void write_ref(mfast::fast_ostream &o, const Val &v) {
  using namespace mfast;
  field_mref f = tpl().m->ref()[field_of(v.k, v.nullable)];
  if (v.null) f.omit();
  field_cref c = f;
#define INT(K, T) case K: { T##_mref r(f); if (!v.null) r.as((T##_mref::value_type)v.i); o << T##_cref(c); break; }
  switch (v.k) {
    INT(VI32, int32) INT(VU32, uint32) INT(VI64, int64) INT(VU64, uint64)
  case VASCII: { ascii_string_mref r(f); if (!v.null) r.assign(v.s.begin(), v.s.end()); o << ascii_string_cref(c); break; }
  case VUNI: { unicode_string_mref r(f); if (!v.null) r.assign(v.s.begin(), v.s.end()); o << unicode_string_cref(c); break; }
  case VBYTES: { byte_vector_mref r(f); if (!v.null) r.assign(v.s.begin(), v.s.end()); o << byte_vector_cref(c); break; }
  case VDEC: { decimal_mref r(f); if (!v.null) r.as((int64_t)v.i, (int16_t)v.exp); o << decimal_cref(c); break; }
  default: break;
  }
#undef INT
}
void write(mfast::fast_ostream &o, const Val &v) {
  if (v.how == 2) write_ref(o, v);
  else if (v.how == 0) write_direct(o, v, v.nullable);
  else if (v.nullable) write_direct(o, v, std::true_type());
  else write_direct(o, v, std::false_type());
}
template <typename T, typename N> bool rd(mfast::fast_istream &i, __int128 &x, N n) {
  T t;
  if (!i.decode(t, n)) return false;
  x = t;
  return true;
}
// reads what v says into r; false = null
template <typename N> bool read_direct(mfast::fast_istream &in, const Val &v, Val &r, N n) {
  const char *p = nullptr;
  const unsigned char *u = nullptr;
  uint32_t len = 0;
  switch (v.k) {
  case V16: return rd<int16_t>(in, r.i, n);
  case VI32: return rd<int32_t>(in, r.i, n);
  case VU32: return rd<uint32_t>(in, r.i, n);
  case VI64: return rd<int64_t>(in, r.i, n);
  case VU64: return rd<uint64_t>(in, r.i, n);
  case VASCII:
    if (!in.decode(p, len, (const mfast::ascii_field_instruction *)nullptr, n)) return false;
    r.s.assign(p, len);
    if (len) r.s[len - 1] = (char)(r.s[len - 1] & 0x7f);
    return true;
  case VUNI:
    if (!in.decode(p, len, (const mfast::unicode_field_instruction *)nullptr, n)) return false;
    r.s.assign(p, len);
    return true;
  case VBYTES:
    if (!in.decode(u, len, (const mfast::byte_vector_field_instruction *)nullptr, n)) return false;
    r.s.assign((const char *)u, len);
    return true;
  case VDELTA_I32: case VDELTA_U32: case VDELTA_I64: case VDELTA_U64: {
    int64_t d;
    if (!in.decode_delta(d, n)) return false;
    // what the caller makes of it
    uint64_t x = (uint64_t)(int64_t)v.base + (uint64_t)d;
    r.i = v.k == VDELTA_I32 ? (__int128)(int32_t)x : v.k == VDELTA_U32 ? (__int128)(uint32_t)x : v.k == VDELTA_I64 ? (__int128)(int64_t)x : (__int128)x;
    return true;
  }
  default: return rd<uint32_t>(in, r.i, n);
  }
}
bool read_ref(mfast::fast_istream &in, const Val &v, Val &r) {
  using namespace mfast;
  field_mref f = tpl().m->ref()[field_of(v.k, v.nullable)];
  field_cref c = f;
#define INT(K, T) case K: { T##_mref m(f); in >> m; if (c.present()) r.i = T##_cref(c).value(); break; }
  switch (v.k) {
    INT(VI32, int32) INT(VU32, uint32) INT(VI64, int64) INT(VU64, uint64)
  case VASCII: { ascii_string_mref m(f); in >> m; ascii_string_cref s(c); if (c.present()) r.s.assign(s.begin(), s.end()); break; }
  case VUNI: { unicode_string_mref m(f); in >> m; unicode_string_cref s(c); if (c.present()) r.s.assign(s.begin(), s.end()); break; }
  case VBYTES: { byte_vector_mref m(f); in >> m; byte_vector_cref s(c); if (c.present()) r.s.assign(s.begin(), s.end()); break; }
  case VDEC: { decimal_mref m(f); in >> m; decimal_cref d(c); if (c.present()) { r.i = d.mantissa(); r.exp = d.exponent(); } break; }
  default: break;
  }
#undef INT
  return c.present();
}
bool read(mfast::fast_istream &in, const Val &v, Val &r, int how) {
  if (how == 2) return read_ref(in, v, r);
  if (how == 0) return read_direct(in, v, r, v.nullable);
  if (v.nullable) return read_direct(in, v, r, std::true_type());
  return read_direct(in, v, r, std::false_type());
}

void round_trip(Src &s, Case &c) {
  std::vector<Val> vs;
  std::size_t n = s.range(1, 6);
  for (std::size_t k = 0; k < n; ++k) vs.push_back(gen_val(s));
  std::string want;
  std::vector<std::size_t> ends;
  for (auto &v : vs) { expect(want, v); ends.push_back(want.size()); c.mix(show(v)); if (c.want_log) c.note(show(v)); c.label(kn[v.k]); }
  mfast::malloc_allocator alloc;
  std::string got;
  bool fixed = s.coin();
  auto enc = [&](mfast::fast_ostreambuf &b) {
    mfast::fast_ostream o(&alloc);
    o.rdbuf(&b);
    for (auto &v : vs) write(o, v);
    got.assign(b.pbase(), b.length());
  };
  if (fixed) {
    std::unique_ptr<char[]> buf(new char[want.size()]); // exactly enough
    mfast::fast_ostreambuf b(buf.get(), want.size());
    try { enc(b); } catch (std::exception &e) { PBT_FAIL("writing into " << want.size() << " bytes, which are enough, throws " << e.what()); }
  } else {
    std::vector<char> v;
    mfast::resizable_fast_ostreambuf b(v);
    enc(b);
  }
  PBT_CHECK(got == want, "encoded " << pbt::hex(got) << ", expected " << pbt::hex(want));
  // what follows belongs to somebody else
  std::string tail;
  for (std::size_t k = s.below(3); k; --k) tail += (char)s.below(256);
  std::string in = want + tail;
  std::unique_ptr<char[]> heap(new char[in.size()]);
  memcpy(heap.get(), in.data(), in.size());
  mfast::fast_istreambuf ib(heap.get(), in.size());
  mfast::fast_istream is(&ib);
  for (std::size_t k = 0; k < vs.size(); ++k) {
    const Val &v = vs[k];
    int how = v.k == V16 || v.k == VNULL || delta(v.k) ? (int)s.below(2) : v.k == VDEC ? 2 : (int)s.below(3);
    Val r = v;
    r.i = 0;
    r.exp = 0;
    r.s.clear();
    bool present = false;
    try { present = read(is, v, r, how); } catch (std::exception &e) { PBT_FAIL("reading value " << k << " (" << show(v) << ") throws " << e.what()); }
    PBT_CHECK(present == !v.null, "value " << k << " (" << show(v) << ") is read as " << (present ? show(r) : "null"));
    if (present) PBT_CHECK(r.i == v.i && r.exp == v.exp && r.s == v.s, "value " << k << " (" << show(v) << ") is read as " << show(r));
    PBT_CHECK((std::size_t)(ib.gptr() - heap.get()) == ends[k], "value " << k << " ends at " << ends[k] << ", read up to " << ib.gptr() - heap.get());
    c.nontrivial = c.nontrivial || v.null || (v.k >= VASCII ? ends[k] > 1 : (v.i < -64 || v.i > 63));
  }
  // a value that is cut is not a value
  std::size_t vk = s.below(vs.size()), from = vk ? ends[vk - 1] : 0;
  std::size_t len = s.below(ends[vk] - from);
  std::unique_ptr<char[]> cut(new char[len ? len : 1]);
  memcpy(cut.get(), want.data() + from, len);
  mfast::fast_istreambuf cb(cut.get(), len);
  mfast::fast_istream cs(&cb);
  Val r = vs[vk];
  try {
    read(cs, vs[vk], r, vs[vk].k == VDEC ? 2 : 0);
    PBT_FAIL("the first " << len << " bytes of " << show(vs[vk]) << " are read as " << show(r));
  } catch (mfast::fast_error &) {
  }
}

// any stop-bit encoded entity read as any integer
void any_entity(Src &s, Case &c) {
  K k = (K)s.below(VU64 + 2);
  if (k == (K)(VU64 + 1)) k = VDELTA_I64;
  bool nullable = s.coin();
  std::string in;
  __int128 v = 0;
  bool sgn = !uns(k);
  if (s.coin()) { // around the limits of the type
    v = (s.coin() ? hi(k) : lo(k)) + s.range(-3, 3);
    if (s.chance(1, 3)) v = (__int128)1 << s.below(70);
    if (s.chance(1, 4)) v = -v;
    if (!sgn && v < 0) v = 0;
    if (sgn) put_int(in, v);
    else put_uint(in, (unsigned __int128)v);
    unsigned extra = s.chance(1, 3) ? (unsigned)s.range(1, 6) : 0;
    in.insert(0, extra, sgn && v < 0 ? '\x7f' : '\0');
    if (extra) c.label("overlong");
  } else {
    std::size_t n = s.range(1, 11);
    for (std::size_t i = 0; i < n; ++i) in += (char)((s.coin() ? s.below(128) : "\0\x7f\x40\x3f\x01"[s.below(5)]) | (i + 1 == n ? 0x80 : 0));
    for (std::size_t i = 0; i < n; ++i) {
      if (i == 0) v = sgn && (in[0] & 0x40) ? -1 : 0;
      v = v * 128 + (in[i] & 0x7f);
    }
  }
  c.mix(in);
  c.mix((uint64_t)k * 2 + nullable);
  if (c.want_log) c.note(std::string(kn[k]) + (nullable ? " nullable " : " ") + pbt::hex(in));
  std::unique_ptr<char[]> heap(new char[in.size()]);
  memcpy(heap.get(), in.data(), in.size());
  mfast::fast_istreambuf ib(heap.get(), in.size());
  mfast::fast_istream is(&ib);
  Val q, r;
  q.k = k;
  q.nullable = nullable;
  bool threw = false, present = false;
  try { present = read(is, q, r, nullable ? 0 : (int)s.below(2)); } catch (mfast::fast_error &) { threw = true; }
  bool null = nullable && v == 0;
  __int128 x = nullable && v > 0 ? v - 1 : v;
  if (delta(k)) { // of 65 bits
    __int128 top = (__int128)1 << 64;
    c.nontrivial = x < lo(VI64) || x > hi(VI64);
    if (null) PBT_CHECK(!threw && !present, "null is not read as null");
    else if (x < -top || x >= top) PBT_CHECK(threw, str(x) << " is accepted as a difference: " << str(r.i));
    else PBT_CHECK(!threw && present && (uint64_t)r.i == (uint64_t)x, str(x) << (threw ? " is refused" : " is read as " + str(r.i)));
    return;
  }
  c.nontrivial = in.size() >= 4;
  if (null) PBT_CHECK(!threw && !present, "null is read as " << (threw ? "an error" : str(r.i)));
  else if (x < lo(k) || x > hi(k)) { c.label("out of range"); PBT_CHECK(threw, str(x) << " is accepted as " << kn[k] << ": " << str(r.i)); }
  else PBT_CHECK(!threw && present && r.i == x, str(x) << (threw ? " is refused" : present ? " is read as " + str(r.i) : " is read as null"));
  if (!threw) PBT_CHECK((std::size_t)(ib.gptr() - heap.get()) == in.size(), "read up to " << ib.gptr() - heap.get() << " of " << in.size());
}

// ----------------------------------------------------------------- C12
struct Seg {
  std::string before;
  std::vector<bool> bits;
  unsigned spare = 0; // bits reserved and never set
  std::string after;
};
std::string junk(Src &s, unsigned n) {
  std::string r;
  for (; n; --n) r += (char)s.below(256);
  return r;
}
std::vector<bool> gen_bits(Src &s) {
  unsigned n = 0;
  switch (s.below(4)) {
  case 0: n = (unsigned)s.range(1, 16); break;
  case 1: n = (unsigned)s.range(50, 75); break;
  case 2: n = (unsigned)(7 * s.range(1, 30) + s.range(-1, 1)); break;
  default: n = (unsigned)s.range(1, 300); break;
  }
  std::vector<bool> b(n);
  unsigned mode = (unsigned)s.below(4);
  for (unsigned i = 0; i < n; ++i) b[i] = mode == 0 ? s.coin() : mode == 1 ? s.chance(1, 12) : mode == 2 ? !s.chance(1, 12) : false;
  if (s.chance(1, 3)) { // nothing after some place
    unsigned k = (unsigned)s.below(n);
    for (unsigned i = k; i < n; ++i) b[i] = false;
  }
  return b;
}
std::string show(const std::vector<bool> &b) {
  std::string r;
  for (bool x : b) r += x ? '1' : '0';
  return r;
}
struct NestedSeg { // an outer map, the content before, inside and after an inner one
  Seg out;
  std::vector<Seg> in;
};
void pmaps(Src &s, Case &c) {
  NestedSeg g;
  g.out.before = junk(s, (unsigned)s.below(4));
  g.out.bits = gen_bits(s);
  g.out.spare = s.coin() ? 0 : (unsigned)s.below(s.coin() ? 20 : 200);
  g.out.after = junk(s, (unsigned)s.below(6));
  for (unsigned n = (unsigned)s.below(3); n; --n) {
    Seg x;
    x.bits = gen_bits(s);
    x.spare = s.coin() ? 0 : (unsigned)s.below(30);
    x.after = junk(s, (unsigned)s.below(5));
    g.in.push_back(x);
  }
  bool overlong = s.coin();
  bool fixed = s.coin();
  c.mix(show(g.out.bits));
  c.mix(g.out.before + "/" + g.out.after);
  for (auto &x : g.in) c.mix(show(x.bits) + x.after);
  if (c.want_log) {
    c.note(std::string(overlong ? "overlong allowed" : "overlong not allowed") + (fixed ? ", fixed buffer" : ", growing buffer"));
    c.note(pbt::hex(g.out.before) + " [" + show(g.out.bits) + " + " + std::to_string(g.out.spare) + "] " + pbt::hex(g.out.after));
    for (auto &x : g.in) c.note("   [" + show(x.bits) + " + " + std::to_string(x.spare) + "] " + pbt::hex(x.after));
  }
  c.nontrivial = g.out.bits.size() > 7;
  c.label(g.out.bits.size() > 63 ? "outer map longer than 63 bits" : "outer map up to 63 bits");
  if (g.in.size()) c.label("nested maps");
  if (!overlong) c.label("overlong maps not allowed");
  auto body = [&](const Seg &x) {
    std::string r;
    if (!overlong) return pmap_bytes(x.bits, 0);
    std::size_t n = (x.bits.size() + x.spare + 6) / 7;
    std::size_t min = pmap_bytes(x.bits, 0).size();
    return pmap_bytes(x.bits, (unsigned)(n - min));
  };
  std::string want = g.out.before + body(g.out) + g.out.after;
  for (auto &x : g.in) want += body(x) + x.after;
  mfast::malloc_allocator alloc;
  std::string got;
  auto enc = [&](mfast::fast_ostreambuf &b) {
    mfast::fast_ostream o(&alloc);
    o.rdbuf(&b);
    o.allow_overlong_pmap(overlong);
    b.sputn(g.out.before.data(), g.out.before.size());
    mfast::encoder_presence_map p;
    p.init(&o, g.out.bits.size() + g.out.spare);
    std::size_t half = s.below(g.out.bits.size() + 1);
    for (std::size_t i = 0; i < half; ++i) p.set_next_bit(g.out.bits[i]);
    b.sputn(g.out.after.data(), g.out.after.size());
    for (auto &x : g.in) {
      mfast::encoder_presence_map q;
      q.init(&o, x.bits.size() + x.spare);
      std::size_t h2 = s.below(x.after.size() + 1);
      b.sputn(x.after.data(), h2);
      for (bool v : x.bits) q.set_next_bit(v);
      for (std::size_t i = h2; i < x.after.size(); ++i) b.sputc(x.after[i]);
      q.commit();
    }
    for (std::size_t i = half; i < g.out.bits.size(); ++i) p.set_next_bit(g.out.bits[i]);
    p.commit();
    got.assign(b.pbase(), b.length());
  };
  if (fixed) {
    std::size_t room = want.size();
    if (!overlong) { // the maps are shortened after they have been reserved
      room = g.out.before.size() + (g.out.bits.size() + g.out.spare + 6) / 7 + g.out.after.size();
      for (auto &x : g.in) room += (x.bits.size() + x.spare + 6) / 7 + x.after.size();
    }
    std::unique_ptr<char[]> buf(new char[room]);
    mfast::fast_ostreambuf b(buf.get(), room);
    try { enc(b); } catch (std::exception &e) { PBT_FAIL("writing into " << room << " bytes throws " << e.what()); }
  } else {
    std::vector<char> v;
    mfast::resizable_fast_ostreambuf b(v);
    enc(b);
  }
  PBT_CHECK(got == want, "wrote " << pbt::hex(got) << ", expected " << pbt::hex(want));
}
void pmap_read(Src &s, Case &c) {
  std::vector<std::vector<bool>> maps;
  std::vector<unsigned> extra;
  std::vector<std::string> junks;
  std::string in;
  for (unsigned n = (unsigned)s.range(1, 3); n; --n) {
    maps.push_back(gen_bits(s));
    extra.push_back(s.coin() ? 0 : (unsigned)s.below(12));
    junks.push_back(junk(s, (unsigned)s.below(4)));
    in += pmap_bytes(maps.back(), extra.back()) + junks.back();
    c.nontrivial = c.nontrivial || maps.back().size() > 7;
    c.label(maps.back().size() > 63 ? "longer than 63 bits" : "up to 63 bits");
    if (extra.back()) c.label("trailing zero bytes");
  }
  c.mix(in);
  if (c.want_log) c.note(pbt::hex(in));
  std::unique_ptr<char[]> heap(new char[in.size()]);
  memcpy(heap.get(), in.data(), in.size());
  mfast::fast_istreambuf ib(heap.get(), in.size());
  mfast::fast_istream is(&ib);
  std::vector<mfast::decoder_presence_map> pm(maps.size());
  std::size_t pos = 0;
  for (std::size_t k = 0; k < maps.size(); ++k) { // all maps first: their bits may be read later
    is.decode(pm[k]);
    pos += pmap_bytes(maps[k], extra[k]).size();
    PBT_CHECK((std::size_t)(ib.gptr() - heap.get()) == pos, "map " << k << " ends at " << pos << ", read up to " << ib.gptr() - heap.get());
    pos += junks[k].size();
    struct Skip : mfast::fast_istreambuf { static void by(mfast::fast_istreambuf &b, std::ptrdiff_t n) { (b.*&Skip::gbump)(n); } };
    Skip::by(ib, (std::ptrdiff_t)junks[k].size());
  }
  // interleaved reading; after the last bit everything is 0
  std::vector<std::size_t> at(maps.size());
  for (;;) {
    std::size_t k = s.below(maps.size()), n = 0;
    while (n < maps.size() && at[k] >= maps[k].size() + 20) { k = (k + 1) % maps.size(); ++n; }
    if (n == maps.size()) break;
    for (unsigned m = (unsigned)s.range(1, 40); m && at[k] < maps[k].size() + 20; --m, ++at[k]) {
      bool want = at[k] < maps[k].size() && maps[k][at[k]];
      PBT_CHECK(pm[k].is_next_bit_set() == want, "bit " << at[k] << " of map " << k << " is read as " << !want << "; map " << show(maps[k]));
    }
  }
  // cut in the middle
  std::string one = pmap_bytes(maps[0], extra[0]);
  std::size_t len = s.below(one.size());
  std::unique_ptr<char[]> cut(new char[len ? len : 1]);
  memcpy(cut.get(), one.data(), len);
  mfast::fast_istreambuf cb(cut.get(), len);
  mfast::fast_istream cs(&cb);
  mfast::decoder_presence_map p;
  bool threw = false;
  try { cs.decode(p); } catch (mfast::fast_error &) { threw = true; }
  PBT_CHECK(threw, "the first " << len << " bytes of a map of " << one.size() << " are accepted");
}
} // namespace
PBT_PROPERTY("C11.values", "1-6 values of any type (boundary-biased integers, differences of 65 bits, strings with NUL/0x7f/0x80.., decimals, nulls), mandatory or nullable, "
             "written one after the other through the stream functions or the references into an exact or growing buffer and read back; "
             "non-trivial = a null, a string, or an integer of more than one byte", round_trip, 150000, 6000000)
PBT_PROPERTY("C11.entities", "any stop-bit entity of 1-16 bytes, also overlong or outside the type, read as any integer type, against exact arithmetic; "
             "non-trivial = at least four bytes", any_entity, 150000, 6000000)
PBT_PROPERTY("C12.write", "presence maps of 1-300 bits with spare reserved bits, content before and after, up to two maps inside, overlong maps allowed "
             "or not, exact or growing buffer; non-trivial = more than one byte", pmaps, 80000, 3000000)
PBT_PROPERTY("C12.read", "1-3 presence maps of 1-300 bits with trailing zero bytes, read in an interleaved order past their end, and cut; "
             "non-trivial = more than one byte", pmap_read, 80000, 3000000)
