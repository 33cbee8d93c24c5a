// Independent FAST 1.1 encoder / decoder over the model of model.h.
#pragma once
#include "model.h"

namespace fm {

struct RefError : std::runtime_error {
  // protocol: an error that decoders have to report; otherwise the outcome is
  // left open (values out of range, overlong strings)
  bool protocol;
  explicit RefError(const std::string &m, bool p = true) : std::runtime_error(m), protocol(p) {}
};

// the template cannot express the value in this state (delta on an empty entry)
struct Unencodable {};

enum PrevState { UNDEF, EMPTY, ASSIGNED };
struct Prev {
  PrevState st = UNDEF;
  Scalar v;
};

inline bool needs_bit(const Field &f) {
  if (f.ty == GROUP) return f.opt;
  if (f.ty == SEQ) return f.len_op.pmap_bit(f.opt);
  if (!is_scalar(f.ty)) return false;
  if (f.split) return f.op.pmap_bit(f.opt) || f.mop.pmap_bit(false);
  return f.op.pmap_bit(f.opt);
}
inline bool needs_pmap(const std::vector<Field> &fs) {
  for (auto &f : fs)
    if (needs_bit(f)) return true;
  return false;
}

// ------------------------------------------------------------ transfer level
inline void put_uint(std::string &o, unsigned __int128 v) {
  char b[24];
  int n = 0;
  do {
    b[n++] = (char)(v & 0x7f);
    v >>= 7;
  } while (v);
  for (int k = n - 1; k >= 0; --k) o += (char)(k == 0 ? (b[k] | 0x80) : b[k]);
}
inline void put_int(std::string &o, __int128 v) {
  char b[24];
  int n = 0;
  for (;;) {
    int g = (int)(v & 0x7f);
    v >>= 7; // arithmetic
    b[n++] = (char)g;
    bool sign = (g & 0x40) != 0;
    if ((v == 0 && !sign) || (v == -1 && sign)) break;
  }
  for (int k = n - 1; k >= 0; --k) o += (char)(k == 0 ? (b[k] | 0x80) : b[k]);
}
inline void put_int_field(std::string &o, Ty t, int64_t raw, bool nullable) {
  __int128 v = wide(t, raw);
  if (is_unsigned(t)) put_uint(o, (unsigned __int128)(v + (nullable ? 1 : 0)));
  else put_int(o, nullable && v >= 0 ? v + 1 : v);
}
inline void put_ascii(std::string &o, const std::string &s, bool nullable) {
  if (s.empty()) {
    if (nullable) o += '\0';
    o += (char)0x80;
    return;
  }
  if (s[0] == '\0') { // a string of one NUL: zero preamble
    if (nullable) o += '\0';
  }
  if (s.size() == 1 && s[0] == '\0') {
    o += '\0';
    o += (char)0x80;
    return;
  }
  for (std::size_t k = 0; k < s.size(); ++k) o += k + 1 == s.size() ? (char)(s[k] | 0x80) : s[k];
}
inline void put_bytes(std::string &o, const std::string &s, bool nullable) {
  put_uint(o, (unsigned __int128)s.size() + (nullable ? 1 : 0));
  o += s;
}
inline void put_value(std::string &o, Ty t, const Scalar &v, bool nullable) {
  switch (t) {
  case ASCII: put_ascii(o, v.s, nullable); break;
  case UNI: case BYTES: put_bytes(o, v.s, nullable); break;
  case DEC:
    put_int_field(o, I32, v.exp, nullable);
    put_int(o, v.i);
    break;
  case EXPO: put_int_field(o, I32, v.exp, nullable); break;
  case MANT: put_int_field(o, I64, v.i, nullable); break;
  default: put_int_field(o, t, v.i, nullable); break;
  }
}
inline void put_null(std::string &o) { o += (char)0x80; }
inline std::string pmap_bytes(const std::vector<bool> &bits, unsigned extra) {
  std::size_t n = bits.size();
  while (n && !bits[n - 1]) --n;
  std::size_t nb = n ? (n + 6) / 7 : 1;
  nb += extra;
  std::string r;
  for (std::size_t k = 0; k < nb; ++k) {
    int c = 0;
    for (int j = 0; j < 7; ++j)
      if (k * 7 + j < bits.size() && bits[k * 7 + j]) c |= 0x40 >> j;
    if (k + 1 == nb) c |= 0x80;
    r += (char)c;
  }
  return r;
}

struct CodecState {
  const Schema &sc;
  std::vector<Prev> d;
  int64_t active = -1;
  explicit CodecState(const Schema &s) : sc(s), d(s.slot_ty.size()) { active = initial_active(); }
  int64_t initial_active() const { return sc.t.size() == 1 ? (int64_t)sc.t[0].id : -1; }
  void reset_dict() {
    for (auto &p : d) p = Prev();
  }
};

// what the histories exercised (labels and non-triviality rules)
struct Stats {
  uint64_t elided = 0, explicit_ = 0, nulls = 0, absent = 0, groups = 0, seqs = 0, elems = 0, nested = 0, msgs = 0,
           id_elided = 0, long_pmaps = 0, deltas = 0, tails = 0, incs = 0, copies_hit = 0, noncanon = 0, ops_prev = 0;
};

struct GenValOpt {
  bool long_seqs = false;
  unsigned absent_num = 1, absent_den = 4;
  int max_nest = 2;
  bool embedded_nul = false;
  // An absent optional field with a default value is encoded as that default
  // value (known finding): 1 = at the top level of a template, 2 = anywhere.
  // Such values are left out of the generated histories.
  int no_absent_default = 0;
};

class Encoder {
public:
  CodecState st;
  Src *vs = nullptr; // when set, values are generated while encoding
  // when set, one protocol error is made (noted in `bad`): the kind is chosen by
  // bad_kind: 0 = unknown template id, 1 = illegal omission, 2 = delta,
  // 3 = an integer outside its type
  Src *bad_src = nullptr;
  int bad_kind = 0;
  std::string bad;
  unsigned bad_den = 3;
  bool make_bad(int kind) { return bad_src && bad.empty() && bad_kind == kind && bad_src->chance(1, bad_den); }
  Src *ch = nullptr; // when set, arbitrary legal (non canonical) choices are made
  Stats stats;
  GenValOpt go;
  uint64_t elems_left = 0;
  int nest = 0;
  int level = 0; // of groups and sequences inside the current template

  explicit Encoder(const Schema &s) : st(s) {}

  // as message(), but false and without any effect if it cannot be expressed
  bool try_message(Msg &m, bool force_reset, std::string &out) {
    auto d = st.d;
    auto a = st.active;
    auto b = bad;
    try {
      out = message(m, force_reset);
      return true;
    } catch (const Unencodable &) {
      st.d = d;
      st.active = a;
      bad = b;
      nest = level = 0;
      quiet_ = false;
      return false;
    }
  }
  std::string message(Msg &m, bool force_reset) {
    elems_left = 40;
    std::string out;
    ++stats.msgs;
    if (force_reset) {
      st.reset_dict();
      st.active = st.initial_active();
    }
    enc_message(m.tmpl, m.f, out);
    return out;
  }

private:
  const Schema &sc() const { return st.sc; }
  bool quiet_ = false;
  struct Seg {
    std::vector<bool> pmap;
    std::string body;
  };
  bool noncanon(unsigned n = 1, unsigned d = 4) {
    if (!ch) return false;
    bool r = ch->chance(n, d);
    if (r) ++stats.noncanon;
    return r;
  }
  std::string pmap(const Seg &g) {
    if (g.pmap.size() > 63) ++stats.long_pmaps;
    return pmap_bytes(g.pmap, extra_pmap());
  }
  unsigned extra_pmap() { return ch && ch->chance(1, 6) ? (unsigned)ch->range(1, 10) : 0; }

  void enc_message(int tmpl, std::vector<V> &vals, std::string &out) {
    const Template &t = sc().t[tmpl];
    Seg seg;
    if (t.reset) {
      st.reset_dict();
      if (!sc_unique()) st.active = -1;
    }
    bool send = st.active != (int64_t)t.id || noncanon(1, 5);
    if (make_bad(0)) {
      uint32_t id = t.id + 1;
      while (st.sc.find_id(id) >= 0) id += 1 + (uint32_t)bad_src->below(300);
      bad = "unknown template id " + std::to_string(id);
      seg.pmap.push_back(true);
      put_uint(seg.body, id);
    } else {
      seg.pmap.push_back(send);
      if (send) put_uint(seg.body, t.id);
      else ++stats.id_elided;
    }
    st.active = t.id;
    int lv = level;
    level = 0;
    enc_fields(t.f, vals, seg);
    level = lv;
    out += pmap(seg);
    out += seg.body;
  }
  bool sc_unique() const { return sc().t.size() == 1; }

  void enc_fields(const std::vector<Field> &fs, std::vector<V> &vals, Seg &seg) {
    if (vs) vals.assign(fs.size(), V());
    for (std::size_t k = 0; k < fs.size(); ++k) enc_field(fs[k], vals[k], seg);
  }

  void enc_field(const Field &f, V &v, Seg &seg) {
    switch (f.ty) {
    case GROUP: {
      if (vs) v.present = !f.opt || !vs->chance(1, 3);
      if (f.opt) seg.pmap.push_back(v.present);
      if (!v.present) { ++stats.absent; return; }
      ++stats.groups;
      bool pm = needs_pmap(f.sub);
      Seg in;
      ++level;
      enc_fields(f.sub, v.sub, in);
      --level;
      if (pm) seg.body += pmap(in);
      seg.body += in.body;
      return;
    }
    case SEQ: {
      Scalar len;
      bool present = v.present;
      if (vs) {
        gen_length(f, present, len);
        v.present = present;
        v.el.assign(present ? (std::size_t)len.i : 0, std::vector<V>());
      } else
        len.i = (int64_t)v.el.size();
      enc_op(f.len_op, U32, f.opt, present, len, seg);
      if (!present) { ++stats.absent; return; }
      ++stats.seqs;
      bool pm = needs_pmap(f.sub);
      for (auto &e : v.el) {
        ++stats.elems;
        Seg in;
        ++level;
        enc_fields(f.sub, e, in);
        --level;
        if (pm) seg.body += pmap(in);
        seg.body += in.body;
      }
      return;
    }
    case TREF: {
      ++nest;
      if (vs) {
        v.present = true;
        if (nest > go.max_nest) v.tmpl = 0; // template 0 never contains references
        else v.tmpl = (int)vs->below(sc().t.size());
      }
      ++stats.nested;
      int64_t saved = st.active;
      enc_message(v.tmpl, v.sub, seg.body);
      st.active = saved;
      --nest;
      return;
    }
    case I32V: case U32V: case I64V: case U64V: {
      static const Ty el[] = {I32, U32, I64, U64};
      Ty et = el[f.ty - I32V];
      if (vs) {
        v.present = !f.opt || !vs->chance(go.absent_num, go.absent_den);
        v.iv.clear();
        if (v.present)
          for (int n = (int)vs->range(0, vs->chance(1, 10) ? 40 : 4); n > 0; --n) v.iv.push_back(gen_int(*vs, et));
      }
      if (!v.present) { put_null(seg.body); ++stats.nulls; ++stats.absent; return; }
      put_uint(seg.body, (unsigned __int128)v.iv.size() + (f.opt ? 1 : 0));
      for (auto x : v.iv)
        if (make_bad(3)) put_out_of_range(seg.body, et, false);
        else put_int_field(seg.body, et, x, false);
      return;
    }
    default: break;
    }
    // scalar
    Scalar x;
    if (f.split) {
      bool present = v.present;
      x.exp = v.exp;
      if (vs) {
        gen_scalar(f.op, EXPO, f, present, x);
        v.present = present;
        v.exp = x.exp;
      }
      Scalar e;
      e.exp = x.exp;
      enc_op(f.op, EXPO, f.opt, present, e, seg);
      if (!present) { ++stats.absent; return; }
      Scalar m;
      m.i = v.i;
      bool mp = true;
      if (vs) {
        gen_scalar(f.mop, MANT, f, mp, m, true);
        v.i = m.i;
      }
      m.exp = 0;
      enc_op(f.mop, MANT, false, true, m, seg);
      return;
    }
    bool present = v.present;
    x.i = v.i; x.exp = v.exp; x.s = v.s;
    if (vs) {
      gen_scalar(f.op, f.ty, f, present, x);
      v.present = present;
      v.i = x.i; v.exp = x.exp; v.s = x.s;
      if (!present) { v.i = 0; v.exp = 0; v.s.clear(); x = Scalar(); }
    }
    if (!present) ++stats.absent;
    quiet_ = f.quiet;
    enc_op(f.op, f.ty, f.opt, present, x, seg);
    quiet_ = false;
  }

  void gen_length(const Field &f, bool &present, Scalar &len) {
    const Op &op = f.len_op;
    len = Scalar();
    if (op.k == CONST) {
      present = !f.opt || vs->coin();
      if (present) len = op.init;
      return;
    }
    present = !f.opt || !vs->chance(1, 4) || (op.k == DEFAULT && op.has_init && go.no_absent_default == 2);
    if (!present) return;
    switch (vs->weighted({6, 2, 2, 2, 1})) {
    case 0: len.i = vs->range(0, 3); break;
    case 1:
      if (op.uses_dict() && st.d[op.slot].st == ASSIGNED) len.i = st.d[op.slot].v.i;
      else if (op.has_init) len.i = op.init.i;
      break;
    case 2:
      if (op.uses_dict() && st.d[op.slot].st == ASSIGNED) len.i = st.d[op.slot].v.i + 1;
      else if (op.has_init) len.i = op.init.i;
      break;
    case 3: len.i = 0; break;
    default: len.i = vs->range(0, go.long_seqs ? 30 : 8); break;
    }
    if (op.k == DEFAULT && op.has_init && vs->coin()) len.i = op.init.i;
    if (len.i > (int64_t)elems_left) len.i = (int64_t)elems_left;
    elems_left -= (uint64_t)len.i;
  }

  // base of delta / tail
  Scalar base_of(const Op &op) const {
    const Prev &p = st.d[op.slot];
    if (p.st == ASSIGNED) return p.v;
    if (op.has_init) return op.init;
    return Scalar();
  }

  void gen_scalar(const Op &op, Ty ty, const Field &f, bool &present, Scalar &x, bool force_present = false) {
    bool opt = f.opt && !force_present;
    x = Scalar();
    if (op.k == CONST) {
      present = !opt || vs->coin();
      if (present) x = op.init;
      if (ty == EXPO) x.i = 0;
      return;
    }
    if (f.quiet && !vs->chance(1, 30)) {
      present = true;
      x = op.init;
      if (op.k == DEFAULT) return;
    }
    present = !opt || !vs->chance(go.absent_num, go.absent_den);
    if (op.k == DEFAULT && op.has_init && (go.no_absent_default == 2 || (go.no_absent_default == 1 && level == 0))) present = true;
    if (op.k == DELTA && st.d[op.slot].st == EMPTY && opt && !(bad_src && bad_kind == 2)) present = false;
    if (!present) return;
    const Prev *p = op.uses_dict() ? &st.d[op.slot] : nullptr;
    bool have = false;
    switch (vs->weighted({4, 3, 3, 1})) {
    case 1:
      if (p && p->st == ASSIGNED) { x = p->v; have = true; }
      break;
    case 2:
      if (p && op.k == INC && p->st == ASSIGNED) { x = p->v; inc(ty, x); have = true; }
      else if (p && p->st == ASSIGNED) { x = near(ty, p->v, f); have = true; }
      else if (op.has_init) { x = near(ty, op.init, f); have = true; }
      break;
    case 3:
      if (op.has_init) { x = op.init; have = true; }
      break;
    default: break;
    }
    if (!have) x = fresh(ty, f, op.k);
    if (ty == ENUM) {
      bool known = false;
      for (auto &e : f.elems) known |= e.second == (uint64_t)x.i;
      if (!known) x.i = (int64_t)f.elems[0].second;
    }
    if (op.k == TAIL) {
      Scalar b = base_of(op);
      while (x.s.size() < b.s.size()) x.s += (char)vs->range('a', 'd');
    }
    if (ty == EXPO) x.i = 0;
    if (ty == MANT) x.exp = 0;
  }
  static void inc(Ty ty, Scalar &x) {
    if (ty == EXPO) {
      x.exp = x.exp >= 63 ? 63 : x.exp + 1;
      return;
    }
    Ty it = ty == MANT ? I64 : ty;
    if (wide(it, x.i) == ty_max(it)) x.i = ty_min(it);
    else x.i = (int64_t)((uint64_t)x.i + 1);
  }
  Scalar near(Ty ty, const Scalar &p, const Field &f) {
    Scalar x = p;
    if (is_str(ty)) {
      std::size_t n = x.s.size();
      std::string add = gen_str(*vs, ty, (std::size_t)vs->range(0, 4));
      switch (vs->weighted({2, 2, 2, 2, 1})) {
      case 0: x.s += add; break;
      case 1: x.s = x.s.substr(0, n - (std::size_t)vs->range(0, (int64_t)n)) + add; break;
      case 2: x.s = add + x.s.substr((std::size_t)vs->range(0, (int64_t)n)); break;
      case 3: {
        std::size_t k = (std::size_t)vs->range(0, (int64_t)std::min<std::size_t>(n, 4));
        x.s = x.s.substr(0, n - k) + gen_str(*vs, ty, k);
        break;
      }
      default: x.s = x.s.substr(0, (std::size_t)vs->range(0, (int64_t)n)); break;
      }
      if (!x.s.empty() && x.s[0] == 0 && ty == ASCII) x.s[0] = 'z';
      return x;
    }
    Ty it = ty == DEC || ty == MANT ? I64 : ty;
    if (ty == EXPO || ty == DEC) {
      x.exp += (int)vs->range(-2, 2);
      x.exp = std::max(-63, std::min(63, x.exp));
      if (ty == EXPO) return x;
    }
    if (ty == ENUM) { x.i = (int64_t)f.elems[vs->below(f.elems.size())].second; return x; }
    __int128 v = wide(it, x.i) + vs->range(-70, 70);
    if (v < ty_min(it)) v = ty_min(it);
    if (v > ty_max(it)) v = ty_max(it);
    x.i = (int64_t)(uint64_t)v;
    return x;
  }
  Scalar fresh(Ty ty, const Field &f, OpK k) {
    Scalar x;
    switch (ty) {
    case ENUM: x.i = (int64_t)f.elems[vs->below(f.elems.size())].second; break;
    case DEC: x.i = gen_int(*vs, I64); x.exp = gen_exp(); break;
    case EXPO: x.exp = gen_exp(); break;
    case MANT: x.i = gen_int(*vs, I64); break;
    case ASCII: case UNI: case BYTES:
      x.s = gen_str(*vs, ty, gen_len(*vs));
      if (ty == ASCII && x.s.size() > 0 && k != DELTA && k != TAIL && vs->chance(1, 30)) x.s = std::string(1, '\0');
      break;
    default: x.i = gen_int(*vs, ty); break;
    }
    return x;
  }
  int gen_exp() {
    switch (vs->weighted({6, 2, 1})) {
    case 0: return (int)vs->range(-4, 4);
    case 1: return (int)vs->range(-63, 63);
    default: return vs->coin() ? 63 : -63;
    }
  }

  static bool is_int_type(Ty t) { return t <= U64; }
  void put_out_of_range(std::string &o, Ty t, bool nullable) {
    __int128 far;
    switch (bad_src->below(4)) {
    case 0: far = 1; break;
    case 1: far = 1 + (__int128)bad_src->below(300); break;
    case 2: far = (__int128)1 << bad_src->below(66); break;
    default: far = ty_max(t) + 1 + (__int128)bad_src->below(3); break; // wraps around to 0, 1, 2 or to the minimum
    }
    __int128 v = is_unsigned(t) || bad_src->coin() ? ty_max(t) + far : ty_min(t) - far;
    if (is_unsigned(t)) put_uint(o, (unsigned __int128)(v + (nullable ? 1 : 0)));
    else put_int(o, nullable && v >= 0 ? v + 1 : v);
    bad = "D2 integer outside its type";
  }
  void explicit_value(Ty ty, bool opt, bool present, const Scalar &x, Seg &seg) {
    if (!present) { put_null(seg.body); ++stats.nulls; }
    else if ((ty == MANT || is_int_type(ty)) && make_bad(3)) {
      put_out_of_range(seg.body, ty == MANT ? I64 : ty, opt);
      ++stats.explicit_;
    } else { put_value(seg.body, ty, x, opt); ++stats.explicit_; }
  }

  void enc_op(const Op &op, Ty ty, bool opt, bool present, const Scalar &x, Seg &seg) {
    switch (op.k) {
    case NONE: explicit_value(ty, opt, present, x, seg); return;
    case CONST:
      if (opt) seg.pmap.push_back(present);
      ++stats.elided;
      return;
    case DEFAULT: {
      bool elide = op.has_init ? (present && same(ty, x, op.init)) : !present;
      if (elide && !(quiet_ ? noncanon(1, 100) : noncanon())) { seg.pmap.push_back(false); ++stats.elided; return; }
      seg.pmap.push_back(true);
      explicit_value(ty, opt, present, x, seg);
      return;
    }
    case COPY: case INC: {
      Prev &p = st.d[op.slot];
      ++stats.ops_prev;
      bool elide;
      if (p.st == ASSIGNED) {
        Scalar e = p.v;
        if (op.k == INC) {
          if (ty == EXPO && e.exp == 63) e.exp = 64; // outside the domain: never equal
          else inc(ty, e);
        }
        elide = present && same(ty, x, e);
      } else if (p.st == UNDEF && op.has_init)
        elide = present && same(ty, x, op.init);
      else
        elide = !present;
      if (elide && p.st == ASSIGNED) ++(op.k == INC ? stats.incs : stats.copies_hit);
      if (!opt && p.st != ASSIGNED && !(p.st == UNDEF && op.has_init) && make_bad(1)) {
        bad = std::string(p.st == UNDEF ? "D5" : "D6") + " omitted " + op_name(op.k) + " value of a mandatory field";
        seg.pmap.push_back(false);
        assign(p, ty, present, x);
        return;
      }
      if (elide && !noncanon()) { seg.pmap.push_back(false); ++stats.elided; }
      else { seg.pmap.push_back(true); explicit_value(ty, opt, present, x, seg); }
      assign(p, ty, present, x);
      return;
    }
    case DELTA: {
      Prev &p = st.d[op.slot];
      ++stats.ops_prev;
      if (!present) { put_null(seg.body); ++stats.nulls; return; }
      if (p.st == EMPTY) {
        if (!bad_src || bad_kind != 2) throw Unencodable();
        if (bad.empty()) bad = "D6 delta on an empty previous value";
      }
      Scalar b = base_of(op);
      ++stats.deltas;
      if (is_str(ty)) {
        std::size_t n = b.s.size(), m = x.s.size(), pre = 0, suf = 0;
        while (pre < n && pre < m && b.s[pre] == x.s[pre]) ++pre;
        while (suf < n && suf < m && b.s[n - 1 - suf] == x.s[m - 1 - suf]) ++suf;
        bool front = false;
        if (ch) {
          front = ch->coin();
          if (front) suf = (std::size_t)ch->range(0, (int64_t)suf);
          else pre = (std::size_t)ch->range(0, (int64_t)pre);
          ++stats.noncanon;
        }
        __int128 sub;
        std::string diff;
        if (front) { sub = -(__int128)(n - suf) - 1; diff = x.s.substr(0, m - suf); }
        else { sub = (__int128)(n - pre); diff = x.s.substr(pre); }
        if (make_bad(2)) {
          bad = "D7 subtraction length beyond the base";
          sub = sub >= 0 ? (__int128)n + 1 + (__int128)bad_src->below(3) * 40 : -(__int128)n - 2 - (__int128)bad_src->below(3) * 40;
        }
        put_int(seg.body, opt && sub >= 0 ? sub + 1 : sub);
        if (ty == ASCII) put_ascii(seg.body, diff, false);
        else put_bytes(seg.body, diff, false);
      } else if (ty == DEC) {
        __int128 de = (__int128)x.exp - b.exp;
        put_int(seg.body, opt && de >= 0 ? de + 1 : de);
        put_int(seg.body, (__int128)x.i - b.i);
      } else if (ty == EXPO) {
        __int128 de = (__int128)x.exp - b.exp;
        put_int(seg.body, opt && de >= 0 ? de + 1 : de);
      } else {
        Ty it = ty == MANT ? I64 : ty;
        __int128 dl = wide(it, x.i) - wide(it, b.i);
        put_int(seg.body, opt && dl >= 0 ? dl + 1 : dl);
      }
      assign(p, ty, true, x);
      return;
    }
    case TAIL: {
      Prev &p = st.d[op.slot];
      ++stats.ops_prev;
      bool elide;
      if (p.st == ASSIGNED) elide = present && x.s == p.v.s;
      else if (p.st == UNDEF && op.has_init) elide = present && x.s == op.init.s;
      else elide = !present;
      if (!opt && p.st != ASSIGNED && !(p.st == UNDEF && op.has_init) && make_bad(1)) {
        bad = std::string(p.st == UNDEF ? "D6" : "D7") + " omitted tail value of a mandatory field";
        seg.pmap.push_back(false);
        assign(p, ty, present, x);
        return;
      }
      if (elide && !noncanon()) { seg.pmap.push_back(false); ++stats.elided; }
      else {
        seg.pmap.push_back(true);
        if (!present) { put_null(seg.body); ++stats.nulls; }
        else {
          ++stats.tails;
          Scalar b = base_of(op);
          std::size_t n = b.s.size(), m = x.s.size();
          if (m < n) throw std::logic_error("generator produced a tail value shorter than its base");
          std::size_t pre = 0;
          if (m == n) {
            while (pre < n && b.s[pre] == x.s[pre]) ++pre;
            if (ch && pre) pre = (std::size_t)ch->range(0, (int64_t)pre);
          }
          Scalar tl;
          tl.s = x.s.substr(pre);
          put_value(seg.body, ty, tl, opt);
        }
      }
      assign(p, ty, present, x);
      return;
    }
    }
  }
  static bool same(Ty ty, const Scalar &a, const Scalar &b) {
    if (ty == EXPO) return a.exp == b.exp;
    if (is_str(ty)) return a.s == b.s;
    if (ty == DEC) return a.i == b.i && a.exp == b.exp;
    return a.i == b.i;
  }
  static void assign(Prev &p, Ty ty, bool present, const Scalar &x) {
    if (!present) { p = Prev(); p.st = EMPTY; return; }
    p.st = ASSIGNED;
    p.v = x;
  }
};

// ------------------------------------------------------------------- decoder
class Decoder {
public:
  CodecState st;
  bool overlong_pmap = false, overlong_int = false;
  explicit Decoder(const Schema &s) : st(s) {}

  Msg message(const std::string &in, std::size_t &pos, bool force_reset) {
    in_ = &in;
    pos_ = pos;
    if (force_reset) {
      st.reset_dict();
      st.active = st.initial_active();
    }
    Msg m;
    dec_message(m.tmpl, m.f);
    pos = pos_;
    return m;
  }

private:
  const std::string *in_ = nullptr;
  std::size_t pos_ = 0;
  struct Pmap {
    std::vector<bool> b;
    std::size_t n = 0;
    bool next() { return n < b.size() ? (bool)b[n++] : false; }
  };
  unsigned char get() {
    if (pos_ >= in_->size()) throw RefError("truncated");
    return (unsigned char)(*in_)[pos_++];
  }
  Pmap get_pmap() {
    Pmap p;
    unsigned n = 0;
    for (;;) {
      unsigned char c = get();
      ++n;
      for (int j = 0; j < 7; ++j) p.b.push_back((c >> (6 - j)) & 1);
      if (c & 0x80) {
        if (n > 1 && (c & 0x7f) == 0) overlong_pmap = true;
        break;
      }
    }
    return p;
  }
  unsigned __int128 get_uint() {
    unsigned __int128 v = 0;
    for (int n = 0;; ++n) {
      unsigned char c = get();
      if (n == 0 && c == 0) overlong_int = true;
      if (n > 17) throw RefError("integer too long", false);
      v = (v << 7) | (c & 0x7f);
      if (c & 0x80) return v;
    }
  }
  __int128 get_int() {
    __int128 v = 0;
    int first = -1;
    for (int n = 0;; ++n) {
      unsigned char c = get();
      if (n == 0) { first = c; v = (c & 0x40) ? -1 : 0; }
      if (n == 1 && ((first == 0 && !(c & 0x40)) || (first == 0x7f && (c & 0x40)))) overlong_int = true;
      if (n > 17) throw RefError("integer too long", false);
      v = (v << 7) | (c & 0x7f);
      if (c & 0x80) return v;
    }
  }
  // returns false for NULL
  bool get_int_field(Ty t, bool nullable, int64_t &raw) {
    __int128 v;
    if (is_unsigned(t)) {
      v = (__int128)get_uint();
      if (nullable) {
        if (v == 0) return false;
        --v;
      }
    } else {
      v = get_int();
      if (nullable) {
        if (v == 0) return false;
        if (v > 0) --v;
      }
    }
    if (v < ty_min(t) || v > ty_max(t)) throw RefError("D2 integer out of range");
    raw = (int64_t)(uint64_t)v;
    return true;
  }
  bool get_ascii(bool nullable, std::string &s) {
    std::string raw;
    for (;;) {
      unsigned char c = get();
      raw += (char)(c & 0x7f);
      if (c & 0x80) break;
    }
    if (nullable) {
      if (raw.size() == 1 && raw[0] == 0) return false;
      if (raw[0] == 0) {
        raw = raw.substr(1); // preamble
        if (raw.size() > 2 || raw[0] != 0 || raw.back() != 0) throw RefError("R9 overlong string", false);
      }
      if (raw.size() == 1 && raw[0] == 0) { s.clear(); return true; }
      if (raw.size() == 2 && raw[0] == 0 && raw[1] == 0) { s = std::string(1, '\0'); return true; }
    } else {
      if (raw[0] == 0 && (raw.size() > 2 || raw.back() != 0)) throw RefError("R9 overlong string", false);
      if (raw.size() == 1 && raw[0] == 0) { s.clear(); return true; }
      if (raw.size() == 2 && raw[0] == 0 && raw[1] == 0) { s = std::string(1, '\0'); return true; }
    }
    s = raw;
    return true;
  }
  bool get_bytes(bool nullable, std::string &s) {
    unsigned __int128 n = get_uint();
    if (nullable) {
      if (n == 0) return false;
      --n;
    }
    if (n > in_->size() - pos_) throw RefError("truncated");
    s = in_->substr(pos_, (std::size_t)n);
    pos_ += (std::size_t)n;
    return true;
  }
  bool get_value(Ty t, bool nullable, Scalar &x) {
    x = Scalar();
    int64_t raw;
    switch (t) {
    case ASCII: return get_ascii(nullable, x.s);
    case UNI: case BYTES: return get_bytes(nullable, x.s);
    case DEC:
      if (!get_int_field(I32, nullable, raw)) return false;
      x.exp = (int)raw;
      if (x.exp < -63 || x.exp > 63) throw RefError("R1 exponent", false);
      get_int_field(I64, false, x.i);
      return true;
    case EXPO:
      if (!get_int_field(I32, nullable, raw)) return false;
      x.exp = (int)raw;
      if (x.exp < -63 || x.exp > 63) throw RefError("R1 exponent", false);
      return true;
    case MANT: return get_int_field(I64, nullable, x.i);
    default: return get_int_field(t, nullable, x.i);
    }
  }

  void dec_message(int &tmpl, std::vector<V> &vals) {
    Pmap p = get_pmap();
    if (p.next()) {
      unsigned __int128 id = get_uint();
      if (id > 0xffffffffu) throw RefError("D2 template id too large");
      tmpl = st.sc.find_id((uint32_t)id);
      if (tmpl < 0) throw RefError("D9 unknown template");
    } else {
      if (st.active < 0) throw RefError("D9 no template id");
      tmpl = st.sc.find_id((uint32_t)st.active);
    }
    st.active = st.sc.t[tmpl].id;
    if (st.sc.t[tmpl].reset) st.reset_dict();
    dec_fields(st.sc.t[tmpl].f, vals, p);
  }
  void dec_fields(const std::vector<Field> &fs, std::vector<V> &vals, Pmap &p) {
    vals.assign(fs.size(), V());
    for (std::size_t k = 0; k < fs.size(); ++k) dec_field(fs[k], vals[k], p);
  }
  void dec_field(const Field &f, V &v, Pmap &p) {
    switch (f.ty) {
    case GROUP: {
      v.present = !f.opt || p.next();
      if (!v.present) return;
      Pmap in;
      if (needs_pmap(f.sub)) in = get_pmap();
      dec_fields(f.sub, v.sub, in);
      return;
    }
    case SEQ: {
      Scalar len;
      v.present = dec_op(f.len_op, U32, f.opt, len, p);
      if (!v.present) return;
      if ((uint64_t)len.i > in_->size() * 8 + 64) throw RefError("sequence length beyond input", false);
      bool pm = needs_pmap(f.sub);
      for (int64_t k = 0; k < len.i; ++k) {
        Pmap in;
        if (pm) in = get_pmap();
        v.el.emplace_back();
        dec_fields(f.sub, v.el.back(), in);
      }
      return;
    }
    case TREF: {
      v.present = true;
      int64_t saved = st.active;
      dec_message(v.tmpl, v.sub);
      st.active = saved;
      return;
    }
    case I32V: case U32V: case I64V: case U64V: {
      static const Ty el[] = {I32, U32, I64, U64};
      int64_t n;
      v.present = get_int_field(U32, f.opt, n);
      if (!v.present) return;
      for (int64_t k = 0; k < n; ++k) {
        int64_t x;
        get_int_field(el[f.ty - I32V], false, x);
        v.iv.push_back(x);
      }
      return;
    }
    default: break;
    }
    Scalar x;
    if (f.split) {
      v.present = dec_op(f.op, EXPO, f.opt, x, p);
      if (!v.present) return;
      v.exp = x.exp;
      Scalar m;
      dec_op(f.mop, MANT, false, m, p);
      v.i = m.i;
      return;
    }
    v.present = dec_op(f.op, f.ty, f.opt, x, p);
    if (!v.present) return;
    v.i = x.i; v.exp = x.exp; v.s = x.s;
  }
  Scalar base_of(const Op &op) const {
    const Prev &p = st.d[op.slot];
    if (p.st == ASSIGNED) return p.v;
    if (op.has_init) return op.init;
    return Scalar();
  }
  bool dec_op(const Op &op, Ty ty, bool opt, Scalar &x, Pmap &pm) {
    switch (op.k) {
    case NONE: return get_value(ty, opt, x);
    case CONST:
      if (opt && !pm.next()) return false;
      x = op.init;
      return true;
    case DEFAULT:
      if (pm.next()) return get_value(ty, opt, x);
      if (op.has_init) { x = op.init; return true; }
      return false;
    case COPY: case INC: case TAIL: {
      Prev &p = st.d[op.slot];
      if (pm.next()) {
        Scalar y;
        bool r = get_value(ty, opt, y);
        if (!r) { p = Prev(); p.st = EMPTY; return false; }
        if (op.k == TAIL) {
          Scalar b = base_of(op);
          if (y.s.size() < b.s.size()) y.s = b.s.substr(0, b.s.size() - y.s.size()) + y.s;
        }
        x = y;
        p.st = ASSIGNED;
        p.v = x;
        return true;
      }
      if (p.st == ASSIGNED) {
        if (op.k == INC) {
          if (ty == EXPO) p.v.exp++;
          else {
            Ty it = ty == MANT ? I64 : ty;
            if (wide(it, p.v.i) == ty_max(it)) p.v.i = ty_min(it);
            else p.v.i = (int64_t)((uint64_t)p.v.i + 1);
          }
        }
        x = p.v;
        return true;
      }
      if (p.st == UNDEF && op.has_init) {
        x = op.init;
        p.st = ASSIGNED;
        p.v = x;
        return true;
      }
      if (!opt) throw RefError(p.st == UNDEF ? "D5" : "D6/D7");
      p = Prev();
      p.st = EMPTY;
      return false;
    }
    case DELTA: {
      Prev &p = st.d[op.slot];
      Scalar b = base_of(op);
      if (is_str(ty)) {
        __int128 sub = get_int();
        if (opt) {
          if (sub == 0) return false;
          if (sub > 0) --sub;
        }
        if (p.st == EMPTY) throw RefError("D6 delta on empty");
        std::string diff;
        if (ty == ASCII) get_ascii(false, diff);
        else get_bytes(false, diff);
        if (sub >= 0) {
          if (sub > (__int128)b.s.size()) throw RefError("D7 subtraction length");
          x.s = b.s.substr(0, b.s.size() - (std::size_t)sub) + diff;
        } else {
          __int128 n = -sub - 1;
          if (n > (__int128)b.s.size()) throw RefError("D7 subtraction length");
          x.s = diff + b.s.substr((std::size_t)n);
        }
      } else if (ty == DEC || ty == EXPO) {
        __int128 de = get_int();
        if (opt) {
          if (de == 0) return false;
          if (de > 0) --de;
        }
        if (p.st == EMPTY) throw RefError("D6 delta on empty");
        __int128 e = de + b.exp;
        if (e < -63 || e > 63) throw RefError("R1 exponent", false);
        x.exp = (int)e;
        if (ty == DEC) {
          __int128 m = get_int() + b.i;
          if (m < ty_min(I64) || m > ty_max(I64)) throw RefError("R4", false);
          x.i = (int64_t)m;
        }
      } else {
        Ty it = ty == MANT ? I64 : ty;
        __int128 dl = get_int();
        if (opt) {
          if (dl == 0) return false;
          if (dl > 0) --dl;
        }
        if (p.st == EMPTY) throw RefError("D6 delta on empty");
        __int128 r = dl + wide(it, b.i);
        if (r < ty_min(it) || r > ty_max(it)) throw RefError("R4 delta result out of range", false);
        x.i = (int64_t)(uint64_t)r;
      }
      p.st = ASSIGNED;
      p.v = x;
      return true;
    }
    }
    return false;
  }
};
} // namespace fm
