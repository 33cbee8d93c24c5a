// Plain value trees: initial values of a template, random values and the
// expected result of comparing two of them.
#pragma once
#include "model.h"

namespace vals {
using namespace fm;
// ------------------------------------------------------------- plain values
inline V initial_value(const Field &f);
inline std::vector<V> initial_values(const std::vector<Field> &fs) {
  std::vector<V> r;
  for (auto &f : fs) r.push_back(initial_value(f));
  return r;
}
inline V initial_value(const Field &f) {
  V v;
  v.present = !f.opt;
  switch (f.ty) {
  case GROUP: v.sub = initial_values(f.sub); break;
  case SEQ:
    if (f.len_op.has_init)
      for (int64_t k = 0; k < f.len_op.init.i && !f.opt; ++k) v.el.push_back(initial_values(f.sub));
    break;
  case TREF: v.present = false; break;
  default:
    if (f.split) {
      if (f.op.has_init) v.exp = f.op.init.exp;
      if (f.mop.has_init) v.i = f.mop.init.i;
    } else if (f.op.has_init) {
      v.i = f.op.init.i;
      v.exp = f.op.init.exp;
      v.s = f.op.init.s;
    } else if (f.ty == ENUM) {
      v.i = (int64_t)f.elems[0].second;
    }
  }
  if (!v.present) { V e; e.sub = v.sub; return e; }
  return v;
}
inline std::vector<V> random_values(Src &s, const Schema &sc, const std::vector<Field> &fs, int budget);
inline V random_value(Src &s, const Schema &sc, const Field &f, int budget, int max_tmpl) {
  V v;
  v.present = f.ty == TREF ? true : !f.opt || s.chance(3, 4);
  bool cst = f.op.k == CONST && !f.split;
  if (!v.present && f.ty != GROUP) return v;
  if (cst) { v.i = f.op.init.i; v.exp = f.op.init.exp; v.s = f.op.init.s; return v; }
  switch (f.ty) {
  case I32: case U32: case I64: case U64: v.i = gen_int(s, f.ty); break;
  case ENUM: v.i = (int64_t)f.elems[s.below(f.elems.size())].second; break;
  case DEC: {
    v.i = gen_int(s, I64);
    v.exp = (int)s.range(-63, 63);
    if (f.split && f.op.k == CONST) v.exp = f.op.init.exp;
    if (f.split && f.mop.k == CONST) v.i = f.mop.init.i;
    break;
  }
  case ASCII: case UNI: case BYTES: v.s = gen_str(s, f.ty, gen_len(s)); break;
  case I32V: case U32V: case I64V: case U64V: {
    std::size_t n = (std::size_t)s.below(5);
    Ty t = f.ty == I32V ? I32 : f.ty == U32V ? U32 : f.ty == I64V ? I64 : U64;
    for (std::size_t k = 0; k < n; ++k) v.iv.push_back(gen_int(s, t));
    break;
  }
  case GROUP: v.sub = random_values(s, sc, f.sub, budget - 1); break;
  case SEQ: {
    std::size_t n = budget > 0 ? (std::size_t)s.below(4) : 0;
    for (std::size_t k = 0; k < n; ++k) v.el.push_back(random_values(s, sc, f.sub, budget - 1));
    break;
  }
  case TREF:
    v.tmpl = max_tmpl > 0 ? (int)s.below((std::size_t)max_tmpl) : 0;
    v.sub = random_values(s, sc, sc.t[v.tmpl].f, v.tmpl);
    break;
  }
  return v;
}
inline std::vector<V> random_values(Src &s, const Schema &sc, const std::vector<Field> &fs, int budget) {
  std::vector<V> r;
  // a nested message refers to an earlier template only
  for (auto &f : fs) r.push_back(random_value(s, sc, f, budget > 3 ? 3 : budget, f.ty == TREF ? std::max(0, std::min(budget, (int)sc.t.size())) : 0));
  return r;
}

enum Eq { EQ_NO, EQ_YES, EQ_OPEN };
inline Eq expect_eq(const Schema &sc, const std::vector<Field> &fs, const std::vector<V> &a, const std::vector<V> &b);
inline Eq expect_eq(const Schema &sc, const Field &f, const V &a, const V &b) {
  if (a.present != b.present) return EQ_NO;
  if (!a.present) return EQ_YES;
  switch (f.ty) {
  case GROUP: return expect_eq(sc, f.sub, a.sub, b.sub);
  case SEQ: {
    if (a.el.size() != b.el.size()) return EQ_NO;
    Eq r = EQ_YES;
    for (std::size_t k = 0; k < a.el.size(); ++k) {
      Eq e = expect_eq(sc, f.sub, a.el[k], b.el[k]);
      if (e == EQ_NO) return EQ_NO;
      if (e == EQ_OPEN) r = EQ_OPEN;
    }
    return r;
  }
  case TREF:
    if (a.tmpl != b.tmpl) return sc.t[a.tmpl].f.size() != sc.t[b.tmpl].f.size() ? EQ_NO : EQ_OPEN;
    return expect_eq(sc, sc.t[a.tmpl].f, a.sub, b.sub);
  case DEC:
    if (a.i == b.i && a.exp == b.exp) return EQ_YES;
    return a.exp == b.exp ? EQ_NO : EQ_OPEN; // (whether 10e0 is 1e1: not settled here)
  default: return a == b ? EQ_YES : EQ_NO;
  }
}
inline Eq expect_eq(const Schema &sc, const std::vector<Field> &fs, const std::vector<V> &a, const std::vector<V> &b) {
  Eq r = EQ_YES;
  for (std::size_t k = 0; k < fs.size(); ++k) {
    Eq e = expect_eq(sc, fs[k], a[k], b[k]);
    if (e == EQ_NO) return EQ_NO;
    if (e == EQ_OPEN) r = EQ_OPEN;
  }
  return r;
}
} // namespace vals
