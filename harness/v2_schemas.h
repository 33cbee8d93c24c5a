// The template sets for which C++ types are generated: a function of the seed,
// shared by the program that writes the XML files and by the driver.
#pragma once
#include "model.h"
namespace v2s {
using namespace fm;

inline void add_combo(std::vector<Field> &out, Ty ty, OpK k, bool opt, bool init, Src &s) {
  Field f;
  f.ty = ty;
  f.opt = opt;
  if (ty == ENUM) f.elems = {{"E0", 0}, {"E1", 1}, {"E2", 5}};
  f.op.k = k;
  f.op.has_init = init;
  if (init) f.op.init = gen_init(s, ty, f);
  out.push_back(f);
}
// every type x operator x presence x initial value
inline std::vector<Field> all_combos(Src &s) {
  std::vector<Field> r;
  for (Ty ty : {I32, U32, I64, U64, DEC, ASCII, UNI, BYTES, ENUM})
    for (OpK k : {NONE, CONST, DEFAULT, COPY, INC, DELTA, TAIL})
      for (int opt = 0; opt < 2; ++opt)
        for (int init = 0; init < 2; ++init) {
          if (k == NONE && init) continue;
          if (k == CONST && !init) continue;
          if (k == DEFAULT && !opt && !init) continue;
          if (k == INC && !(is_int(ty) && ty != ENUM)) continue;
          if (k == DELTA && ty == ENUM) continue;
          if (k == TAIL && !is_str(ty)) continue;
          add_combo(r, ty, k, opt, init, s);
        }
  for (OpK e : {NONE, CONST, DEFAULT, COPY, INC, DELTA})
    for (OpK m : {NONE, CONST, DEFAULT, COPY, INC, DELTA}) {
      Field f;
      f.ty = DEC;
      f.split = true;
      f.opt = s.coin();
      f.op.k = e;
      f.op.has_init = e == CONST || (e == DEFAULT && !f.opt) || (e != NONE && s.coin());
      if (f.op.has_init) f.op.init.exp = (int)s.range(-8, 8), f.op.init.i = f.op.init.exp;
      f.mop.k = m;
      f.mop.has_init = m == CONST || m == DEFAULT || (m != NONE && s.coin());
      if (f.mop.has_init) f.mop.init.i = gen_int(s, I64);
      r.push_back(f);
    }
  for (Ty ty : {I32V, U32V, I64V, U64V})
    for (int opt = 0; opt < 2; ++opt) add_combo(r, ty, NONE, opt, false, s);
  for (OpK k : {NONE, CONST, DEFAULT, COPY, INC, DELTA})
    for (int opt = 0; opt < 2; ++opt) {
      Field f;
      f.ty = SEQ;
      f.opt = opt;
      f.len_elem = k != NONE || s.coin();
      f.len_op.k = k;
      f.len_op.has_init = k == CONST || (k == DEFAULT && !opt) || (k != NONE && s.coin());
      if (f.len_op.has_init) f.len_op.init.i = s.range(1, 3);
      r.push_back(f);
    }
  return r;
}
inline void name_fields(std::vector<Field> &fs) {
  for (std::size_t k = 0; k < fs.size(); ++k) {
    fs[k].name = "f" + std::to_string(k);
    if (fs[k].ty == SEQ && fs[k].len_elem && fs[k].len_op.k != NONE) fs[k].len_name = "len" + std::to_string(k);
  }
}
static const unsigned SYSTEMATIC = 6; // the first schemas cover all_combos together

inline Schema schema(uint64_t seed, unsigned k) {
  if (k < SYSTEMATIC) {
    Src s(seed * 7919 + 17);
    std::vector<Field> all = all_combos(s);
    for (std::size_t i = all.size(); i > 1; --i) std::swap(all[i - 1], all[s.below(i)]);
    Schema sc;
    std::size_t lo = all.size() * k / SYSTEMATIC, hi = all.size() * (k + 1) / SYSTEMATIC, n = lo;
    Src s2(seed * 7919 + 100 + k);
    for (int t = 0; t < 3; ++t) {
      Template tp;
      tp.name = "T" + std::to_string(t);
      tp.id = t == 0 ? 1 : t == 1 ? 130 : 20000;
      std::size_t end = lo + (hi - lo) * (t + 1) / 3;
      // top level, a group and the elements of a sequence take turns
      Field g, q;
      g.ty = GROUP;
      g.opt = s2.coin();
      q.ty = SEQ;
      q.opt = s2.coin();
      int i = 0;
      for (; n < end; ++n, ++i) {
        Field f = all[n];
        if (f.ty == SEQ) {
          Field c;
          add_combo(f.sub, U32, s2.coin() ? COPY : NONE, true, false, s2);
          add_combo(f.sub, ASCII, s2.coin() ? DELTA : COPY, false, true, s2);
          name_fields(f.sub);
        }
        (i % 3 == 0 ? tp.f : i % 3 == 1 ? g.sub : q.sub).push_back(f);
      }
      name_fields(g.sub);
      name_fields(q.sub);
      tp.f.insert(tp.f.begin() + (long)s2.below(tp.f.size() + 1), g);
      tp.f.insert(tp.f.begin() + (long)s2.below(tp.f.size() + 1), q);
      name_fields(tp.f);
      // names are not shared between levels, so that delta fields never meet an
      // entry that another field emptied
      for (std::size_t a = 0; a < tp.f.size(); ++a) {
        std::string p = "t" + std::to_string(t) + "_";
        tp.f[a].name = p + tp.f[a].name;
        if (!tp.f[a].len_name.empty()) tp.f[a].len_name = p + tp.f[a].len_name;
        if (tp.f[a].sub.size())
          for (auto &x : tp.f[a].sub) {
            x.name = tp.f[a].name + x.name;
            if (!x.len_name.empty()) x.len_name = tp.f[a].name + x.len_name;
            for (auto &y : x.sub) y.name = x.name + y.name;
          }
      }
      sc.t.push_back(tp);
    }
    SchemaGen::resolve(sc);
    return sc;
  }
  Src s(seed * 7919 + 1000 + k);
  GenOpt go;
  go.max_templates = 4;
  go.max_fields = 6;
  go.distinct_aggregates = true;
  go.no_empty_elements = true;
  go.wide_den = k == SYSTEMATIC ? 1 : 0; // (they take long to compile)
  if (go.wide_den) go.max_templates = 1;
  SchemaGen g(s, go);
  return g.gen();
}
} // namespace v2s
