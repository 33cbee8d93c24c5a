// C13: messages as values - copy, assignment, move, partial assignment and
// comparison against plain value trees.
// C15: sequences against a vector of elements.
#include "alloc_check.h"
#include "codec_common.h"
#include "values.h"
#include <mfast/arena_allocator.h>
#include <cstring>
#include <memory>
#include <mfast/sequence_type.h>
using namespace cc;
using namespace vals;
using namespace mfast;

namespace {
const uint64_t U32M = 0xffffffffull;
// a place in a message: fields of the message, of a group, an element or a
// nested message, with the values expected there
struct Agg {
  mfast::allocator *alloc;
  value_storage *st;
  const group_field_instruction *in;
  const std::vector<Field> *fs;
  std::vector<V> *vs;
  aggregate_mref m() const { return aggregate_mref(alloc, st, in); }
  aggregate_cref c() const { return aggregate_cref(st, in); }
};
struct Step { int field; std::size_t el; };

struct Slot {
  std::unique_ptr<message_type> m;
  int tmpl = -1; // -1: an empty message
  std::vector<V> v;
  mfast::allocator *alloc = nullptr;
  // memory fields of the message may refer to; it goes when the message goes
  std::vector<std::shared_ptr<char>> mem;
};

// set a field to refer to memory of exactly its size
inline void refer(Slot &x, const field_mref &fr, const Field &f, const V &v) {
  std::size_t n = is_ivec(f.ty) ? v.iv.size() * (f.ty == I32V || f.ty == U32V ? 4 : 8) : v.s.size();
  std::shared_ptr<char> p((char *)std::malloc(n ? n : 1), std::free);
  if (is_ivec(f.ty)) {
    for (std::size_t k = 0; k < v.iv.size(); ++k)
      if (f.ty == I32V || f.ty == U32V) ((uint32_t *)p.get())[k] = (uint32_t)v.iv[k];
      else ((uint64_t *)p.get())[k] = (uint64_t)v.iv[k];
  } else
    std::memcpy(p.get(), v.s.data(), n);
  x.mem.push_back(p);
  switch (f.ty) {
  case ASCII: ascii_string_mref(fr).refers_to(boost::string_ref(p.get(), n)); break;
  case UNI: unicode_string_mref(fr).refers_to(boost::string_ref(p.get(), n)); break;
  case BYTES: byte_vector_mref(fr).refers_to((const unsigned char *)p.get(), n); break;
  case I32V: int32_vector_mref(fr).refers_to((const int32_t *)p.get(), v.iv.size()); break;
  case U32V: uint32_vector_mref(fr).refers_to((const uint32_t *)p.get(), v.iv.size()); break;
  case I64V: int64_vector_mref(fr).refers_to((const int64_t *)p.get(), v.iv.size()); break;
  case U64V: uint64_vector_mref(fr).refers_to((const uint64_t *)p.get(), v.iv.size()); break;
  default: break;
  }
}

struct World {
  Src &s;
  Case &c;
  const Schema &sc;
  const br::Loaded &L;
  std::vector<mfast::allocator *> allocs;
  Slot slot[4];
  std::size_t ops = 0, copies = 0;

  const template_instruction *inst(int t) { return L.b.ti[t]; }
  void say(const std::string &x) { if (c.want_log) c.note(x); }
  Agg root(Slot &x) {
    message_mref r = x.m->ref();
    return Agg{x.alloc, aggregate_mref_core_access::storage_of(r), r.instruction(), &sc.t[x.tmpl].f, &x.v};
  }
  // follow one step; false if the place does not exist (absent, too short)
  bool enter(Agg &a, Step t) {
    const Field &f = (*a.fs)[(std::size_t)t.field];
    V &v = (*a.vs)[(std::size_t)t.field];
    if (!v.present) return false;
    field_mref fr = a.m()[(std::size_t)t.field];
    if (f.ty == GROUP) {
      group_mref g(fr);
      aggregate_mref m(g);
      a = Agg{a.alloc, aggregate_mref_core_access::storage_of(m), m.instruction(), &f.sub, &v.sub};
      return true;
    }
    if (f.ty == SEQ) {
      if (t.el >= v.el.size()) return false;
      sequence_mref q(fr);
      sequence_element_mref e(q[t.el]);
      a = Agg{a.alloc, aggregate_mref_core_access::storage_of(e), e.instruction(), &f.sub, &v.el[t.el]};
      return true;
    }
    if (f.ty == TREF) {
      nested_message_mref n(fr);
      message_mref m(n.target());
      a = Agg{a.alloc, aggregate_mref_core_access::storage_of(m), m.instruction(), &sc.t[v.tmpl].f, &v.sub};
      return true;
    }
    return false;
  }
  Agg walk(Slot &x, std::vector<Step> &path) {
    Agg a = root(x);
    for (int depth = 0; depth < 6; ++depth) {
      std::vector<Step> next;
      for (std::size_t k = 0; k < a.fs->size(); ++k) {
        const Field &f = (*a.fs)[k];
        V &v = (*a.vs)[k];
        if (!v.present) continue;
        if (f.ty == GROUP || f.ty == TREF) next.push_back(Step{(int)k, 0});
        if (f.ty == SEQ && v.el.size()) next.push_back(Step{(int)k, s.below(v.el.size())});
      }
      if (next.empty() || s.chance(1, 3)) break;
      Step t = s.pick(next);
      if (!enter(a, t)) throw pbt::Failure("internal: cannot enter");
      path.push_back(t);
    }
    return a;
  }
  std::string at(const std::vector<Step> &p) {
    std::string r;
    for (auto &t : p) r += ".f" + std::to_string(t.field) + "[" + std::to_string(t.el) + "]";
    return r;
  }

  void check(int k, const char *when) {
    Slot &x = slot[k];
    if (!x.m || x.tmpl < 0) return;
    std::vector<V> got;
    L.b.extract(x.m->cref(), sc.t[x.tmpl].f, got);
    if (!eqv(got, x.v))
      PBT_FAIL(when << ": message " << k << "\n expected " << show(sc.t[x.tmpl].f, x.v, sc) << "\n got      " << show(sc.t[x.tmpl].f, got, sc));
  }
  void compare(int a, int b) {
    Slot &x = slot[a], &y = slot[b];
    if (!x.m || x.tmpl < 0 || !y.m || y.tmpl < 0) return;
    bool e = false, f = false;
    br::must_not_throw([&] { e = aggregate_cref(x.m->cref()) == aggregate_cref(y.m->cref()); f = aggregate_cref(y.m->cref()) == aggregate_cref(x.m->cref()); }, "comparing");
    PBT_CHECK(e == f, "equality of messages " << a << " and " << b << " depends on the order");
    if (x.tmpl != y.tmpl) {
      if (sc.t[x.tmpl].f.size() != sc.t[y.tmpl].f.size()) PBT_CHECK(!e, "messages " << a << " and " << b << " of different templates are equal");
      return;
    }
    Eq q = expect_eq(sc, sc.t[x.tmpl].f, x.v, y.v);
    if (q != EQ_OPEN)
      PBT_CHECK(e == (q == EQ_YES), "messages " << a << " and " << b << " are " << (e ? "" : "not ") << "equal:\n " << show(sc.t[x.tmpl].f, x.v, sc) << "\n "
                                                << show(sc.t[y.tmpl].f, y.v, sc));
    if (q == EQ_YES) c.label("equal messages compared");
    // single fields
    const std::vector<Field> &fs = sc.t[x.tmpl].f;
    std::size_t k = s.below(fs.size());
    Eq fq = expect_eq(sc, fs[k], x.v[k], y.v[k]);
    br::must_not_throw([&] { e = x.m->cref()[k] == y.m->cref()[k]; }, "comparing fields");
    if (fq != EQ_OPEN) PBT_CHECK(e == (fq == EQ_YES), "field " << k << " of messages " << a << " and " << b << " is " << (e ? "" : "not ") << "equal");
  }
  void fresh(int k, int t) {
    Slot &x = slot[k];
    x.alloc = s.pick(allocs);
    x.tmpl = t;
    x.m.reset();
    x.mem.clear();
    x.m.reset(new message_type(x.alloc, inst(t)));
    x.v = initial_values(sc.t[t].f);
  }
  void refresh_same(Agg a, int t) { // rebinding gives initial values
    (void)a;
    (void)t;
  }
  void step() {
    int k = (int)s.below(4), j = (int)s.below(4);
    Slot &x = slot[k], &y = slot[j];
    std::string ks = "m" + std::to_string(k), js = "m" + std::to_string(j);
    switch (s.weighted({2, 4, 6, 3, 3, 2, 2, 1, 3, 4, 3, 2, 1, 1, 2})) {
    case 0: {
      int t = (int)s.below(sc.t.size());
      say(ks + " = new " + sc.t[t].name);
      fresh(k, t);
      break;
    }
    case 1: {
      if (!x.m || x.tmpl < 0) fresh(k, (int)s.below(sc.t.size()));
      x.v = random_values(s, sc, sc.t[x.tmpl].f, x.tmpl);
      say(ks + " filled: " + show(sc.t[x.tmpl].f, x.v, sc));
      L.b.fill(x.m->ref(), sc.t[x.tmpl].f, x.v);
      break;
    }
    case 2: { // one field
      if (!x.m || x.tmpl < 0) return;
      std::vector<Step> p;
      Agg a = walk(x, p);
      std::size_t i = s.below(a.fs->size());
      const Field &f = (*a.fs)[i];
      int budget = p.empty() ? x.tmpl : 0; // inside others: nested messages of template 0
      V v = random_value(s, sc, f, f.ty == TREF ? budget : 2, budget);
      say(ks + at(p) + "." + f.name + " = " + show(f, v, sc));
      std::vector<Field> one(1, f);
      field_mref fr = a.m()[i];
      bool foreign = (is_ivec(f.ty) || f.ty == ASCII || f.ty == UNI || f.ty == BYTES) && v.present && f.op.k != CONST && s.chance(1, 3);
      if (foreign) {
        say("  (refers to other memory)");
        refer(x, fr, f, v);
      } else if (is_scalar(f.ty) || is_ivec(f.ty)) br::fill_field(fr, f, v, L.b.ti);
      else if (f.ty == GROUP) {
        if (!v.present) group_mref(fr).omit();
        else L.b.fill(aggregate_mref(group_mref(fr)), f.sub, v.sub);
      } else if (f.ty == SEQ) {
        sequence_mref q(fr);
        if (!v.present) q.omit();
        else {
          q.resize(v.el.size());
          for (std::size_t e = 0; e < v.el.size(); ++e) L.b.fill(q[e], f.sub, v.el[e]);
        }
      } else {
        nested_message_mref n(fr);
        L.b.fill(n.rebind(inst(v.tmpl)), sc.t[v.tmpl].f, v.sub);
      }
      (*a.vs)[i] = v;
      break;
    }
    case 3: case 4: { // copies
      if (!y.m) return;
      ++copies;
      bool with_alloc = y.tmpl >= 0 && s.coin();
      say(ks + " = copy of " + js + (with_alloc ? " with an allocator" : ""));
      std::unique_ptr<message_type> n;
      mfast::allocator *al = y.alloc;
      if (with_alloc) {
        al = s.pick(allocs);
        n.reset(new message_type(y.m->cref(), al));
      } else
        n.reset(new message_type(*y.m));
      std::vector<V> v = y.v;
      int t = y.tmpl;
      x.m = std::move(n);
      x.mem.clear();
      x.v = v;
      x.tmpl = t;
      x.alloc = al;
      break;
    }
    case 5: // copy assignment
      if (!x.m || !y.m) return;
      ++copies;
      say(ks + " = " + js + " (assignment)");
      *x.m = *y.m;
      if (k != j) x.mem.clear();
      x.tmpl = y.tmpl; x.v = y.v; x.alloc = y.alloc;
      break;
    case 6: // move
      if (!y.m || j == k) return;
      say(ks + " = move(" + js + ")");
      if (x.m && s.coin()) *x.m = std::move(*y.m);
      else x.m.reset(new message_type(std::move(*y.m)));
      x.mem.insert(x.mem.end(), y.mem.begin(), y.mem.end());
      y.mem = x.mem;
      x.tmpl = y.tmpl; x.v = std::move(y.v); x.alloc = y.alloc;
      y.tmpl = -1; y.v.clear();
      break;
    case 7:
      say("swap " + ks + " and " + js);
      if (!x.m || !y.m || k == j) return;
      std::swap(*x.m, *y.m);
      std::swap(x.tmpl, y.tmpl); std::swap(x.v, y.v); std::swap(x.alloc, y.alloc); std::swap(x.mem, y.mem);
      break;
    case 8: { // whole message by reference
      if (!x.m || !y.m || x.tmpl < 0 || x.tmpl != y.tmpl) return;
      ++copies;
      say(ks + ".ref().as(" + js + ")");
      x.m->ref().as(y.m->cref());
      x.v = y.v;
      break;
    }
    case 9: case 10: { // a part: group, element, nested message or sequence
      if (!x.m || !y.m || x.tmpl < 0 || x.tmpl != y.tmpl) return;
      std::vector<Step> p;
      Agg a = walk(y, p);
      Agg b = root(x);
      Agg u = root(y);
      for (auto &t : p) if (!enter(b, t) || !enter(u, t) || b.in != u.in) return; // (nested messages of different templates)
      std::vector<std::size_t> seqs;
      for (std::size_t i = 0; i < a.fs->size(); ++i) if ((*a.fs)[i].ty == SEQ) seqs.push_back(i);
      if (seqs.size() && s.coin()) {
        std::size_t i = s.pick(seqs);
        V &va = (*a.vs)[i], &vb = (*b.vs)[i];
        sequence_mref qa(a.m()[i]), qb(b.m()[i]);
        unsigned how = (unsigned)s.below(3);
        say(ks + at(p) + "." + (*a.fs)[i].name + (how == 0 ? ".as " : how == 1 ? ".assign " : ".swap ") + js);
        if (how == 0) {
          qb.as(sequence_cref(a.c()[i]));
          vb = va;
        } else if (how == 1) {
          if (!va.present) return;
          qb.as(qa);
          vb = va;
        } else {
          if (a.alloc != b.alloc) return;
          qb.swap(qa);
          if (k != j) {
            std::swap(va, vb);
            x.mem.insert(x.mem.end(), y.mem.begin(), y.mem.end());
            y.mem = x.mem;
          }
        }
      } else {
        say(ks + at(p) + ".as(" + js + at(p) + ")");
        b.m().as(a.c());
        *b.vs = *a.vs;
      }
      ++copies;
      break;
    }
    case 11: { // rebind a nested message
      if (!x.m || x.tmpl <= 0) return;
      std::vector<std::size_t> refs;
      for (std::size_t i = 0; i < sc.t[x.tmpl].f.size(); ++i) if (sc.t[x.tmpl].f[i].ty == TREF) refs.push_back(i);
      if (refs.empty()) return;
      std::size_t i = s.pick(refs);
      int t = (int)s.below((std::size_t)x.tmpl);
      say(ks + ".f" + std::to_string(i) + ".rebind(" + sc.t[t].name + ")");
      nested_message_mref n(x.m->ref()[i]);
      n.rebind(inst(t));
      V &v = x.v[i];
      if (v.present && v.tmpl == t) break; // keeps its value
      v = V();
      v.present = true;
      v.tmpl = t;
      v.sub = initial_values(sc.t[t].f);
      break;
    }
    case 12: say("destroy " + ks); x.m.reset(); x.mem.clear(); x.tmpl = -1; break;
    case 13:
      say(ks + " = empty message");
      x.m.reset(new message_type());
      x.mem.clear();
      x.tmpl = -1;
      x.alloc = nullptr;
      break;
    default:
      compare(k, j);
      compare(k, k);
      return;
    }
    ++ops;
    for (int i = 0; i < 4; ++i) check(i, "after this operation");
    if (s.chance(1, 3)) compare(k, j);
  }
};

void c13(Src &s, Case &c) {
  GenOpt go;
  go.max_fields = 5;
  go.wide_den = 0;
  SchemaGen g(s, go);
  Schema sc = g.gen();
  c.mix(schema_xml(sc));
  if (c.want_log) c.note(schema_xml(sc));
  br::Loaded L(sc);
  arena_allocator arena;
  checked_allocator mal;
  mal.slack = (unsigned)s.pick(std::vector<int>{0, 1, 64, 200});
  World w{s, c, sc, L, {&mal, malloc_allocator::instance(), &arena}, {}};
  int t0 = (int)(sc.t.size() - 1 - s.below(sc.t.size()));
  for (int k = 0; k < 3; ++k) w.fresh(k, k < 2 ? t0 : (int)s.below(sc.t.size()));
  if (c.want_log) c.note("m0 and m1 are new " + sc.t[t0].name + ", m2 is a new " + sc.t[w.slot[2].tmpl].name);
  for (int k = 0; k < 3; ++k) w.check(k, "a new message");
  std::size_t n = (std::size_t)s.range(1, 24);
  for (std::size_t k = 0; k < n; ++k) w.step();
  for (int a = 0; a < 4; ++a)
    for (int b = 0; b < 4; ++b) w.compare(a, b);
  for (int a = 0; a < 4; ++a)
    if (w.slot[a].m && w.slot[a].tmpl >= 0) c.mix(show(sc.t[w.slot[a].tmpl].f, w.slot[a].v, sc));
  c.sub = w.ops;
  c.nontrivial = w.copies >= 1 && w.ops >= 4;
  mal.check(nullptr);
  for (int a = 0; a < 4; ++a) w.slot[a].m.reset();
  mal.check("after all messages are destroyed");
}

// ---------------------------------------------------------------- sequences
struct Elem { bool known; std::vector<V> v; };
struct SeqModel {
  bool present = true;
  std::vector<Elem> el;
  std::size_t exposed = 0; // elements beyond have never been part of the sequence
};
struct SeqWorld {
  Src &s;
  Case &c;
  const Schema &sc;
  const br::Loaded &L;
  const Field &f;
  message_type *m[2];
  std::unique_ptr<sequence_type> alone;
  SeqModel q[3];
  std::size_t ops = 0, grown = 0;
  void say(const std::string &x) { if (c.want_log) c.note(x); }
  sequence_mref mref(int k) {
    if (k == 2) return alone->ref();
    return sequence_mref(m[k]->ref()[0]);
  }
  sequence_cref cref(int k) {
    if (k == 2) return alone->cref();
    return sequence_cref(m[k]->cref()[0]);
  }
  std::vector<V> values(const aggregate_cref &e) {
    std::vector<V> r;
    L.b.extract(e, f.sub, r);
    return r;
  }
  void check_el(int k, std::size_t i, const aggregate_cref &e, const char *how) {
    std::vector<V> r = values(e);
    if (!q[k].el[i].known) return;
    if (!eqv(r, q[k].el[i].v))
      PBT_FAIL("element " << i << " of s" << k << " (" << how << ") is " << show(f.sub, r, sc) << ", expected " << show(f.sub, q[k].el[i].v, sc));
  }
  void check(int k) {
    SeqModel &x = q[k];
    sequence_cref r(cref(k));
    std::size_t n = x.el.size();
    PBT_CHECK(r.present() == x.present, "s" << k << " is " << (x.present ? "absent" : "present"));
    PBT_CHECK(r.size() == n && r.length() == n, "s" << k << " has " << r.size() << " elements, not " << n);
    if (!n) {
      PBT_CHECK(r.begin() == r.end() && r.rbegin() == r.rend(), "iterators of an empty sequence");
      return;
    }
    unsigned how = (unsigned)s.below(7);
    std::size_t i = 0;
    switch (how) {
    case 0: for (; i < n; ++i) check_el(k, i, r[i], "[]"); break;
    case 1: for (auto it = r.begin(); it != r.end(); ++it) check_el(k, i++, *it, "iterator"); PBT_CHECK(i == n, "iterated over " << i); break;
    case 2: for (auto it = r.rbegin(); it != r.rend(); ++it, ++i) check_el(k, n - 1 - i, *it, "reverse iterator"); PBT_CHECK(i == n, "iterated over " << i); break;
    case 3: for (auto it = r.crbegin(); it != r.crend(); ++it, ++i) check_el(k, n - 1 - i, *it, "constant reverse iterator"); PBT_CHECK(i == n, "iterated over " << i); break;
    case 4: {
      sequence_mref w(mref(k));
      for (auto it = w.begin(); it != w.end(); ++it) check_el(k, i++, *it, "mutable iterator");
      PBT_CHECK(i == n, "iterated over " << i);
      for (auto it = w.rbegin(); it != w.rend(); ++it) check_el(k, --i, *it, "mutable reverse iterator");
      break;
    }
    case 5: {
      auto it = r.cbegin();
      std::size_t p = s.below(n);
      it += (std::ptrdiff_t)p;
      check_el(k, p, *it, "iterator +=");
      PBT_CHECK((std::size_t)(r.cend() - it) == n - p && (std::size_t)(it - r.cbegin()) == p, "iterator difference");
      ++it;
      --it;
      check_el(k, p, *it, "iterator -");
      check_el(k, p, *(r.end() - (std::ptrdiff_t)(n - p)), "iterator from the end");
      break;
    }
    default: check_el(k, 0, r.front(), "front"); check_el(k, n - 1, r.back(), "back"); check_el(k, 0, mref(k).front(), "front"); check_el(k, n - 1, mref(k).back(), "back");
    }
  }
  void model_resize(int k, std::size_t n) {
    SeqModel &x = q[k];
    if (n > x.el.size()) ++grown;
    while (x.el.size() > n) x.el.pop_back();
    while (x.el.size() < n) {
      std::size_t i = x.el.size();
      Elem e;
      e.known = i >= x.exposed; // what an element that was cut off holds is left open
      e.v = initial_values(f.sub);
      x.el.push_back(e);
    }
    x.exposed = std::max(x.exposed, n);
    x.present = true;
  }
  void set(int k, std::size_t i) {
    Elem &e = q[k].el[i];
    if (e.known && s.chance(1, 3)) { // a single field
      std::size_t j = s.below(f.sub.size());
      const Field &g = f.sub[j];
      if (is_scalar(g.ty) || is_ivec(g.ty)) {
        V v = random_value(s, sc, g, 0, 0);
        say("s" + std::to_string(k) + "[" + std::to_string(i) + "]." + g.name + " = " + show(g, v, sc));
        br::fill_field(mref(k)[i][j], g, v, L.b.ti);
        e.v[j] = v;
        return;
      }
    }
    e.v = random_values(s, sc, f.sub, 2);
    e.known = true;
    say("s" + std::to_string(k) + "[" + std::to_string(i) + "] = " + show(f.sub, e.v, sc));
    L.b.fill(mref(k)[i], f.sub, e.v);
  }
  void step() {
    int k = (int)s.below(3), j = (int)s.below(3);
    SeqModel &x = q[k], &y = q[j];
    std::string ks = "s" + std::to_string(k);
    unsigned op = s.weighted({5, 3, 6, 2, 1, 2, 2, 2, 1, 2, 1});
    std::size_t n = s.chance(1, 6) ? s.below(40) : s.below(6);
    switch (op) {
    case 0: say(ks + ".resize(" + std::to_string(n) + ")"); mref(k).resize(n); model_resize(k, n); break;
    case 1: {
      say(ks + ".grow_by(" + std::to_string(n) + ")");
      std::size_t old = x.el.size();
      sequence_mref r(mref(k));
      auto it = r.grow_by(n);
      PBT_CHECK((std::size_t)(it - r.begin()) == old, "grow_by returns the element " << it - r.begin());
      model_resize(k, old + n);
      break;
    }
    case 2: if (x.el.empty()) return; set(k, s.below(x.el.size())); break;
    case 3: // all elements
      for (std::size_t i = 0; i < x.el.size() && i < 8; ++i) set(k, i);
      break;
    case 4:
      say(ks + ".reserve(" + std::to_string(n) + ")");
      mref(k).reserve(n);
      break;
    case 5:
      say(ks + ".clear()");
      mref(k).clear();
      x.el.clear();
      if (f.opt) x.present = false;
      break;
    case 6:
      say(ks + ".omit()");
      mref(k).omit();
      if (f.opt) { x.el.clear(); x.present = false; }
      break;
    case 7: case 8: {
      say(ks + ".as(s" + std::to_string(j) + ")");
      bool range = op == 8 && y.present;
      if (range) mref(k).as(mref(j));
      else mref(k).as(cref(j));
      std::vector<Elem> e = y.el;
      bool pres = y.present;
      std::size_t was = x.exposed;
      x = SeqModel();
      x.el = e;
      x.present = pres;
      x.exposed = range ? std::max(was, e.size()) : k == j ? std::max(was, e.size()) : e.size();
      x.present = y.present;
      break;
    }
    case 9:
      say(ks + ".swap(s" + std::to_string(j) + ")");
      mref(k).swap(mref(j));
      if (k != j) std::swap(x, y);
      break;
    default:
      say("s2 = copy of " + ks);
      if (k == 2) return;
      {
        std::unique_ptr<sequence_type> t(new sequence_type(cref(k), alone->allocator()));
        if (s.coin()) alone = std::move(t);
        else *alone = std::move(*t);
      }
      q[2] = q[k];
      q[2].exposed = q[2].el.size();
    }
    ++ops;
    check(k);
    if (j != k) check(j);
  }
};
void c15(Src &s, Case &c) {
  GenOpt go;
  go.max_fields = 4;
  go.max_depth = 2;
  go.wide_den = 0;
  go.max_templates = 2;
  SchemaGen g(s, go);
  Schema sc = g.gen();
  // the sequence: the elements are the fields of the last template
  Template t;
  t.name = "S";
  t.id = 900000;
  Field f;
  f.ty = SEQ;
  f.name = "seq";
  f.opt = s.coin();
  f.sub = sc.t.back().f;
  if (s.coin()) {
    f.len_elem = true;
    f.len_op.k = s.pick(std::vector<OpK>{NONE, DEFAULT, CONST});
    f.len_op.has_init = f.len_op.k == CONST || f.len_op.k == DEFAULT;
    f.len_op.init.i = s.range(0, 3);
  }
  t.f.push_back(f);
  sc.t.push_back(t);
  SchemaGen::resolve(sc);
  c.mix(schema_xml(sc));
  if (c.want_log) c.note(schema_xml(sc));
  br::Loaded L(sc);
  checked_allocator mal;
  mal.slack = (unsigned)s.pick(std::vector<int>{0, 1, 64, 200});
  arena_allocator arena;
  unsigned al = (unsigned)s.below(4);
  allocator *a = al == 0 ? (allocator *)malloc_allocator::instance() : al == 1 ? (allocator *)&arena : (allocator *)&mal;
  {
    message_type m0(a, L.b.ti.back()), m1(a, L.b.ti.back());
    SeqWorld w{s, c, sc, L, sc.t.back().f[0], {&m0, &m1}, nullptr, {}};
    w.alone.reset(new sequence_type(a, static_cast<const sequence_field_instruction *>(L.b.ti.back()->subinstruction(0))));
    for (int k = 0; k < 3; ++k) {
      V v = initial_value(w.f);
      w.q[k].present = v.present;
      for (auto &e : v.el) w.q[k].el.push_back(Elem{true, e});
      w.q[k].exposed = v.el.size();
      w.check(k);
    }
    std::size_t n = (std::size_t)s.range(1, 24);
    for (std::size_t k = 0; k < n; ++k) w.step();
    for (int k = 0; k < 3; ++k) {
      w.check(k);
      for (auto &e : w.q[k].el) c.mix(show(w.f.sub, e.v, sc));
    }
    c.sub = w.ops;
    c.nontrivial = w.ops >= 4 && w.grown >= 2;
  }
  mal.check("after all sequences are destroyed");
}
} // namespace
PBT_PROPERTY("C13.messages",
             "random template sets and histories of 1-24 operations on four messages (construct, fill, set or omit one field at any depth, copy, assign, "
             "move, swap, assignment of whole messages, groups, elements, sequences and nested messages by reference, rebind, compare, destroy; malloc and arena "
             "memory), every message compared with its value tree after every operation; non-trivial = at least one copy and four operations",
             c13, 24000, 700000)
PBT_PROPERTY("C15.sequences",
             "random element types (fields of any type, groups, nested sequences and messages, initial values) and histories of 1-24 operations on two sequence "
             "fields and a stand-alone sequence (resize, grow_by, reserve, clear, omit, set an element or a field of it, as, swap, copy; malloc, arena and "
             "checked allocators), compared with a vector of value trees through one of seven kinds of access after each operation; non-trivial = at least "
             "four operations that grew a sequence twice", c15, 24000, 700000)
