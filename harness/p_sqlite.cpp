// C23: after inserting messages the tables hold exactly the rows a reference
// model of the export builds.
#include "codec_common.h"
#include "values.h"
#include <mfast/sqlite3/converter.h>
#include <sqlite3.h>
#include <cmath>
#include <dirent.h>
#include <unistd.h>
using namespace cc;
using namespace mfast;

// durability isn't the subject
extern "C" int fsync(int) { return 0; }
extern "C" int fdatasync(int) { return 0; }

namespace {
enum { SKIP = 1, KEY = 2, ORDERED = 4 };

struct Cell {
  char kind = 'n'; // n(ull) i(nt) d(ouble) t(ext) b(lob)
  int64_t i = 0;
  double d = 0;
  std::string s;
  bool operator==(const Cell &o) const {
    if (kind != o.kind) return false;
    if (kind == 'i') return i == o.i;
    if (kind == 'd') return d == o.d || std::fabs(d - o.d) <= 1e-12 * std::max(std::fabs(d), std::fabs(o.d));
    return kind == 'n' || s == o.s;
  }
};
std::string show(const Cell &c) {
  std::ostringstream o;
  o.precision(17);
  if (c.kind == 'n') return "NULL";
  if (c.kind == 'i') o << c.i;
  else if (c.kind == 'd') o << c.d;
  else o << (c.kind == 't' ? "text " : "blob ") << quoted(c.s);
  return o.str();
}
typedef std::vector<Cell> Row;
std::string show(const Row &r) {
  std::string o = "(";
  for (auto &c : r) o += (o.size() > 1 ? ", " : "") + show(c);
  return o + ")";
}
struct Table {
  std::vector<std::string> cols;
  std::vector<Row> rows;
  int key = -1;       // column with a primary key
  bool dedup = false; // a row that is there already is referred to
};

bool tpl_field(const Field &f) { return (f.ty == GROUP || f.ty == SEQ) && f.sub.size() && f.sub[0].tpl_inline >= 0; }
bool skipped(const Field &f) { return f.tag & SKIP; }
bool const_exp(const Field &f) { return f.split && f.op.k == CONST; }

Cell cell(const Field &f, const V &v) {
  Cell c;
  if (!v.present) return c;
  switch (f.ty) {
  case DEC:
    if (const_exp(f)) { c.kind = 'i'; c.i = v.i; break; }
    c.kind = 'd';
    c.d = std::pow(10, v.exp) * (double)v.i;
    break;
  case ASCII: case UNI: c.kind = 't'; c.s = v.s; break;
  case BYTES: c.kind = 'b'; c.s = v.s; break;
  default: c.kind = 'i'; c.i = v.i;
  }
  return c;
}

struct Model {
  const Schema &sc;
  std::map<std::string, Table> db;
  explicit Model(const Schema &s) : sc(s) {}

  int key_field(const std::vector<Field> &fs) const {
    for (std::size_t k = 0; k < fs.size(); ++k)
      if ((fs[k].tag & KEY) && !skipped(fs[k])) return (int)k;
    return -1;
  }
  std::string key_name(const Template &t) const { int k = key_field(t.f); return k < 0 ? "rowid" : t.f[(std::size_t)k].name; }
  void columns(const std::vector<Field> &fs, Table &t) const {
    for (auto &f : fs) {
      if (skipped(f)) continue;
      if (f.ty == SEQ) {
        if (tpl_field(f)) {
          const Template &e = sc.t[(std::size_t)f.sub[0].tpl_inline];
          t.cols.push_back(e.name + key_name(e));
        } else
          columns(f.sub, t);
        if (f.tag & ORDERED) t.cols.push_back("ordering");
      } else if (f.ty == GROUP) {
        if (!tpl_field(f)) columns(f.sub, t);
      } else {
        if (f.tag & KEY) t.key = (int)t.cols.size();
        t.cols.push_back(f.name);
      }
    }
  }
  void create(const Template &t, const Template *parent, bool dedup) {
    Table &n = db[t.name];
    if (parent) n.cols.push_back(parent->name + key_name(*parent));
    columns(t.f, n);
    n.dedup = dedup && n.key < 0;
    subtables(t.f, t);
  }
  void subtables(const std::vector<Field> &fs, const Template &t) {
    for (auto &f : fs) {
      if (skipped(f)) continue;
      if (tpl_field(f)) create(sc.t[(std::size_t)f.sub[0].tpl_inline], f.ty == GROUP ? &t : nullptr, f.ty == SEQ);
      else if (f.ty == GROUP) subtables(f.sub, t);
    }
  }
  // the columns of some fields, those of a sequence being at
  void cells(const std::vector<Field> &fs, const std::vector<V> *vs, Row &r, std::size_t *seq_at) const {
    for (std::size_t k = 0; k < fs.size(); ++k) {
      const Field &f = fs[k];
      if (skipped(f)) continue;
      static const V none;
      const V &v = vs ? (*vs)[k] : none;
      if (f.ty == SEQ) {
        if (seq_at) *seq_at = r.size();
        if (tpl_field(f)) r.push_back(Cell());
        else cells(f.sub, nullptr, r, nullptr);
        if (f.tag & ORDERED) r.push_back(Cell());
      } else if (f.ty == GROUP) {
        if (!tpl_field(f)) cells(f.sub, v.present ? &v.sub : nullptr, r, nullptr);
      } else
        r.push_back(cell(f, v));
    }
  }
  // false if the primary key is there already
  bool put(Table &t, const Row &r, int64_t &rowid) {
    if (t.dedup) {
      bool nulls = false;
      for (auto &c : r) nulls = nulls || c.kind == 'n';
      for (std::size_t k = 0; k < t.rows.size() && !nulls; ++k)
        if (t.rows[k] == r) { rowid = (int64_t)k + 1; return true; }
    }
    if (t.key >= 0)
      for (auto &x : t.rows)
        if (x[(std::size_t)t.key] == r[(std::size_t)t.key]) return false;
    t.rows.push_back(r);
    rowid = (int64_t)t.rows.size();
    return true;
  }
  bool insert(const Template &t, const std::vector<V> &vs, const Cell *parent, Cell &key) {
    Table &tab = db[t.name];
    Row r;
    if (parent) r.push_back(*parent);
    std::size_t at = (std::size_t)-1;
    cells(t.f, &vs, r, &at);
    int64_t rowid = 0;
    const Field *sf = nullptr;
    const V *sv = nullptr;
    for (std::size_t k = 0; k < t.f.size(); ++k)
      if (t.f[k].ty == SEQ && !skipped(t.f[k])) { sf = &t.f[k]; sv = &vs[k]; }
    if (sf && sv->present && !sv->el.empty()) {
      for (std::size_t e = 0; e < sv->el.size(); ++e) {
        Row x(r.begin(), r.begin() + (long)at), y;
        if (tpl_field(*sf)) {
          Cell ek;
          if (!insert(sc.t[(std::size_t)sf->sub[0].tpl_inline], sv->el[e], nullptr, ek)) return false;
          y.push_back(ek);
        } else
          cells(sf->sub, &sv->el[e], y, nullptr);
        if (sf->tag & ORDERED) { Cell o; o.kind = 'i'; o.i = (int64_t)e; y.push_back(o); }
        x.insert(x.end(), y.begin(), y.end());
        x.insert(x.end(), r.begin() + (long)(at + y.size()), r.end());
        if (!put(tab, x, rowid)) return false;
      }
    } else if (!put(tab, r, rowid))
      return false;
    key = Cell();
    key.kind = 'i';
    key.i = rowid;
    int kf = key_field(t.f);
    if (kf >= 0) key = cell(t.f[(std::size_t)kf], vs[(std::size_t)kf]);
    return children(t.f, vs, key);
  }
  bool children(const std::vector<Field> &fs, const std::vector<V> &vs, const Cell &key) {
    for (std::size_t k = 0; k < fs.size(); ++k) {
      const Field &f = fs[k];
      if (skipped(f) || f.ty != GROUP || !vs[k].present) continue;
      Cell x;
      if (tpl_field(f)) {
        if (!insert(sc.t[(std::size_t)f.sub[0].tpl_inline], vs[k].sub, &key, x)) return false;
      } else if (!children(f.sub, vs[k].sub, key))
        return false;
    }
    return true;
  }
};

struct Gen {
  Src &s;
  Schema sc;
  int serial = 0;
  bool seqs = false, groups = false, keys = false;
  explicit Gen(Src &src) : s(src) {}

  Field scalar() {
    Field f;
    f.ty = s.pick(std::vector<Ty>{I32, U32, I64, U64, DEC, ASCII, UNI, BYTES, ENUM});
    f.name = "f" + std::to_string(serial++);
    f.opt = s.chance(2, 5);
    if (f.ty == DEC && s.coin()) {
      f.split = true;
      if (s.coin()) { f.op.k = CONST; f.op.has_init = true; f.op.init.exp = (int)s.range(-8, 8); }
      else if (s.coin()) f.op.k = COPY;
    }
    if (f.ty == ENUM) {
      f.boolean = s.chance(1, 4);
      f.elems = {{"false", 0}, {"true", 1}};
      if (!f.boolean) {
        f.elems.clear();
        uint64_t v = 0;
        for (unsigned k = 0, n = (unsigned)s.range(1, 4); k < n; ++k) {
          f.elems.push_back({"e" + std::to_string(k), v});
          v += 1 + (s.coin() ? s.below(1000) : s.coin() ? s.below(1ull << 40) : 0);
        }
      }
    }
    if (!f.split && f.ty != ENUM && s.chance(1, 8)) {
      f.op.k = s.coin() ? CONST : COPY;
      f.op.has_init = f.op.k == CONST || s.coin();
      if (f.op.has_init) f.op.init = gen_init(s, f.ty, f);
    }
    if (s.chance(1, 10)) f.tag = SKIP;
    f.tag |= s.chance(1, 8) ? 8 * s.below(100) : 0;
    return f;
  }
  // depth of plain groups; tops: template groups may follow
  std::vector<Field> fields(unsigned lo, unsigned hi, unsigned depth) {
    std::vector<Field> r;
    for (unsigned k = 0, n = (unsigned)s.range(lo, hi); k < n; ++k) {
      if (depth && s.chance(1, 6)) {
        Field g;
        g.ty = GROUP;
        g.name = "g" + std::to_string(serial++);
        g.opt = s.coin();
        g.sub = fields(1, 3, depth - 1);
        if (s.chance(1, 10)) g.tag = SKIP;
        r.push_back(g);
      } else
        r.push_back(scalar());
    }
    return r;
  }
  Field ref_to(int ti, Ty ty) {
    Field g;
    g.ty = ty;
    g.name = "r" + std::to_string(serial++);
    g.opt = s.coin();
    g.sub = sc.t[(std::size_t)ti].f;
    for (std::size_t k = 0; k < g.sub.size(); ++k) { g.sub[k].tpl_inline = ti; g.sub[k].inline_first = k == 0; }
    return g;
  }
  void insert_at(std::vector<Field> &fs, std::size_t lo, const Field &f) { fs.insert(fs.begin() + (long)(lo + s.below(fs.size() - lo + 1)), f); }
  // kind 0: stands alone or in a group, 1: an element of a sequence
  int make(int kind, unsigned depth) {
    std::vector<Field> fs = fields(1, 6, 2);
    Field first = scalar(); // at least one column
    first.tag = 0;
    fs.insert(fs.begin() + (long)s.below(fs.size() + 1), first);
    std::size_t lo = 0;
    bool seq = kind == 0 && s.chance(2, 5);
    if (!seq && s.chance(1, 3)) {
      Field k;
      k.ty = s.pick(std::vector<Ty>{I32, U32, I64, U64, BYTES});
      k.name = "k" + std::to_string(serial++);
      k.tag = KEY;
      std::size_t at = s.below(fs.size() + 1);
      fs.insert(fs.begin() + (long)at, k);
      lo = at + 1;
      keys = true;
    }
    if (kind == 0 && !seq && depth && s.coin()) {
      groups = true;
      for (unsigned k = 0, n = (unsigned)s.range(1, 2); k < n; ++k) {
        Field g = ref_to(make(0, depth - 1), GROUP);
        if (s.chance(1, 12)) g.tag = SKIP;
        std::vector<std::size_t> in;
        for (std::size_t j = lo; j < fs.size(); ++j)
          if (fs[j].ty == GROUP && !tpl_field(fs[j])) in.push_back(j);
        if (!in.empty() && s.coin()) insert_at(fs[s.pick(in)].sub, 1, g);
        else insert_at(fs, lo, g);
      }
    }
    if (seq) {
      seqs = true;
      Field q;
      if (s.chance(1, 3)) q = ref_to(make(1, 0), SEQ);
      else {
        q.ty = SEQ;
        q.name = "q" + std::to_string(serial++);
        q.opt = s.coin();
        q.sub = fields(1, 4, 1);
        Field f = scalar();
        f.tag = 0;
        insert_at(q.sub, 0, f);
      }
      if (s.coin()) q.tag |= ORDERED;
      if (s.chance(1, 12)) q.tag |= SKIP;
      insert_at(fs, 0, q);
    }
    Template t;
    t.name = "T" + std::to_string(serial++);
    t.id = (uint32_t)(sc.t.size() + 1) * (s.chance(1, 10) ? 100000000u : 1u);
    t.f = fs;
    sc.t.push_back(t);
    return (int)sc.t.size() - 1;
  }
};

struct Dir {
  std::string path;
  Dir() {
    char a[] = "/dev/shm/c23-XXXXXX", b[] = "/tmp/c23-XXXXXX";
    const char *p = mkdtemp(a);
    if (!p) p = mkdtemp(b);
    if (!p) throw std::runtime_error("no scratch directory");
    path = p;
  }
  ~Dir() {
    if (DIR *d = opendir(path.c_str())) {
      while (dirent *e = readdir(d))
        if (e->d_name[0] != '.') unlink((path + "/" + e->d_name).c_str());
      closedir(d);
    }
    rmdir(path.c_str());
  }
};

void compare(const std::string &file, const Model &m, const std::string &when) {
  sqlite3 *db = nullptr;
  if (sqlite3_open_v2(file.c_str(), &db, SQLITE_OPEN_READONLY, nullptr) != SQLITE_OK) throw pbt::Failure(when + ": the database cannot be opened");
  struct Close { sqlite3 *d; ~Close() { sqlite3_close_v2(d); } } close{db};
  struct Stmt {
    sqlite3_stmt *p = nullptr;
    Stmt(sqlite3 *d, const std::string &q) {
      if (sqlite3_prepare_v2(d, q.c_str(), -1, &p, nullptr) != SQLITE_OK) throw pbt::Failure("the database cannot be read: " + std::string(sqlite3_errmsg(d)) + " in " + q);
    }
    ~Stmt() { sqlite3_finalize(p); }
  };
  {
    Stmt q(db, "SELECT count(*) FROM sqlite_master WHERE type='table'");
    sqlite3_step(q.p);
    PBT_CHECK((std::size_t)sqlite3_column_int64(q.p, 0) == m.db.size(), when << ": there are " << sqlite3_column_int64(q.p, 0) << " tables instead of " << m.db.size());
  }
  for (auto &e : m.db) {
    const Table &t = e.second;
    Stmt q(db, "SELECT * FROM " + e.first + " ORDER BY rowid");
    PBT_CHECK((std::size_t)sqlite3_column_count(q.p) == t.cols.size(), when << ": table " << e.first << " has " << sqlite3_column_count(q.p) << " columns instead of " << t.cols.size());
    for (int k = 0; k < (int)t.cols.size(); ++k)
      PBT_CHECK(t.cols[(std::size_t)k] == sqlite3_column_name(q.p, k), when << ": table " << e.first << " column " << k << " is " << sqlite3_column_name(q.p, k) << " instead of " << t.cols[(std::size_t)k]);
    std::size_t n = 0;
    int rc;
    for (; (rc = sqlite3_step(q.p)) == SQLITE_ROW; ++n) {
      Row r;
      for (int k = 0; k < (int)t.cols.size(); ++k) {
        Cell c;
        const char *p;
        switch (sqlite3_column_type(q.p, k)) {
        case SQLITE_INTEGER: c.kind = 'i'; c.i = sqlite3_column_int64(q.p, k); break;
        case SQLITE_FLOAT: c.kind = 'd'; c.d = sqlite3_column_double(q.p, k); break;
        case SQLITE_TEXT: c.kind = 't'; p = (const char *)sqlite3_column_text(q.p, k); c.s.assign(p, (std::size_t)sqlite3_column_bytes(q.p, k)); break;
        case SQLITE_BLOB: c.kind = 'b'; p = (const char *)sqlite3_column_blob(q.p, k); if (p) c.s.assign(p, (std::size_t)sqlite3_column_bytes(q.p, k)); break;
        }
        r.push_back(c);
      }
      PBT_CHECK(n < t.rows.size(), when << ": table " << e.first << " has an additional row " << show(r));
      PBT_CHECK(r == t.rows[n], when << ": table " << e.first << " row " << n + 1 << " is " << show(r) << " instead of " << show(t.rows[n]));
    }
    PBT_CHECK(rc == SQLITE_DONE, when << ": table " << e.first << " cannot be read: " << sqlite3_errmsg(db));
    PBT_CHECK(n == t.rows.size(), when << ": table " << e.first << " has " << n << " rows instead of " << t.rows.size() << "; missing " << show(t.rows[n]));
  }
}

// keys are distinct, but those of the message itself sometimes aren't
void keys(Src &s, const std::vector<Field> &fs, std::vector<V> &vs, int64_t &serial, bool top, bool &dup) {
  for (std::size_t k = 0; k < fs.size(); ++k) {
    if (fs[k].tag & KEY) {
      int64_t n = ++serial;
      if (top && n > 1 && s.chance(1, 6)) { n = 1 + (int64_t)s.below((uint64_t)n - 1); dup = true; }
      int64_t x = n * (n % 3 == 0 && fs[k].ty != I32 && fs[k].ty != U32 ? 10000000019ll : 7);
      vs[k].i = n % 2 && !is_unsigned(fs[k].ty) ? -x : x;
      vs[k].s = std::to_string(x);
      if (n % 4 == 0) vs[k].s += std::string("\0\xff", 2);
    }
    if (fs[k].ty == GROUP) keys(s, fs[k].sub, vs[k].sub, serial, false, dup);
    for (auto &e : vs[k].el) keys(s, fs[k].sub, e, serial, false, dup);
  }
}
// some strings refer to memory which goes on after their end
void foreign(Src &s, const aggregate_mref &m, const std::vector<Field> &fs, const std::vector<V> &vs, std::deque<std::string> &pool) {
  for (std::size_t k = 0; k < fs.size(); ++k) {
    if (!vs[k].present || fs[k].op.k == CONST || !s.chance(1, 3)) continue;
    if (fs[k].ty == ASCII) { pool.push_back(vs[k].s + "zz"); ascii_string_mref(m[k]).refers_to(boost::string_ref(pool.back().data(), vs[k].s.size())); }
    if (fs[k].ty == UNI) { pool.push_back(vs[k].s + "zz"); unicode_string_mref(m[k]).refers_to(boost::string_ref(pool.back().data(), vs[k].s.size())); }
  }
}

void c23(Src &s, Case &c) {
  Gen g(s);
  std::vector<int> tops;
  for (unsigned k = 0, n = (unsigned)s.range(1, 2); k < n; ++k) tops.push_back(g.make(0, 2));
  const Schema &sc = g.sc;
  std::unique_ptr<br::Loaded> L;
  if (c.want_log) c.note(schema_xml(sc));
  c.mix(schema_xml(sc));
  br::must_not_throw([&] { L.reset(new br::Loaded(sc)); }, "loading the definition");
  Dir dir;
  std::string file = dir.path + "/db";
  typedef SQLite3::converter Conv;
  std::unique_ptr<Conv> conv;
  auto open = [&](bool create) {
    br::must_not_throw([&] {
      conv.reset(new Conv(file.c_str(), SQLite3::field_masks(SKIP, KEY, ORDERED)));
      for (int t : tops) conv->add_instruction(L->b.ti[(std::size_t)t], create);
    }, create ? "creating the tables" : "opening the database again");
  };
  Model m(sc);
  for (int t : tops) m.create(sc.t[(std::size_t)t], nullptr, false);
  open(true);
  compare(file, m, "before any message");
  malloc_allocator alloc;
  std::size_t n = (std::size_t)s.range(1, 8), refused = 0, absent = 0;
  int64_t serial = 0;
  for (std::size_t k = 0; k < n; ++k) {
    if (k && s.chance(1, 10)) { conv.reset(); open(false); c.label("opened again"); }
    int ti = s.pick(tops);
    const Template &t = sc.t[(std::size_t)ti];
    Msg mm;
    mm.tmpl = ti;
    mm.f = vals::random_values(s, sc, t.f, 6);
    bool dup = false;
    keys(s, t.f, mm.f, serial, true, dup);
    message_type msg(&alloc, const_cast<template_instruction *>(L->b.ti[(std::size_t)ti]));
    L->b.fill(msg.ref(), t.f, mm.f);
    std::deque<std::string> pool;
    foreign(s, msg.ref(), t.f, mm.f, pool);
    std::string text = show(mm, sc);
    if (c.want_log) c.note("insert " + text);
    c.mix(text);
    for (auto &v : mm.f) absent += !v.present;
    Cell key;
    bool ok = m.insert(t, mm.f, nullptr, key);
    std::string what = "message " + std::to_string(k);
    if (ok)
      br::must_not_throw([&] { conv->insert(msg.cref()); }, ("inserting " + what).c_str());
    else {
      ++refused;
      PBT_CHECK(br::throws([&] { conv->insert(msg.cref()); }), what << " has the primary key of another one and isn't refused");
    }
    if (k + 1 == n || s.chance(1, 3)) compare(file, m, "after " + what);
  }
  conv.reset();
  compare(file, m, "after closing the database");
  std::size_t rows = 0;
  for (auto &e : m.db) rows += e.second.rows.size();
  c.sub = rows;
  if (refused) c.label("duplicate primary key");
  if (g.seqs) c.label("sequence");
  if (g.groups) c.label("template groups");
  if (g.keys) c.label("primary key");
  c.nontrivial = rows >= 2 && absent && (g.seqs || g.groups || n > 2);
}
}
PBT_PROPERTY("C23.rows", "templates (scalars, plain and template groups, sequences in rows or of templates, skip, key and order masks) with histories of 1-8 messages: every table has exactly the modelled columns and rows. Non-trivial: two rows or more, absent fields, and a sequence, template groups or more than two messages.", c23, 1200, 20000)
