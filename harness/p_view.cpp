// C22: a view visits, for each of its fields, the first of the alternative
// references whose leaf is present, otherwise an absent leaf.
#include "codec_common.h"
#include "values.h"
#include <mfast/view_iterator.h>
#include <mfast/output.h>
using namespace cc;
using namespace mfast;

namespace {
struct Path {
  std::string text;
  std::vector<int> idx;  // field index, element index, field index, ...
  std::vector<bool> elem; // which of them are element indices
};
// every field that can be named
void collect(const std::vector<Field> &fs, const Path &at, std::vector<Path> &out, Src &s, int depth) {
  for (std::size_t k = 0; k < fs.size(); ++k) {
    const Field &f = fs[k];
    if (f.ty == TREF) continue;
    Path p = at;
    if (!p.text.empty()) p.text += ".";
    p.text += f.name;
    p.idx.push_back((int)k);
    p.elem.push_back(false);
    out.push_back(p);
    if (f.ty == GROUP) collect(f.sub, p, out, s, depth + 1);
    if (f.ty == SEQ) {
      unsigned n = (unsigned)s.range(1, 2);
      for (unsigned j = 0; j < n; ++j) {
        Path q = p;
        int i = s.chance(1, 10) ? (int)s.range(4, 3000) : (int)s.below(3);
        q.text += "[" + std::to_string(i) + "]";
        q.idx.push_back(i);
        q.elem.push_back(true);
        if (f.sub.size() == 1 && is_scalar(f.sub[0].ty)) out.push_back(q); // the element stands for its only field
        collect(f.sub, q, out, s, depth + 1);
      }
    }
  }
}
bool plain(const std::vector<Field> &fs) { // names that references can hold
  for (auto &f : fs) {
    if (f.ty == TREF) continue;
    if (f.name.empty() || f.name.find_first_of(".[]") != std::string::npos) return false;
    if (!plain(f.sub)) return false;
    for (auto &g : fs)
      if (&f != &g && f.name == g.name) return false;
  }
  return true;
}

// the field a reference means, read directly
bool direct(const aggregate_cref &m, const Path &p, std::size_t at, field_cref &leaf) {
  field_cref f = m[(std::size_t)p.idx[at]];
  if (at + 1 == p.idx.size()) {
    leaf.refers_to(f);
    return f.present();
  }
  if (f.absent()) return false;
  if (p.elem[at + 1]) {
    sequence_cref q(f);
    if (q.size() <= (std::size_t)p.idx[at + 1]) return false;
    aggregate_cref e(q[(std::size_t)p.idx[at + 1]]);
    if (at + 2 == p.idx.size()) {
      leaf.refers_to(e[0]);
      return leaf.present();
    }
    return direct(e, p, at + 2, leaf);
  }
  return direct(aggregate_cref(f), p, at + 1, leaf);
}

void c22(Src &s, Case &c) {
  GenOpt go;
  go.tref = s.chance(1, 4);
  go.wide_den = 0;
  go.max_fields = 6;
  go.max_depth = 4;
  go.keys = false;
  Schema sc;
  std::vector<Path> paths;
  int ti = 0;
  for (int tries = 0;; ++tries) {
    SchemaGen g(s, go);
    sc = g.gen();
    ti = (int)s.below(sc.t.size());
    bool ok = true;
    if (tries > 4) return;
    if (!plain(sc.t[ti].f)) continue;
    collect(sc.t[ti].f, Path(), paths, s, 0);
    (void)ok;
    if (!paths.empty()) break;
  }
  // views
  typedef std::vector<std::vector<std::size_t>> View;
  std::vector<View> views((std::size_t)s.range(1, 2));
  std::string vx;
  bool alternatives = false, nested = false;
  for (std::size_t v = 0; v < views.size(); ++v) {
    vx += "  <view name=\"V" + std::to_string(v) + "\" reference=\"" + sc.t[ti].name + "\"" + (sc.t[ti].ns.empty() ? "" : " ns=\"" + sc.t[ti].ns + "\"") + ">\n";
    std::size_t n = (std::size_t)s.range(1, 7), last = (std::size_t)s.below(paths.size());
    for (std::size_t k = 0; k < n; ++k) {
      std::vector<std::size_t> alt;
      std::size_t m = s.coin() ? 1 : (std::size_t)s.range(2, 4);
      vx += "    <field name=\"f" + std::to_string(k) + "\">";
      for (std::size_t j = 0; j < m; ++j) {
        // often near the last one, so that they have much in common
        std::size_t p = s.chance(1, 3) ? (std::size_t)s.below(paths.size()) : (last + (std::size_t)s.below(5) + paths.size() - 2) % paths.size();
        last = p;
        alt.push_back(p);
        vx += "<reference name=\"" + xml_esc(paths[p].text) + "\"/>";
        nested = nested || paths[p].idx.size() > 1;
      }
      alternatives = alternatives || m > 1;
      vx += "</field>\n";
      views[v].push_back(alt);
    }
    vx += "  </view>\n";
  }
  std::string xml = schema_xml(sc);
  xml.insert(xml.rfind("</templates>"), vx);
  c.mix(xml);
  if (c.want_log) c.note(xml);
  std::unique_ptr<br::Loaded> L;
  br::must_not_throw([&] { L.reset(new br::Loaded(sc, xml)); }, "loading the definition");
  const std::deque<aggregate_view_info> &infos = L->desc->view_infos();
  PBT_CHECK(infos.size() == views.size(), "there are " << infos.size() << " views instead of " << views.size());
  malloc_allocator alloc;
  std::size_t n = (std::size_t)s.range(1, 4), hits = 0, misses = 0, second = 0;
  for (std::size_t k = 0; k < n; ++k) {
    message_type msg(&alloc, const_cast<template_instruction *>(L->b.ti[ti]));
    std::vector<V> vals = vals::random_values(s, sc, sc.t[ti].f, (int)sc.t.size() + 3);
    L->b.fill(msg.ref(), sc.t[ti].f, vals);
    Msg mm;
    mm.tmpl = ti;
    mm.f = vals;
    if (c.want_log) c.note(show(mm, sc));
    c.mix(show(mm, sc));
    for (std::size_t v = 0; v < views.size(); ++v) {
      const aggregate_view_info &info = infos[v];
      PBT_CHECK(info.name_ == "V" + std::to_string(v), "view " << v << " is named " << info.name_);
      PBT_CHECK(info.instruction_ == L->b.ti[ti], "view " << v << " refers to " << info.instruction_->name());
      view_iterator it(msg.cref(), info.data_.begin(), info.max_depth_), end(info.data_.end() - 1);
      std::vector<std::pair<const void *, const field_instruction *>> leaves;
      for (std::size_t f = 0; f < views[v].size(); ++f, ++it) {
        std::string what = "message " + std::to_string(k) + " view " + std::to_string(v) + " field f" + std::to_string(f);
        PBT_CHECK(!(it == end), what << ": the view ends early");
        field_cref leaf, want;
        leaf.refers_to(*it);
        bool present = false;
        std::size_t j = 0;
        for (; j < views[v][f].size() && !present; ++j) present = direct(msg.cref(), paths[views[v][f][j]], 0, want);
        PBT_CHECK(leaf.present() == present, what << ": " << (present ? "absent although " + paths[views[v][f][j - 1]].text + " is present" : "present although all references are absent"));
        if (present) {
          PBT_CHECK(field_cref_core_access::storage_of(leaf) == field_cref_core_access::storage_of(want) && leaf.instruction() == want.instruction(),
                    what << " shows " << leaf.name() << " instead of " << paths[views[v][f][j - 1]].text);
          ++hits;
          second += j > 1;
        } else
          ++misses;
        leaves.push_back({present ? field_cref_core_access::storage_of(leaf) : nullptr, leaf.instruction()});
      }
      PBT_CHECK(it == end, "message " << k << " view " << v << " goes on after its last field");
      // a copy of an iterator is independent
      view_iterator a(msg.cref(), info.data_.begin(), info.max_depth_);
      for (std::size_t f = 0; f < views[v].size(); ++f) {
        view_iterator b = a++;
        field_cref x;
        x.refers_to(*b);
        const void *p = x.present() ? field_cref_core_access::storage_of(x) : nullptr;
        PBT_CHECK(p == leaves[f].first && x.instruction() == leaves[f].second, "view " << v << " field f" << f << " differs in the second pass");
      }
    }
  }
  c.sub = n;
  if (second) c.label("a later alternative was taken");
  if (misses) c.label("nothing present");
  if (nested) c.label("nested references");
  c.nontrivial = hits && misses && nested;
}

void c22_invalid(Src &s, Case &c) {
  std::string fields = "<string name=\"a\"/><group name=\"g\" presence=\"optional\"><uInt32 name=\"b\"/><uInt32 name=\"c\"/></group>"
                       "<sequence name=\"q\"><string name=\"d\"/><sequence name=\"r\"><uInt32 name=\"e\"/></sequence></sequence>";
  static const char *good[] = {"a", "g", "g.b", "q", "q[0].d", "q[3].r", "q[1].r[2].e"};
  static const char *bad[] = {"b", "g.a", "q.d", "q[0].x", "a[0]", "g[0].b", "q[].d", "q[x].d", "q[-1].d", "q[0.d", "q[0]]", "q0].d", "[0]", "q[0]r[0].e", "q[99999999999].d",
                              "q[4294967295].d", "q[4294967294].d", "q[2147483648].d", ".", "a.", ".a", "[", "]", "q[0].r[x].e", "q[0].r[-2].e", "q[ 1].d"};
  std::string body, what;
  std::size_t n = (std::size_t)s.range(0, 3), at = (std::size_t)s.below(n + 1);
  auto ref = [&](const std::string &r) { return "<reference name=\"" + r + "\"/>"; };
  unsigned kind = (unsigned)s.weighted({8, 1, 1, 2, 1});
  std::string attr = "name=\"V\" reference=\"T\"";
  if (kind == 1) { attr = "reference=\"T\""; what = "no name"; }
  if (kind == 2) { attr = s.coin() ? "name=\"V\"" : "name=\"V\" reference=\"U\""; what = "no such template"; }
  std::string b;
  for (std::size_t k = 0; k <= n; ++k) {
    body += "<field name=\"f" + std::to_string(k) + "\">";
    unsigned m = (unsigned)s.range(1, 2), w = (unsigned)s.below(m);
    for (unsigned j = 0; j < m; ++j) {
      if (kind == 0 && k == at && j == w) { b = bad[s.below(sizeof bad / sizeof *bad)]; body += ref(b); what = b; }
      else if (kind == 3 && k == at) what = "no reference";
      else if (kind == 4 && k == at) { body += "<reference/>"; what = "a reference without a name"; }
      else body += ref(good[s.below(sizeof good / sizeof *good)]);
    }
    body += "</field>";
  }
  std::string xml = "<?xml version=\"1.0\"?>\n<templates xmlns=\"http://www.fixprotocol.org/ns/fast/td/1.1\"><template name=\"T\" id=\"1\">" + fields +
                    "</template><view " + attr + ">" + body + "</view></templates>\n";
  c.mix(xml);
  if (c.want_log) c.note(xml);
  std::string err;
  bool thrown = br::throws([&] { dynamic_templates_description d(xml.c_str()); }, &err);
  PBT_CHECK(thrown, "a view with " << what << " is accepted");
  c.nontrivial = true;
}

PBT_PROPERTY("C22.views",
             "1-2 views of 1-7 fields with 1-4 alternative references each (fields, groups, sequences, elements, at any depth, sharing prefixes) over generated templates, iterated for 1-4 messages; "
             "every leaf is compared with the one read directly. Non-trivial: nested references, some present and some absent leaves.",
             c22, 20000, 300000)
PBT_PROPERTY("C22.invalid", "views that refer to nothing: must be refused, under AddressSanitizer. Non-trivial: all.", c22_invalid, 4000, 40000)
} // namespace
