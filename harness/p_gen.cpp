// C18: the types made from template documents.
#include "gen18.h"
#include "gen18_docs.h"
using namespace xd;
static std::vector<G18Entry> &entries() {
  static std::vector<G18Entry> v;
  return v;
}
void g18_add(const G18Entry &e) {
  auto &v = entries();
  v.push_back(e);
  std::sort(v.begin(), v.end(), [](const G18Entry &a, const G18Entry &b) { return std::make_pair(a.set, a.doc) < std::make_pair(b.set, b.doc); });
}
namespace {
const std::vector<g18::Doc> &docs(unsigned k) {
  static std::map<unsigned, std::vector<g18::Doc>> m;
  auto it = m.find(k);
  if (it == m.end()) it = m.emplace(k, g18::docs(V2_SEED, k)).first;
  return it->second;
}
void c18_description(Src &s, Case &c) {
  auto &e = entries()[s.below(entries().size())];
  auto &d = docs(e.set)[e.doc];
  c.mix(d.xml);
  if (c.want_log) for (auto &x : docs(e.set)) c.note(x.file + ".xml:\n" + x.xml);
  std::string at = d.file;
  WANT(S(e.desc->ns()), d.ns, "the namespace");
  WANT(S(e.desc->template_ns()), d.tns, "the templateNs");
  WANT(S(e.desc->dictionary()), d.dict, "the dictionary");
  WANT((std::size_t)e.desc->size(), d.want.size(), "the number of templates");
  std::size_t count = 0;
  for (std::size_t k = 0; k < d.want.size(); ++k) check((*e.desc)[k], d.want[k], at, count);
  c.sub = count;
  c.nontrivial = count >= 5;
}
void c18_accessors(Src &s, Case &c) {
  auto &e = entries()[s.below(entries().size())];
  auto &d = docs(e.set)[e.doc];
  std::size_t k = (std::size_t)s.below(e.templates.size() + e.types.size());
  c.mix(d.xml);
  c.mix(k);
  if (c.want_log) for (auto &x : docs(e.set)) c.note(x.file + ".xml:\n" + x.xml);
  Acc a(s);
  br::must_not_throw([&] { (k < e.templates.size() ? e.templates[k] : e.types[k - e.templates.size()])(a); }, "the accessors");
  c.sub = a.checks;
  if (k >= e.templates.size()) c.label("defined groups");
  c.nontrivial = a.checks >= 10;
}
// The known finding: what the type generator does with a sequence whose elements
// are sequences of several fields (tools/v2build.py tries).
void c18_known(Src &, Case &c) {
  c.nontrivial = true;
  c.mix(std::string("nested"));
  if (NESTED_FAILS) throw pbt::Known("nested-sequences");
}
} // namespace
PBT_PROPERTY(xetra ? "C18.xetra_description" : "C18.description", "the description in the generated code against the model of the document it was generated from, field by field; non-trivial = at least 5 fields", c18_description, 300, 300);
PBT_PROPERTY(xetra ? "C18.xetra_accessors" : "C18.accessors",
             "every accessor (get_, try_get_, set_, omit_, as_, is_, nested messages, elements) of a generated template or group type with random values, "
             "against the untyped field at the same position; non-trivial = at least 10 checks",
             c18_accessors, 3000, 40000);
#ifndef XETRA_FAST_SPECIFICATION
PBT_PROPERTY("C18.known", "the type generator is run on a sequence whose elements are sequences of several fields; all are non-trivial", c18_known, 1, 1)
#endif
