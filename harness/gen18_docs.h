// The documents of C18: a function of the seed, shared by docgen and the driver.
#pragma once
#include "xml_docs.h"
namespace g18 {
struct Doc {
  std::string file, xml, ns, tns, dict;
  std::vector<xd::N> want;
  std::vector<std::pair<std::string, xd::N>> types; // groups and sequences
};
inline std::vector<Doc> docs(uint64_t seed, unsigned k) {
  pbt::Src s(seed * 6151 + 31 * k + 5);
  xd::Gen g(s);
  g.cpp = true;
  std::vector<Doc> r;
  for (unsigned d = 0, n = k % 3 == 2 ? 2 : 1; d < n; ++d) {
    Doc o;
    o.file = "x" + std::to_string(k) + (char)('a' + d);
    o.xml = g.document(d, o.want, o.ns, o.tns, o.dict);
    for (auto &t : g.types) {
      if (t.second.n.ty == mfast::field_type_group || t.second.n.ty == mfast::field_type_sequence) o.types.push_back({t.first, t.second.n});
      if (t.second.shared) g.shared.push_back(t);
    }
    r.push_back(o);
  }
  return r;
}
inline std::string cpp_name(const std::string &n) {
  std::string r;
  if (!((n[0] | 32) >= 'a' && (n[0] | 32) <= 'z')) r = "_";
  for (unsigned char c : n) r += (c >= '0' && c <= '9') || ((c | 32) >= 'a' && (c | 32) <= 'z') ? (char)c : '_';
  return r;
}
} // namespace g18
