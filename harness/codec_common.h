#pragma once
#include "bridge.h"
#include "ref_codec.h"

namespace cc {
using namespace fm;
using pbt::Case;

struct History {
  Schema sc;
  std::vector<Msg> msgs;
  std::vector<bool> resets;
  std::vector<std::string> bytes; // reference encoding of each message
  Stats stats;
};

struct HistOpt {
  unsigned max_msgs = 8;
  bool resets = true;
  bool noncanon = false;
  bool first_reset = true; // the first message of a history is encoded with a forced reset
  GenValOpt go;
};

// a message of any template; false if none of a few can be expressed now
inline bool gen_one(Src &s, Encoder &e, Msg &m, bool reset, std::string &b) {
  for (int k = 0; k < 8; ++k) {
    m = Msg();
    m.tmpl = k == 7 ? 0 : (int)s.below(e.st.sc.t.size());
    if (e.try_message(m, reset, b)) return true;
  }
  return false;
}
inline void gen_msgs(Src &s, History &h, const HistOpt &ho) {
  Encoder e(h.sc);
  e.vs = &s;
  e.go = ho.go;
  if (ho.noncanon) e.ch = &s;
  unsigned n = (unsigned)s.range(1, ho.max_msgs);
  for (unsigned k = 0; k < n; ++k) {
    bool reset = (k == 0 && ho.first_reset) || (ho.resets && s.chance(1, 8));
    Msg m;
    std::string b;
    if (!gen_one(s, e, m, reset, b)) break;
    h.msgs.push_back(m);
    h.resets.push_back(reset);
    h.bytes.push_back(b);
  }
  h.stats = e.stats;
}
inline History gen_history(Src &s, const GenOpt &go, const HistOpt &ho) {
  History h;
  SchemaGen g(s, go);
  h.sc = g.gen();
  gen_msgs(s, h, ho);
  return h;
}
inline void describe(const History &h, Case &c) {
  for (auto &m : h.msgs) c.mix(show(m, h.sc));
  c.mix(schema_xml(h.sc));
  if (!c.want_log) return;
  c.note(schema_xml(h.sc));
  for (std::size_t k = 0; k < h.msgs.size(); ++k)
    c.note("#" + std::to_string(k) + (h.resets[k] ? " (reset) " : " ") + show(h.msgs[k], h.sc) + "\n   ref: " + pbt::hex(h.bytes[k]));
}
inline void label(const History &h, Case &c) {
  const Stats &t = h.stats;
  auto L = [&](const char *n, uint64_t v) { if (v) c.label(n); };
  L("history with several messages", h.msgs.size() > 1);
  L("several templates", h.sc.t.size() > 1);
  L("optional absent", t.absent);
  L("group", t.groups);
  L("sequence elements", t.elems);
  L("dynamic template reference", t.nested);
  L("copy from previous value", t.copies_hit);
  L("increment elided", t.incs);
  L("delta", t.deltas);
  L("tail", t.tails);
  L("template id elided", t.id_elided);
  L("presence map of more than 63 bits", t.long_pmaps);
  L("reset in the middle", std::count(h.resets.begin() + 1, h.resets.end(), true));
}
inline bool nontrivial(const History &h) {
  return h.msgs.size() >= 2 && (h.stats.copies_hit || h.stats.incs || h.stats.deltas || h.stats.tails) && h.stats.absent;
}
} // namespace cc
