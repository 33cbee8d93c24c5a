// docgen SEED COUNT DIR: writes the documents x<k><a|b>.xml and for each the
// code a<k><a|b>.cpp that calls every accessor of every type made from it.
#include "gen18_docs.h"
#include <fstream>
using namespace xd;
using g18::cpp_name;
static std::string num(std::size_t k) { return std::to_string(k); }
static bool sole(const N &n) { return n.sub.size() == 1 && n.sub[0].ty != mfast::field_type_templateref && n.sub[0].name.empty(); }
static bool only_tref(const N &n) { return n.sub.size() == 1 && n.sub[0].ty == mfast::field_type_templateref; }
// the fields of an aggregate: its references c, m and the untyped ones gc, gm, all with the suffix d
static void fields(std::ostream &o, const N &n, unsigned d) {
  std::string D = num(d), E = num(d + 1), in(2 * d + 2, ' ');
  for (std::size_t i = 0; i < n.sub.size(); ++i) {
    const N &f = n.sub[i];
    std::string g = "gc" + D + "[" + num(i) + "]";
    if (f.ty == mfast::field_type_templateref) {
      o << in << "a.chk(Acc::at_(c" << D << ".get_nested_message" << i << "()) == Acc::at_(" << g << "), \"templateRef\", \"get_nested_message refers to another field\");\n";
      o << in << "a.chk(Acc::at_(m" << D << ".set_nested_message" << i << "()) == Acc::at_(" << g << "), \"templateRef\", \"set_nested_message refers to another field\");\n";
      continue;
    }
    std::string x = cpp_name(f.name), q = "\"" + x + "\"";
    std::string gf = "[&] { return c" + D + ".get_" + x + "(); }", sf = "[&] { return m" + D + ".set_" + x + "(); }", tf = "[&] { return c" + D + ".try_get_" + x + "(); }";
    std::string om = f.opt ? in + "a.omit(" + q + ", " + g + ", false, [&] { m" + D + ".omit_" + x + "(); }, " + tf + ");\n" : "";
    std::string om_now = f.opt ? in + "a.omit(" + q + ", " + g + ", true, [&] { m" + D + ".omit_" + x + "(); }, " + tf + ");\n" : "";
    bool constant = f.op == mfast::operator_constant && (!f.split || f.mant[0].op == mfast::operator_constant);
    if (f.ty == mfast::field_type_enum) {
      o << in << "a.get(" << q << ", " << g << ", c" << D << ".get_" << x << "());\n";
      bool b = f.elems.size() == 2 && f.elems[0] == "false" && f.elems[1] == "true";
      for (std::size_t k = 0; k < f.elems.size(); ++k) {
        std::string el = cpp_name(f.elems[k]);
        uint64_t v = f.vals.empty() ? k : f.vals[k];
        if (constant) {
          if ((uint64_t)f.init.i == v)
            o << in << "if (" << g << ".present()) a.chk(c" << D << ".get_" << x << "().is_" << el << "(), " << q << ", \"the constant is another element\");\n";
          continue;
        }
        o << in << "m" << D << ".set_" << x << "().as_" << el << "();\n";
        for (std::size_t j = 0; j < f.elems.size(); ++j)
          o << in << "a.chk(" << (j == k ? "" : "!") << "c" << D << ".get_" << x << "().is_" << cpp_name(f.elems[j]) << "(), " << q << ", \"is_ after as_" << el << "\");\n";
        o << in << "a.chk(" << g << ".present() && mfast::enum_cref(" << g << ").value() == " << v << "ull, " << q << ", \"as_" << el << " does not give its value\");\n";
        if (!b) o << in << "a.chk((uint64_t)c" << D << ".get_" << x << "().value() == " << v << "ull, " << q << ", \"value() after as_" << el << "\");\n";
        o << in << "a.chk(!a.absent(" << tf << "), " << q << ", \"try_get_ of a field that is present\");\n";
      }
      if (constant && !f.opt) o << in << "a.constant(" << q << ", " << g << ", " << gf << ", " << tf << ");\n";
      if (!constant) o << om;
      continue;
    }
    if (f.ty == mfast::field_type_set) {
      std::string cq = "c" + D + ".get_" + x + "()", mq = "m" + D + ".set_" + x + "()";
      o << in << "a.get(" << q << ", " << g << ", " << cq << ");\n";
      auto holds = [&](uint64_t v, const std::string &when) {
        for (std::size_t j = 0; j < f.elems.size(); ++j)
          o << in << "a.chk(" << (v >> j & 1 ? "" : "!") << cq << ".has_" << cpp_name(f.elems[j]) << "(), " << q << ", \"has_" << cpp_name(f.elems[j]) << " " << when << "\");\n";
      };
      if (constant) {
        o << in << "if (" << g << ".present()) {\n";
        holds((uint64_t)f.init.i, "of the constant");
        o << in << "}\n";
        if (!f.opt) o << in << "a.constant(" << q << ", " << g << ", " << gf << ", " << tf << ");\n";
        continue;
      }
      auto is = [&](uint64_t v, const std::string &when) {
        o << in << "a.chk(" << g << ".present() && (uint64_t)mfast::set_cref(" << g << ").value() == " << v << "ull, " << q << ", \"the value " << when << "\");\n";
        o << in << "a.chk((uint64_t)" << cq << ".value() == " << v << "ull, " << q << ", \"value() " << when << "\");\n";
      };
      uint64_t v = (f.init.i ^ 0x9e3779b97f4a7c15ull * (i + 1)) >> (64 - f.elems.size());
      o << in << "mfast::set_mref(" << mq << ").as(" << v << "ull);\n";
      is(v, "after as()");
      holds(v, "after as()");
      for (std::size_t k = 0; k < f.elems.size(); ++k) {
        std::string el = cpp_name(f.elems[k]);
        bool on = !(v >> k & 1) || k % 3 == 0;
        v = on ? v | uint64_t(1) << k : v & ~(uint64_t(1) << k);
        o << in << mq << "." << (on ? "set_" : "unset_") << el << "();\n";
        is(v, "after " + std::string(on ? "set_" : "unset_") + el);
        o << in << "a.chk(" << (on ? "" : "!") << cq << ".has_" << el << "(), " << q << ", \"has_" << el << " after " << (on ? "set_" : "unset_") << el << "\");\n";
      }
      holds(v, "at the end");
      o << in << "a.chk(!a.absent(" << tf << "), " << q << ", \"try_get_ of a field that is present\");\n" << om;
      continue;
    }
    if (f.ty == mfast::field_type_group) {
      o << om_now << in << "{\n";
      o << in << "  auto m" << E << " = m" << D << ".set_" << x << "();\n";
      o << in << "  auto c" << E << " = c" << D << ".get_" << x << "();\n";
      o << in << "  a.chk(" << g << ".present(), " << q << ", \"set_ leaves the group absent\");\n";
      o << in << "  mfast::aggregate_cref gc" << E << "(" << g << ");\n";
      if (only_tref(f)) {
        o << in << "  a.chk(Acc::at_(c" << E << ") == Acc::at_(gc" << E << "[0]), " << q << ", \"get_ refers to another field\");\n";
        o << in << "  a.chk(Acc::at_(m" << E << ") == Acc::at_(gc" << E << "[0]), " << q << ", \"set_ refers to another field\");\n";
      } else {
        o << in << "  (void)m" << E << "; (void)c" << E << "; (void)gc" << E << ";\n";
        if (!f.sub.empty()) o << in << "  a.chk(c" << E << ".field_storage(0) == gc" << E << ".field_storage(0), " << q << ", \"another group\");\n";
        o << in << "  a.chk(!a.absent([&] { c" << D << ".try_get_" << x << "(); }), " << q << ", \"try_get_ of a group that is present\");\n";
        fields(o, f, d + 1);
      }
      o << in << "}\n" << om;
      continue;
    }
    if (f.ty == mfast::field_type_sequence) {
      o << om_now << in << "{\n";
      o << in << "  auto mq = m" << D << ".set_" << x << "();\n" << in << "  auto cq = c" << D << ".get_" << x << "();\n";
      o << in << "  a.chk(Acc::at_(mq) == Acc::at_(" << g << ") && Acc::at_(cq) == Acc::at_(" << g << "), " << q << ", \"another sequence\");\n";
      o << in << "  unsigned n = (unsigned)a.s.below(4);\n" << in << "  mq.resize(n);\n";
      o << in << "  mfast::sequence_cref gq(" << g << ");\n";
      o << in << "  a.chk(" << g << ".present() && gq.size() == n && cq.size() == n, " << q << ", \"the size after resize\");\n";
      o << in << "  a.chk(!a.absent([&] { c" << D << ".try_get_" << x << "(); }), " << q << ", \"try_get_ of a sequence that is present\");\n";
      o << in << "  for (unsigned k = 0; k < n; ++k) {\n";
      if (only_tref(f)) {
        o << in << "    a.chk(Acc::at_(cq[k]) == Acc::at_(mfast::aggregate_cref(gq[k])[0]), " << q << ", \"an element refers to something else\");\n";
        o << in << "    a.chk(Acc::at_(mq[k]) == Acc::at_(mfast::aggregate_cref(gq[k])[0]), " << q << ", \"an element refers to something else\");\n";
      } else if (sole(f)) {
        const N &y = f.sub[0];
        o << in << "    mfast::field_cref ge(mfast::aggregate_cref(gq[k])[0]);\n";
        o << in << "    a.chk(Acc::at_(cq[k]) == Acc::at_(ge), " << q << ", \"the element refers to something else\");\n";
        o << in << "    a.chk(Acc::at_(mq[k]) == Acc::at_(ge), " << q << ", \"the element refers to something else\");\n";
        if (y.ty == mfast::field_type_sequence)
          o << in << "    unsigned l = (unsigned)a.s.below(4);\n" << in << "    mq[k].resize(l);\n" << in << "    a.chk(cq[k].size() == l && mfast::sequence_cref(ge).size() == l, " << q << ", \"the size of the element\");\n";
        else if (y.op != mfast::operator_constant && !y.split)
          o << in << "    Acc::Is is = a.put(mq[k]);\n" << in << "    a.chk(is(ge) && is(cq[k]), " << q << ", \"the value of the element\");\n";
      } else if (!f.sub.empty()) {
        o << in << "    auto m" << E << " = mq[k];\n" << in << "    auto c" << E << " = cq[k];\n" << in << "    mfast::aggregate_cref gc" << E << "(gq[k]);\n";
        o << in << "    (void)m" << E << "; (void)c" << E << ";\n";
        o << in << "    a.chk(c" << E << ".field_storage(0) == gc" << E << ".field_storage(0), " << q << ", \"another element\");\n";
        fields(o, f, d + 1);
      }
      o << in << "  }\n" << in << "}\n" << om;
      continue;
    }
    if (constant) o << in << "a.constant(" << q << ", " << g << ", " << gf << ", " << tf << ");\n";
    else o << om_now << in << "a.leaf(" << q << ", " << g << ", " << gf << ", " << sf << ", " << tf << ");\n" << om;
  }
}
int main(int argc, char **argv) {
  uint64_t seed = strtoull(argv[1], nullptr, 10);
  unsigned n = (unsigned)atoi(argv[2]);
  std::string dir = argv[3];
  for (unsigned k = 0; k < n; ++k) {
    auto docs = g18::docs(seed, k);
    for (unsigned d = 0; d < docs.size(); ++d) {
      auto &doc = docs[d];
      std::ofstream(dir + "/" + doc.file + ".xml") << doc.xml;
      std::ofstream o(dir + "/acc_" + doc.file + ".cpp");
      o << "#include \"" << doc.file << ".h\"\n#include \"gen18.h\"\nnamespace {\n";
      for (std::size_t t = 0; t < doc.want.size(); ++t) {
        std::string T = doc.file + "::" + cpp_name(doc.want[t].name);
        o << "void t" << t << "(Acc &a) {\n  " << T << " x;\n  auto c0 = x.cref();\n  auto m0 = x.mref();\n  (void)m0;\n  mfast::aggregate_cref gc0(static_cast<mfast::message_type &>(x).cref());\n";
        o << "  a.at = \"" << cpp_name(doc.want[t].name) << "\";\n";
        o << "  a.chk((const mfast::field_instruction *)" << T << "::instruction() == gc0.instruction(), \"-\", \"instruction()\");\n";
        o << "  a.chk(" << T << "::the_id == " << doc.want[t].id << "u, \"-\", \"the_id\");\n";
        fields(o, doc.want[t], 0);
        o << "  " << T << " y(c0);\n  a.chk(mfast::aggregate_cref(y.cref()) == gc0, \"-\", \"a copy is not equal\");\n}\n";
      }
      for (std::size_t t = 0; t < doc.types.size(); ++t) {
        const N &y = doc.types[t].second;
        if (y.ty != mfast::field_type_group || only_tref(y) || y.sub.empty()) continue;
        std::string T = doc.file + "::" + cpp_name(doc.types[t].first);
        o << "void y" << t << "(Acc &a) {\n  " << T << " x;\n  auto c0 = static_cast<const " << T << " &>(x).cref();\n  auto m0 = x.mref();\n  (void)m0;\n  mfast::aggregate_cref gc0(c0);\n";
        o << "  a.at = \"type " << cpp_name(doc.types[t].first) << "\";\n";
        fields(o, y, 0);
        o << "  g18_copies(a, x, gc0);\n}\n";
      }
      o << "struct R { R() { g18_add(G18Entry{" << k << "u, " << d << "u, " << doc.file << "::description(), {";
      for (std::size_t t = 0; t < doc.want.size(); ++t) o << (t ? ", " : "") << "t" << t;
      o << "}, {";
      bool first = true;
      for (std::size_t t = 0; t < doc.types.size(); ++t) {
        const N &y = doc.types[t].second;
        if (y.ty != mfast::field_type_group || only_tref(y) || y.sub.empty()) continue;
        o << (first ? "" : ", ") << "y" << t;
        first = false;
      }
      o << "}}); } } r;\n}\n";
    }
  }
}
