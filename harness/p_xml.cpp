// C17: loading a template definition gives exactly the fields written there;
// definitions that cannot be interpreted are refused, and none crashes.
#include "xml_docs.h"
using namespace cc;
using namespace mfast;

using namespace xd;
namespace {
void c17(Src &s, Case &c) {
  Gen g(s);
  template_registry reg;
  std::size_t docs = s.chance(1, 4) ? 2 : 1, count = 0;
  for (std::size_t d = 0; d < docs; ++d) {
    std::vector<N> want;
    std::string ns, tns, dict;
    std::string xml = g.document((unsigned)d, want, ns, tns, dict);
    c.mix(xml);
    if (c.want_log) c.note(xml);
    std::unique_ptr<dynamic_templates_description> desc;
    br::must_not_throw([&] { desc.reset(new dynamic_templates_description(xml.c_str(), "", &reg)); }, "loading the definition");
    std::string at = "document " + std::to_string(d);
    WANT(S(desc->ns()), ns, "the namespace");
    WANT(S(desc->template_ns()), tns, "the templateNs");
    WANT(S(desc->dictionary()), dict, "the dictionary");
    WANT((std::size_t)desc->size(), want.size(), "the number of templates");
    for (std::size_t k = 0; k < want.size(); ++k) {
      check((*desc)[k], want[k], at, count);
      if (want[k].id) {
        std::size_t j = 0;
        while (want[j].id != want[k].id) ++j;
        PBT_CHECK(desc->instruction_with_id(want[k].id) == (*desc)[j], "the template with id " << want[k].id << " is not found");
      }
    }
    for (auto &t : g.types)
      if (t.second.shared) g.shared.push_back(t);
  }
  c.sub = count;
  if (g.wrapped) c.label("field elements");
  if (g.typed) c.label("defined types");
  if (g.comments) c.label("comments");
  if (docs > 1) c.label("two documents");
  c.nontrivial = count >= 10;
}

void c17_invalid(Src &s, Case &c) {
  typedef std::vector<std::string> L;
  auto junk_int = [&](bool uns, int bits) -> std::string {
    L v = {"x", "1x", "--1", "1.5", "1e3", "0x10", "", "99999999999999999999999", "one", "1 2", "+-1"};
    if (uns) { v.push_back("-1"); v.push_back("-9223372036854775808"); }
    if (bits == 32) { v.push_back("4294967296"); v.push_back("-2147483649"); v.push_back("9223372036854775807"); if (!uns) v.push_back("2147483648"); }
    if (bits == 64) { v.push_back("18446744073709551616"); v.push_back("-9223372036854775809"); if (!uns) v.push_back("9223372036854775808"); }
    return s.pick(v);
  };
  std::string op = s.pick(L{"default", "copy", "constant", "delta"}), f, what, opt = s.coin() ? " presence=\"optional\"" : "";
  auto with = [&](const std::string &elem, const std::string &attrs, const std::string &val, const std::string &before = "") {
    bool wrap = s.chance(1, 3);
    if (wrap) return "<field name=\"x\"" + opt + "><" + elem + attrs + ">" + before + "<" + op + " value=\"" + val + "\"/></" + elem + "></field>";
    return "<" + elem + " name=\"x\"" + opt + attrs + ">" + before + "<" + op + " value=\"" + val + "\"/></" + elem + ">";
  };
  std::string xml;
  unsigned kind = (unsigned)s.below(14);
  switch (kind) {
  case 0: { what = "an initial value of an integer"; unsigned t = (unsigned)s.below(4); static const char *n[] = {"int32", "uInt32", "int64", "uInt64"}; f = with(n[t], "", junk_int(t & 1, t < 2 ? 32 : 64)); break; }
  case 1: what = "an initial value of a decimal"; f = with("decimal", "", s.pick(L{"x", "1.2.3", "", ".", "-", "1x", "1e", "1.5 6", "--1"})); break;
  case 2: what = "an initial exponent"; f = "<decimal name=\"x\"><exponent><" + op + " value=\"" + s.pick(L{"64", "-64", "128", "x", "", "1.5", "99999"}) + "\"/></exponent><mantissa><delta/></mantissa></decimal>"; break;
  case 3: what = "an initial mantissa"; f = "<decimal name=\"x\"><exponent><copy/></exponent><mantissa><" + op + " value=\"" + junk_int(false, 64) + "\"/></mantissa></decimal>"; break;
  case 4: what = "an initial byte vector"; f = with("byteVector", "", s.pick(L{"1", "123", "0g", "x", "0x12", "12 3", "ab-c", "zz"})); break;
  case 5: op = s.pick(L{"default", "copy", "constant"}); what = "an initial element"; f = with("enum", "", s.pick(L{"C", "2", "a", "x"}), "<element name=\"A\"/><element name=\"B\"/>"); break;
  case 6: what = "an unknown type"; {
    std::string u = s.pick(L{"int16", "Int32", "uint32", "foo", "INT32", "copy", "element", "D1", "int32x"});
    f = s.coin() ? "<" + u + " name=\"x\"" + opt + "/>" : "<field name=\"x\"" + opt + "><type name=\"" + u + "\"/></field>";
    break;
  }
  case 7: what = "a field without a type"; f = s.pick(L{"<field name=\"x\"/>", "<field name=\"x\"></field>", "<field name=\"x\"><type/></field>", "<field/>", "<field name=\"x\"><foo/></field>", "<field name=\"x\"><copy/></field>"}); break;
  case 8: what = "an unknown template"; f = s.pick(L{"<templateRef name=\"U\"/>", "<templateRef name=\"T\"/>", "<templateRef name=\"Q\" templateNs=\"urn:x\"/>", "<group name=\"g\"><templateRef name=\"U\"/></group>",
                                                     "<sequence name=\"g\"><templateRef name=\"U\"/></sequence>", "<templateRef name=\"G\"/>", "<templateRef name=\"\"/>"}); break;
  case 9: what = "a nested template"; f = s.coin() ? "<template name=\"N\" id=\"9\"><int32 name=\"a\"/></template>" : "<group name=\"g\"><template name=\"N\"/></group>"; break;
  case 10: what = "an id"; f = "<int32 name=\"x\" id=\"" + junk_int(true, 32) + "\"/>"; break;
  case 11: what = "elements of an enumeration"; f = "<enum name=\"x\">" + s.pick(L{"<element name=\"A\" value=\"1\"/><element name=\"B\" value=\"1\"/>", "<element name=\"A\" value=\"2\"/><element name=\"B\" value=\"1\"/>", "<element value=\"1\"/>", "<element name=\"A\" value=\"1\"/><element name=\"B\"/>",
                                                     "<element name=\"A\" value=\"x\"/>", "<element name=\"A\" value=\"-1\"/>"}) + "</enum>"; break;
  case 12: what = "the id of a template"; break;
  default: what = "a document"; break;
  }
  std::string id = kind == 12 ? junk_int(true, 32) : "1";
  std::string before = "<int32 name=\"a\"/>", after = "<string name=\"b\"/>";
  if (s.coin()) before.clear();
  if (s.coin()) after.clear();
  if (kind < 12 && kind != 9 && s.chance(1, 3)) f = s.coin() ? "<group name=\"gg\">" + f + "</group>" : "<sequence name=\"gg\">" + f + "</sequence>";
  xml = "<?xml version=\"1.0\"?>\n<templates xmlns=\"http://www.fixprotocol.org/ns/fast/td/1.1\"><define name=\"G\"><group><int32 name=\"y\"/></group></define>"
        "<template name=\"Q\" id=\"7\"><int32 name=\"q\"/></template><template name=\"T\" id=\"" + id + "\">" + before + f + after + "</template></templates>";
  if (kind >= 13) {
    unsigned k = (unsigned)s.below(4);
    if (k == 0) xml.resize((std::size_t)s.range(0, (int64_t)xml.size() - 1)); // cut
    else if (k == 1) xml = s.pick(L{"", " ", "<", "<a", "hello", "<?xml version=\"1.0\"?>", "<!-- x -->", "<foo/>", "<template name=\"T\" id=\"1\"><int32 name=\"a\"/></template>", "<define name=\"D\"><int32/></define>", "<view/>", "{}"});
    else if (k == 2) { // an end tag of another element
      std::size_t p = xml.rfind("</template>");
      xml.replace(p, 11, s.pick(L{"</templates>", "</templat>", "<template>", "</group>"}));
    } else { std::size_t p = xml.find(" name=\"q\""); xml.replace(p, 9, s.pick(L{" name=\"q", " name=q", " name", " name=", " =\"q\""})); }
  }
  what += " that cannot be";
  c.mix(xml);
  if (c.want_log) c.note(xml);
  bool thrown = br::throws([&] {
    template_registry reg;
    dynamic_templates_description d(xml.c_str(), "", &reg);
  });
  PBT_CHECK(thrown, what << " is accepted");
  c.nontrivial = true;
}

// ----------------------------------------------------------------- mutation
void walk(const field_instruction *p, std::size_t &n, int depth, bool &large) {
  ++n;
  PBT_CHECK(depth < 60, "endless definition");
  n += std::strlen(p->name() ? p->name() : "") + std::strlen(p->ns() ? p->ns() : "");
  if (auto g = dynamic_cast<const group_field_instruction *>(p))
    for (auto q : g->subinstructions()) walk(q, n, depth + 1, large);
  if (auto q = dynamic_cast<const sequence_field_instruction *>(p)) {
    walk(q->length_instruction(), n, depth + 1, large);
    if (q->length_instruction()->initial_value().get<uint32_t>() > 1000) large = true; // a new message has that many elements
  }
}
void c17_mutate(Src &s, Case &c) {
  Gen g(s);
  std::vector<N> want;
  std::string ns, tns, dict;
  std::string xml = g.document(0, want, ns, tns, dict);
  struct Tok { std::size_t a, b; }; // <...>
  for (std::size_t n = (std::size_t)s.range(1, 4); n; --n) {
    std::vector<Tok> toks, attrs;
    for (std::size_t k = 0; k < xml.size(); ++k)
      if (xml[k] == '<') {
        std::size_t e = k;
        char q = 0;
        for (; e < xml.size() && (q || xml[e] != '>'); ++e) {
          if (q) { if (xml[e] == q) q = 0; }
          else if (xml[e] == '"' || xml[e] == '\'') q = xml[e];
        }
        if (e >= xml.size()) break;
        toks.push_back({k, e + 1});
        for (std::size_t j = k; j < e; ++j)
          if (xml[j] == ' ' && j + 1 < e && xml[j + 1] != '/' ) {
            std::size_t x = j + 1;
            char r = 0;
            for (; x < e && (r || (xml[x] != ' ' && xml[x] != '/')); ++x) {
              if (r) { if (xml[x] == r) r = 0; }
              else if (xml[x] == '"' || xml[x] == '\'') r = xml[x];
            }
            attrs.push_back({j, x});
            j = x - 1;
          }
        k = e;
      }
    if (toks.empty()) break;
    Tok t = toks[s.below(toks.size())], u = toks[s.below(toks.size())];
    switch (s.below(11)) {
    case 0: xml.erase(t.a, t.b - t.a); break;
    case 1: xml.insert(u.a, xml.substr(t.a, t.b - t.a)); break;
    case 2: if (!attrs.empty()) { Tok x = attrs[s.below(attrs.size())]; xml.erase(x.a, x.b - x.a); } break;
    case 3: if (!attrs.empty()) { Tok x = attrs[s.below(attrs.size())]; std::string y = xml.substr(x.a, x.b - x.a); xml.insert(u.b - (xml[u.b - 2] == '/' ? 2 : 1), y); } break;
    case 4: if (!attrs.empty()) {
        Tok x = attrs[s.below(attrs.size())];
        std::string y = xml.substr(x.a, x.b - x.a);
        std::size_t q = y.find('=');
        if (q != std::string::npos) xml.replace(x.a, x.b - x.a, y.substr(0, q) + "=\"" + s.pick(std::vector<std::string>{"", "-1", "99999999999999999999", "x", "optional", "unicode", "D0_0", "T0", "&amp;", "int32", "type", "template", "0", "1", "3.5", "63", "abcd"}) + "\"");
      }
      break;
    case 5: { // another element name
      std::size_t k = t.a + 1, e = k;
      while (e < t.b && !std::strchr(" />\n\t", xml[e])) ++e;
      xml.replace(k, e - k, s.pick(std::vector<std::string>{"int32", "group", "sequence", "template", "templateRef", "type", "field", "length", "enum", "element", "copy", "constant", "exponent", "mantissa", "define", "view", "typeRef", "templates", "decimal", "byteVector", "boolean", "string", "int64Vector", "reference"}));
      break;
    }
    case 6: xml[s.below(xml.size())] = (char)s.range(1, 255); break;
    case 7: xml.erase((std::size_t)s.below(xml.size()), (std::size_t)s.range(1, 20)); break;
    case 8: xml.insert(t.b, s.pick(std::vector<std::string>{"<group name=\"z\"/>", "<sequence name=\"z\"/>", "<sequence name=\"z\"><length/></sequence>", "<templateRef/>", "<templateRef name=\"\"/>", "<length/>", "<typeRef/>", "<type/>", "<field/>", "<enum name=\"z\"/>", "<boolean/>", "<group/>", "<sequence><group/></sequence>",
                                                                "<define/>", "<define name=\"z\"/>", "<define><int32/></define>", "<define name=\"group\"><int32/></define>", "<view/>", "<view name=\"v\"/>", "<decimal name=\"z\"><exponent/><mantissa/></decimal>", "<element/>", "<string charset=\"x\" name=\"z\"/>"})); break;
    case 9: { Tok x = toks[s.below(toks.size())]; std::string y = xml.substr(std::min(x.a, t.a), std::max(x.b, t.b) - std::min(x.a, t.a)); xml.insert(u.b, y); break; }
    default: { Tok x = toks[s.below(toks.size())]; std::size_t p = std::min(x.a, t.a), q = std::max(x.b, t.b); xml.erase(p, q - p); break; }
    }
    if (xml.empty()) xml = " ";
  }
  c.mix(xml);
  if (c.want_log) c.note(xml);
  template_registry reg;
  std::unique_ptr<dynamic_templates_description> desc;
  bool thrown = br::throws([&] { desc.reset(new dynamic_templates_description(xml.c_str(), "", &reg)); });
  c.label(thrown ? "refused" : "accepted");
  std::size_t n = 0;
  if (!thrown) {
    malloc_allocator alloc;
    for (std::size_t k = 0; k < desc->size(); ++k) {
      bool large = false;
      walk((*desc)[k], n, 0, large);
      if (large) continue;
      message_type m(&alloc, const_cast<template_instruction *>((*desc)[k]));
      n += m.cref().num_fields();
    }
  }
  c.nontrivial = true;
}

PBT_PROPERTY(xetra ? "C17.xetra" : "C17.definitions",
             "1-2 documents of templates and type definitions with every type, operator and attribute in every position, static and dynamic template references, <field> elements, comments, quoting and character references; "
             "every field of every instruction is compared with what was written. Non-trivial: at least 10 instructions.",
             c17, 15000, 200000)
#ifndef XETRA_FAST_SPECIFICATION // (accepts more)
PBT_PROPERTY("C17.invalid", "definitions with one thing that cannot be interpreted (values, types, references, ids, enumerations, nesting, ill-formed documents): must be refused. Non-trivial: all.", c17_invalid, 8000, 80000)
PBT_PROPERTY("C17.mutate", "definitions with 1-4 mutations of tags, attributes or characters: refused with an exception or loaded, under AddressSanitizer. Non-trivial: all.", c17_mutate, 12000, 200000)
#endif
} // namespace
