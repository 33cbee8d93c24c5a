// An independent strict JSON parser (RFC 8259) used as an oracle.
#pragma once
#include <cstdint>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace js {
struct Value {
  enum Kind { NUL, BOOL, NUMBER, STRING, ARRAY, OBJECT } k = NUL;
  bool b = false;
  std::string s; // string contents or the text of a number
  std::vector<Value> a;
  std::vector<std::pair<std::string, Value>> o;
};
struct Bad : std::runtime_error {
  explicit Bad(const std::string &m) : std::runtime_error(m) {}
};
class Parser {
public:
  explicit Parser(const std::string &t) : t_(t) {}
  Value parse() {
    Value v = value(0);
    ws();
    if (p_ != t_.size()) throw Bad("text after the value at " + std::to_string(p_));
    return v;
  }

private:
  const std::string &t_;
  std::size_t p_ = 0;
  [[noreturn]] void bad(const char *m) { throw Bad(std::string(m) + " at " + std::to_string(p_)); }
  int peek() { return p_ < t_.size() ? (unsigned char)t_[p_] : -1; }
  void ws() {
    while (p_ < t_.size() && (t_[p_] == ' ' || t_[p_] == '\t' || t_[p_] == '\n' || t_[p_] == '\r')) ++p_;
  }
  void word(const char *w) {
    for (; *w; ++w, ++p_)
      if (peek() != *w) bad("unknown literal");
  }
  static void utf8(std::string &r, uint32_t c) {
    if (c < 0x80) r += (char)c;
    else if (c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
    else { r += (char)(0xF0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
  }
  uint32_t hex4() {
    uint32_t v = 0;
    for (int k = 0; k < 4; ++k, ++p_) {
      int c = peek();
      if (c >= '0' && c <= '9') v = v * 16 + (uint32_t)(c - '0');
      else if (c >= 'a' && c <= 'f') v = v * 16 + (uint32_t)(c - 'a' + 10);
      else if (c >= 'A' && c <= 'F') v = v * 16 + (uint32_t)(c - 'A' + 10);
      else bad("bad \\u escape");
    }
    return v;
  }
  std::string string() {
    if (peek() != '"') bad("expected a string");
    ++p_;
    std::string r;
    for (;;) {
      int c = peek();
      if (c < 0) bad("unterminated string");
      if (c < 0x20) bad("control character in a string");
      ++p_;
      if (c == '"') return r;
      if (c != '\\') { r += (char)c; continue; }
      c = peek();
      ++p_;
      switch (c) {
      case '"': case '\\': case '/': r += (char)c; break;
      case 'b': r += '\b'; break;
      case 'f': r += '\f'; break;
      case 'n': r += '\n'; break;
      case 'r': r += '\r'; break;
      case 't': r += '\t'; break;
      case 'u': {
        uint32_t v = hex4();
        if (v >= 0xD800 && v < 0xDC00) {
          if (p_ + 1 >= t_.size() || t_[p_] != '\\' || t_[p_ + 1] != 'u') bad("lone surrogate");
          p_ += 2;
          uint32_t w = hex4();
          if (w < 0xDC00 || w >= 0xE000) bad("lone surrogate");
          v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00);
        } else if (v >= 0xDC00 && v < 0xE000)
          bad("lone surrogate");
        utf8(r, v);
        break;
      }
      default: bad("bad escape");
      }
    }
  }
  std::string number() {
    std::size_t b = p_;
    auto digits = [&] {
      if (!(peek() >= '0' && peek() <= '9')) bad("expected a digit");
      while (peek() >= '0' && peek() <= '9') ++p_;
    };
    if (peek() == '-') ++p_;
    if (peek() == '0') {
      ++p_;
      if (peek() >= '0' && peek() <= '9') bad("leading zero");
    } else
      digits();
    if (peek() == '.') { ++p_; digits(); }
    if (peek() == 'e' || peek() == 'E') {
      ++p_;
      if (peek() == '+' || peek() == '-') ++p_;
      digits();
    }
    return t_.substr(b, p_ - b);
  }
  Value value(int depth) {
    if (depth > 500) bad("too deep");
    ws();
    Value v;
    switch (peek()) {
    case '{':
      v.k = Value::OBJECT;
      ++p_;
      ws();
      if (peek() == '}') { ++p_; return v; }
      for (;;) {
        ws();
        std::string key = string();
        ws();
        if (peek() != ':') bad("expected :");
        ++p_;
        Value e = value(depth + 1);
        v.o.emplace_back(std::move(key), std::move(e));
        ws();
        if (peek() == ',') { ++p_; continue; }
        if (peek() != '}') bad("expected , or }");
        ++p_;
        return v;
      }
    case '[':
      v.k = Value::ARRAY;
      ++p_;
      ws();
      if (peek() == ']') { ++p_; return v; }
      for (;;) {
        v.a.push_back(value(depth + 1));
        ws();
        if (peek() == ',') { ++p_; continue; }
        if (peek() != ']') bad("expected , or ]");
        ++p_;
        return v;
      }
    case '"': v.k = Value::STRING; v.s = string(); return v;
    case 't': word("true"); v.k = Value::BOOL; v.b = true; return v;
    case 'f': word("false"); v.k = Value::BOOL; return v;
    case 'n': word("null"); return v;
    default: v.k = Value::NUMBER; v.s = number(); return v;
    }
  }
};
inline Value parse(const std::string &t) { return Parser(t).parse(); }

// exact decimal number in canonical form: sign, digits without leading or
// trailing zeros, exponent ("0" for zero)
inline std::string canonical(const std::string &num) {
  bool neg = false;
  std::string d;
  long e = 0;
  std::size_t p = 0;
  if (p < num.size() && (num[p] == '-' || num[p] == '+')) neg = num[p++] == '-';
  bool frac = false;
  for (; p < num.size(); ++p) {
    if (num[p] == '.') { frac = true; continue; }
    if (num[p] == 'e' || num[p] == 'E') break;
    d += num[p];
    if (frac) --e;
  }
  if (p < num.size()) {
    std::string x = num.substr(p + 1);
    e += x.size() > 8 ? (x[0] == '-' ? -100000000 : 100000000) : std::stol(x);
  }
  std::size_t z = d.find_first_not_of('0');
  if (z == std::string::npos) return "0";
  d = d.substr(z);
  while (d.back() == '0') { d.pop_back(); ++e; }
  return (neg ? "-" : "") + d + "e" + std::to_string(e);
}
} // namespace js
