#pragma once
#include <memory>
#include <mfast.h>
#include <vector>
struct V2Encoder {
  virtual ~V2Encoder() {}
  virtual std::size_t encode(const mfast::message_cref &m, char *b, std::size_t n, bool reset) = 0;
  virtual void encode(const mfast::message_cref &m, std::vector<char> &b, bool reset) = 0;
  virtual void allow_overlong_pmap(bool v) = 0;
};
struct V2Decoder {
  virtual ~V2Decoder() {}
  // returned by value: reference to the message the decoder keeps
  virtual mfast::message_cref decode(const char *&first, const char *last, bool reset) = 0;
};
struct V2Entry {
  unsigned schema;
  const mfast::templates_description *desc;
  V2Encoder *(*encoder)();
  V2Decoder *(*decoder)(mfast::allocator *alloc, unsigned tokens); // 0, 1 or 3
};
extern "C" unsigned v2_seed();
const std::vector<V2Entry> &v2_entries();
void v2_add(const V2Entry &e);
