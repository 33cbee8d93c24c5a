// included by the generated instantiation units after the generated header
#pragma once
#include "v2_iface.h"
#include <mfast/coder/fast_decoder_v2.h>
#include <mfast/coder/fast_encoder_v2.h>
template <typename D> struct V2EncT : V2Encoder {
  mfast::fast_encoder_v2 e;
  explicit V2EncT(const D *d) : e(d) {}
  std::size_t encode(const mfast::message_cref &m, char *b, std::size_t n, bool reset) override { return e.encode(m, b, n, reset); }
  void encode(const mfast::message_cref &m, std::vector<char> &b, bool reset) override { e.encode(m, b, reset); }
  void allow_overlong_pmap(bool v) override { e.allow_overlong_pmap(v); }
};
template <typename D> struct V2Dec0 : V2Decoder {
  mfast::fast_decoder_v2<0> d;
  V2Dec0(mfast::allocator *a, const D *x) : d(a, x) {}
  mfast::message_cref decode(const char *&first, const char *last, bool reset) override { return d.decode(first, last, reset); }
};
template <typename D, unsigned N> struct V2DecN : V2Decoder {
  mfast::fast_decoder_v2<N> d;
  unsigned k = 0;
  V2DecN(mfast::allocator *a, const D *x) : d(a, x) {}
  mfast::message_cref decode(const char *&first, const char *last, bool reset) override {
    return d.decode(k++ % N, first, last, reset);
  }
};
