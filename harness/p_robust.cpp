// C06, C07, C08, C10 with the runtime codec.
#include "robust.h"
using namespace rb;

struct E1 : V2Encoder {
  mfast::fast_encoder e;
  std::size_t encode(const mfast::message_cref &m, char *b, std::size_t n, bool reset) override { return e.encode(m, b, n, reset); }
  void encode(const mfast::message_cref &m, std::vector<char> &b, bool reset) override { e.encode(m, b, reset); }
  void allow_overlong_pmap(bool v) override { e.allow_overlong_pmap(v); }
};
struct D1 : V2Decoder {
  mfast::fast_decoder d;
  explicit D1(mfast::allocator *a) : d(a) {}
  mfast::message_cref decode(const char *&first, const char *last, bool reset) override { return d.decode(first, last, reset); }
};
struct Rt {
  Schema sc;
  std::unique_ptr<br::Loaded> L;
  Codec cd;
  Rt(Src &s, const GenOpt &go) {
    SchemaGen g(s, go);
    sc = g.gen();
    L.reset(new br::Loaded(sc));
    cd.sc = &sc;
    cd.b = &L->b;
    cd.name = "runtime";
    cd.no_absent_default = 1;
    const mfast::templates_description *d = L->desc.get();
    cd.enc = [d] { auto e = new E1; e->e.include({d}); return e; };
    cd.dec = [d](mfast::allocator *a) { auto x = new D1(a); x->d.include({d}); return x; };
  }
};
static void a06(Src &s, Case &c) {
  GenOpt go;
  go.no_empty_delta = false;
  go.no_empty_mandatory = false;
  go.no_empty_elements = true;
  Rt r(s, go);
  c06(s, c, r.cd);
}
static void a07(Src &s, Case &c) {
  GenOpt go;
  go.no_empty_delta = false;
  go.no_empty_mandatory = false;
  Rt r(s, go);
  c07(s, c, r.cd);
}
static void a08(Src &s, Case &c) {
  GenOpt go;
  go.no_empty_elements = true; // (garbage is decoded)
  Rt r(s, go);
  c08(s, c, r.cd);
}
static void a10(Src &s, Case &c) {
  GenOpt go;
  Rt r(s, go);
  c10(s, c, r.cd);
}
PBT_PROPERTY("C06.v1", R06, a06, 60000, 2000000)
PBT_PROPERTY("C07.v1", R07, a07, 60000, 1500000)
PBT_PROPERTY("C08.v1", R08, a08, 40000, 1000000)
PBT_PROPERTY("C10.v1", R10, a10, 30000, 800000)
