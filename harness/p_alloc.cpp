// C16: the allocators against a model of live blocks; the memory of the arena
// after many resets; what messages and codecs take from an allocator.
#include "alloc_check.h"
#include "codec_common.h"
#include <mfast/arena_allocator.h>
#include <mfast/malloc_allocator.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace cc;

namespace {
struct Block { char *p; std::size_t n; unsigned fill; };
inline char pat(unsigned fill, std::size_t k) { return (char)(fill * 37 + k * 11 + (k >> 8)); }

std::size_t gen_size(Src &s) {
  switch (s.weighted({3, 3, 2, 3, 1, 1})) {
  case 0: return s.below(17);
  case 1: return s.below(300);
  case 2: return 56 + s.below(17);
  case 3: return 3900 + s.below(260);
  case 4: return 8000 + s.below(300);
  default: return s.below(20000);
  }
}

void blocks(Src &s, Case &c) {
  bool is_arena = s.chance(3, 4);
  mfast::arena_allocator arena;
  mfast::allocator *a = is_arena ? (mfast::allocator *)&arena : mfast::malloc_allocator::instance();
  std::vector<Block> live;
  std::map<char *, std::size_t> used; // live blocks by address
  unsigned fills = 0, resets = 0, reallocs = 0;
  std::size_t ops = (std::size_t)s.range(1, 60);
  std::string log;
  auto verify = [&](const Block &b, const char *when) {
    for (std::size_t k = 0; k < b.n; ++k)
      if (b.p[k] != pat(b.fill, k)) PBT_FAIL(when << ": byte " << k << " of a live block of " << b.n << " bytes has changed");
  };
  auto add = [&](void *v, std::size_t n, const char *how) {
    char *p = (char *)v;
    PBT_CHECK(p != nullptr, how << " gives a null pointer for " << n << " bytes");
    PBT_CHECK((uintptr_t)p % alignof(uint64_t) == 0, how << ": the block of " << n << " bytes is not aligned");
    if (n) {
      auto it = used.upper_bound(p);
      if (it != used.end()) PBT_CHECK(p + n <= it->first, how << ": the block of " << n << " bytes overlaps a live block");
      if (it != used.begin()) {
        --it;
        PBT_CHECK(it->first + it->second <= p, how << ": the block of " << n << " bytes starts inside a live block of " << it->second);
      }
      used[p] = n;
    }
    Block b{p, n, ++fills};
    for (std::size_t k = 0; k < n; ++k) p[k] = pat(b.fill, k);
    live.push_back(b);
  };
  for (std::size_t i = 0; i < ops; ++i) {
    switch (s.weighted({6, 5, 2, is_arena ? 1u : 0u, 1})) {
    case 0: {
      std::size_t n = gen_size(s);
      if (c.want_log) c.note("allocate " + std::to_string(n));
      c.mix(n);
      add(a->allocate(n), n, "allocate");
      break;
    }
    case 1: { // grow (now and then shrink) a block, or a null pointer
      std::size_t k = s.below(live.size() + 1);
      Block old{nullptr, 0, 0};
      if (k < live.size()) {
        old = live[k];
        live.erase(live.begin() + (long)k);
        used.erase(old.p);
        if (!old.n) old.p = nullptr;
      }
      std::size_t n = s.chance(1, 6) ? s.below(old.n + 1) + 1 : old.n + gen_size(s) + 1;
      // what the allocator is told about the size: the size of the block
      void *p = old.p;
      if (c.want_log) c.note("reallocate " + std::to_string(old.n) + " to " + std::to_string(n));
      c.mix(n * 65536 + old.n);
      if (k < live.size() + 1 && old.p == nullptr && !is_arena) p = nullptr;
      std::vector<char> before(old.p, old.p + old.n);
      std::size_t cap = a->reallocate(p, old.n, n);
      ++reallocs;
      PBT_CHECK(cap >= n, "reallocate to " << n << " bytes gives " << cap);
      for (std::size_t j = 0; j < std::min(old.n, n); ++j)
        PBT_CHECK(((char *)p)[j] == before[j], "reallocate from " << old.n << " to " << n << " bytes changes byte " << j);
      add(p, cap, "reallocate");
      break;
    }
    case 2: {
      if (live.empty()) break;
      std::size_t k = s.below(live.size());
      Block b = live[k];
      verify(b, "before its release");
      if (c.want_log) c.note("deallocate " + std::to_string(b.n));
      live.erase(live.begin() + (long)k);
      used.erase(b.p);
      a->deallocate(b.p, b.n);
      break;
    }
    case 3:
      if (c.want_log) c.note("reset");
      c.mix(12345);
      for (auto &b : live) verify(b, "before a reset");
      arena.reset();
      live.clear();
      used.clear();
      ++resets;
      break;
    default:
      for (auto &b : live) verify(b, "later");
    }
  }
  for (auto &b : live) verify(b, "at the end");
  for (auto &b : live) a->deallocate(b.p, b.n);
  c.sub = ops;
  if (resets) c.label("with resets");
  c.nontrivial = ops >= 5 && (resets || !is_arena) && reallocs;
}

// the same work, again and again: the arena may not take more and more memory
void reuse(Src &s, Case &c) {
  mfast::arena_allocator arena;
  std::size_t n = (std::size_t)s.range(1, 6);
  std::vector<std::pair<bool, std::size_t>> work; // reallocate? size
  for (std::size_t k = 0; k < n; ++k) work.push_back({s.chance(1, 4), gen_size(s)});
  std::size_t bound = 2 * 4096;
  for (auto &w : work) {
    bound += (n + 2) * ((w.second * (w.first ? 2 : 1) + 200) / 4096 + 2) * 4096;
    c.mix(w.second * 2 + w.first);
    if (c.want_log) c.note((w.first ? "reallocate to " : "allocate ") + std::to_string(w.second));
  }
  // without loss, a request takes a new chunk only when all chunks that are
  // large enough hold blocks of the current round
  std::size_t rounds = bound / 4096 + 100;
  std::size_t before = __sanitizer_get_current_allocated_bytes();
  for (std::size_t r = 0; r < rounds; ++r) {
    for (auto &w : work) {
      void *p = nullptr;
      if (w.first) arena.reallocate(p, 0, w.second);
      else p = arena.allocate(w.second);
      if (w.second) std::memset(p, (int)r, w.second);
    }
    arena.reset();
  }
  std::size_t after = __sanitizer_get_current_allocated_bytes();
  std::size_t grown = after > before ? after - before : 0;
  PBT_CHECK(grown <= bound, "after " << rounds << " rounds with a reset after each, the arena holds " << grown << " bytes more (at most " << bound << " can be in use)");
  c.sub = rounds;
  c.nontrivial = n >= 2;
}

// what a codec takes, it gives back
void codec(Src &s, Case &c) {
  GenOpt go;
  HistOpt ho;
  ho.go.no_absent_default = 1;
  History h = gen_history(s, go, ho);
  checked_allocator al[3];
  for (auto &a : al) a.slack = (unsigned)s.pick(std::vector<int>{0, 1, 64, 200});
  describe(h, c);
  br::Loaded L(h.sc);
  bool early = s.coin();
  {
    mfast::fast_encoder enc(&al[0]);
    enc.include({L.desc.get()});
    std::unique_ptr<mfast::fast_decoder> dec(new mfast::fast_decoder(&al[1]));
    dec->include({L.desc.get()});
    std::vector<char> all;
    for (std::size_t k = 0; k < h.msgs.size(); ++k) {
      mfast::message_type m(&al[2], const_cast<mfast::template_instruction *>(L.b.ti[h.msgs[k].tmpl]));
      L.b.fill(m.ref(), h.sc.t[h.msgs[k].tmpl].f, h.msgs[k].f);
      br::must_not_throw([&] { enc.encode(m.cref(), all, h.resets[k]); }, "encoding");
    }
    al[2].check("after all messages are destroyed");
    // a stream that ends early leaves a message half read
    if (early && all.size()) all.resize(s.below(all.size() + 1));
    std::unique_ptr<char[]> guard(new char[all.size()]);
    std::copy(all.begin(), all.end(), guard.get());
    const char *p = guard.get(), *end = p + all.size();
    for (std::size_t k = 0; k < h.msgs.size() && p < end; ++k) {
      try {
        mfast::message_cref m = dec->decode(p, end, h.resets[k]);
        std::vector<V> got;
        L.b.extract(m, h.sc.t[h.msgs[k].tmpl].f, got);
        if (!eqv(got, h.msgs[k].f)) PBT_FAIL("message #" << k << " is decoded as " << show(h.sc.t[h.msgs[k].tmpl].f, got, h.sc));
      } catch (const boost::exception &) {
        PBT_CHECK(early, "message #" << k << " is not decoded");
        break;
      }
    }
    dec.reset();
  }
  al[0].check("after the encoder is destroyed");
  al[1].check("after the decoder is destroyed");
  c.sub = h.msgs.size();
  label(h, c);
  c.nontrivial = h.msgs.size() >= 2 && al[0].calls + al[1].calls + al[2].calls >= 10;
}
} // namespace
PBT_PROPERTY("C16.blocks", "1-60 operations (allocate, reallocate, deallocate, reset; sizes 0-20000 biased to the chunk size) on an arena or the heap allocator, all live "
             "blocks filled with patterns; non-trivial = at least five operations with a reallocation and (arena) a reset", blocks, 30000, 1000000)
PBT_PROPERTY("C16.reuse", "1-6 requests repeated in several hundred rounds with a reset after each; non-trivial = at least two requests", reuse, 1500, 40000)
PBT_PROPERTY("C16.codec", "template sets and histories of 1-8 messages as for C01, encoder, decoder and messages with allocators that check every call and what is left; "
             "the stream may be cut; non-trivial = at least two messages and ten calls", codec, 12000, 400000)
