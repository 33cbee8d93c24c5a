// An allocator that checks how it is used: every block is released once, with
// the size it was given, and nothing is left at the end.
#pragma once
#include "pbt.h"
#include <cstring>
#include <map>
#include <mfast/allocator.h>

struct checked_allocator : mfast::allocator {
  std::map<void *, std::size_t> live;
  std::string error;
  std::size_t calls = 0;
  unsigned slack = 0; // reallocate() gives that many bytes more than asked
  void fail(const std::string &e) { if (error.empty()) error = e; }
  void *allocate(std::size_t n) override {
    ++calls;
    void *p = ::malloc(n ? n : 1);
    memset(p, 0xdb, n);
    live[p] = n;
    return p;
  }
  std::size_t reallocate(void *&p, std::size_t old, std::size_t n) override {
    ++calls;
    std::size_t m = n + slack;
    void *q = ::malloc(m ? m : 1);
    memset(q, 0xdb, m);
    if (p) {
      auto it = live.find(p);
      if (it == live.end()) fail("reallocate of a pointer that is not allocated");
      else {
        if (it->second != old) fail("reallocate with old size " + std::to_string(old) + " of a block of " + std::to_string(it->second));
        memcpy(q, p, std::min(it->second, n));
        live.erase(it);
        ::free(p);
      }
    } else if (old)
      fail("reallocate of a null pointer with old size " + std::to_string(old));
    p = q;
    live[p] = m;
    return m;
  }
  void deallocate(void *p, std::size_t n) override {
    ++calls;
    if (!p) return;
    auto it = live.find(p);
    if (it == live.end()) { fail("deallocate of a pointer that is not allocated"); return; }
    if (it->second != n) fail("deallocate with size " + std::to_string(n) + " of a block of " + std::to_string(it->second));
    live.erase(it);
    ::free(p);
  }
  void check(const char *when) {
    if (!error.empty()) throw pbt::Failure(error);
    if (when && !live.empty()) throw pbt::Failure(std::to_string(live.size()) + " blocks are not released " + when);
  }
  ~checked_allocator() { for (auto &x : live) ::free(x.first); }
};
