// Property-based-testing kernel: every random choice of a case is drawn from a
// Src, which records the choices; a failing case is shrunk by editing the
// recorded choice sequence and re-running the case in a forked child.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Failure : std::runtime_error {
  explicit Failure(const std::string &m) : std::runtime_error(m) {}
};
// raised when a case reproduces exactly a finding listed in known_findings
struct Known : std::runtime_error {
  std::string id;
  explicit Known(const std::string &i) : std::runtime_error(i), id(i) {}
};

struct Overrun {};

class Src {
public:
  explicit Src(uint64_t seed) : state_(seed * 0x9E3779B97F4A7C15ull + 0x1234567), replay_(nullptr) {}
  explicit Src(const std::vector<uint64_t> *replay) : state_(0), replay_(replay) {}

  // uniform value in [0, n)
  uint64_t below(uint64_t n) {
    if (n <= 1) { return 0; }
    uint64_t v;
    if (replay_) {
      v = pos_ < replay_->size() ? (*replay_)[pos_] : 0;
      if (v >= n) v %= n;
    } else
      v = next() % n;
    ++pos_;
    rec_.push_back(v);
    if (rec_.size() > 2000000) throw Overrun();
    return v;
  }
  uint64_t raw64() {
    uint64_t v;
    if (replay_)
      v = pos_ < replay_->size() ? (*replay_)[pos_] : 0;
    else
      v = next();
    ++pos_;
    rec_.push_back(v);
    return v;
  }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
  // true with probability num/den; 0-choice (shrink target) is false
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
  bool coin() { return below(2) == 1; }
  template <typename T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  // weighted index
  unsigned weighted(std::initializer_list<unsigned> w) {
    unsigned s = 0;
    for (auto x : w) s += x;
    unsigned r = (unsigned)below(s), i = 0;
    for (auto x : w) {
      if (r < x) return i;
      r -= x;
      ++i;
    }
    return 0;
  }
  const std::vector<uint64_t> &record() const { return rec_; }

private:
  uint64_t next() { // splitmix64
    uint64_t z = (state_ += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t state_;
  const std::vector<uint64_t> *replay_;
  std::size_t pos_ = 0;
  std::vector<uint64_t> rec_;
};

// what a case tells about itself
struct Case {
  bool nontrivial = false;
  uint64_t hash = 1469598103934665603ull; // of the generated content
  uint64_t sub = 1;                        // evaluations inside this case
  std::map<std::string, uint64_t> labels;
  std::ostringstream log; // human readable description (built lazily)
  bool want_log = false;
  int log_fd = -1; // notes also go here at once, so that they survive a crash
  void note(const std::string &s);
  void label(const std::string &s, uint64_t n = 1) { labels[s] += n; }
  void mix(uint64_t v) { hash = (hash ^ v) * 1099511628211ull; }
  void mix(const std::string &s) {
    for (unsigned char c : s) mix((uint64_t)c);
    mix(0x100);
  }
};

typedef void (*CaseFn)(Src &, Case &);

struct Property {
  const char *id;
  const char *rule; // how cases are made and what makes one non-trivial
  CaseFn fn;
  uint64_t quick_cases, thorough_cases;
};

// a property id may have several parts (drivers); registration order is kept
void register_property(const Property &p);
struct Registrar {
  Registrar(const Property &p) { register_property(p); }
};
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_PROPERTY(id, rule, fn, q, t)                                                          \
  static ::pbt::Registrar PBT_CAT(pbt_reg_, __LINE__)(::pbt::Property{id, rule, fn, q, t});

#define PBT_FAIL(msg)                                                                             \
  do {                                                                                            \
    std::ostringstream pbt_os_;                                                                   \
    pbt_os_ << msg;                                                                               \
    throw ::pbt::Failure(pbt_os_.str());                                                          \
  } while (0)
#define PBT_CHECK(cond, msg)                                                                      \
  do {                                                                                            \
    if (!(cond)) PBT_FAIL(msg);                                                                   \
  } while (0)

std::string hex(const void *p, std::size_t n);
inline std::string hex(const std::string &s) { return hex(s.data(), s.size()); }
inline std::string hex(const std::vector<char> &s) { return hex(s.data(), s.size()); }

// true while running inside the byte-buffer-guard aware driver
int pbt_main(int argc, char **argv);
} // namespace pbt
