#include "pbt.h"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

void pbt_set_death_callback(void (*)());
void Case::note(const std::string &s) {
  if (!want_log) return;
  log << s << "\n";
  if (log_fd >= 0) {
    std::string t = s + "\n";
    ssize_t r = ::write(log_fd, t.data(), t.size());
    (void)r;
  }
}

static std::vector<Property> &registry() {
  static std::vector<Property> r;
  return r;
}
void register_property(const Property &p) { registry().push_back(p); }

std::string hex(const void *p, std::size_t n) {
  static const char *d = "0123456789abcdef";
  std::string r;
  const unsigned char *c = static_cast<const unsigned char *>(p);
  for (std::size_t i = 0; i < n; ++i) {
    if (i) r += ' ';
    r += d[c[i] >> 4];
    r += d[c[i] & 15];
  }
  return r;
}

static std::string json_str(const std::string &s) {
  std::string r = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c == '\n') r += "\\n";
    else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static const unsigned CASE_CPU_LIMIT = 60; // seconds of CPU for one case = hang

enum Status { ST_NONE = 0, ST_PASS = 1, ST_FAIL = 2, ST_KNOWN = 3, ST_SKIP = 4 };

struct Slot {
  volatile uint64_t case_no;
  volatile int in_case;
  volatile int failed; // 1: failure message recorded
  uint64_t done, sub, known;
  char msg[4096];
};

struct RunResult {
  Status st = ST_NONE;
  std::string msg;
  std::vector<uint64_t> rec;
  std::string log;
};

static void arm_cpu_limit() {
  struct itimerval t;
  memset(&t, 0, sizeof t);
  t.it_value.tv_sec = CASE_CPU_LIMIT;
  setitimer(ITIMER_PROF, &t, nullptr);
}

static Status run_once(const Property &p, Src &s, Case &c, std::string &msg) {
  try {
    p.fn(s, c);
    return ST_PASS;
  } catch (const Known &k) {
    msg = k.id;
    return ST_KNOWN;
  } catch (const Failure &f) {
    msg = f.what();
    return ST_FAIL;
  } catch (const Overrun &) {
    return ST_SKIP;
  } catch (const std::exception &e) {
    msg = std::string("unexpected exception escaped: ") + e.what();
    return ST_FAIL;
  } catch (...) {
    msg = "unexpected exception escaped: unknown type";
    return ST_FAIL;
  }
}

static uint64_t mixseed(uint64_t a, uint64_t b, const char *id) {
  uint64_t h = 1469598103934665603ull;
  auto m = [&](uint64_t v) { for (int i = 0; i < 8; ++i) { h = (h ^ (v & 255)) * 1099511628211ull; v >>= 8; } };
  m(a); m(b);
  for (const char *c = id; *c; ++c) m((uint64_t)*c);
  return h;
}

static std::string read_file(const std::string &f) {
  std::ifstream i(f, std::ios::binary);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}

static std::string crash_text(int st, const std::string &errfile) {
  std::ostringstream o;
  if (WIFSIGNALED(st)) {
    int sg = WTERMSIG(st);
    if (sg == SIGPROF) o << "case used more than " << CASE_CPU_LIMIT << " s of CPU (hang)";
    else o << "process killed by signal " << sg;
  } else
    o << "process exited with status " << WEXITSTATUS(st) << " (sanitizer report or assertion)";
  std::string e = read_file(errfile);
  std::size_t pos = e.find("ERROR: AddressSanitizer");
  if (pos == std::string::npos) pos = e.find("runtime error");
  if (pos == std::string::npos) pos = e.find("Assertion");
  if (pos == std::string::npos) pos = 0;
  std::size_t from = e.rfind('\n', pos);
  from = from == std::string::npos ? 0 : from + 1;
  o << "\n" << e.substr(from, 2500);
  return o.str();
}

// run one case (by seed or by replay) in a forked child
static RunResult run_forked(const Property &p, const uint64_t *seed, const std::vector<uint64_t> *rep, bool want_log,
                            const std::string &tmpdir) {
  std::string out = tmpdir + "/child.out", err = tmpdir + "/child.err";
  unlink(out.c_str());
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 2);
    arm_cpu_limit();
    Case c;
    c.want_log = want_log;
    if (want_log) c.log_fd = open((tmpdir + "/case.log").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    std::string msg;
    Src s = seed ? Src(*seed) : Src(rep);
    Status st = run_once(p, s, c, msg);
    std::ofstream o(out, std::ios::binary);
    o << (int)st << "\n" << s.record().size() << "\n";
    for (auto v : s.record()) o << v << " ";
    o << "\n" << msg.size() << "\n" << msg << c.log.str();
    o.close();
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  RunResult r;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    std::ifstream i(out, std::ios::binary);
    int x = 0;
    std::size_t n = 0;
    i >> x >> n;
    r.st = (Status)x;
    r.rec.resize(n);
    for (auto &v : r.rec) i >> v;
    std::size_t m = 0;
    i >> m;
    i.get();
    r.msg.resize(m);
    i.read(&r.msg[0], m);
    std::stringstream ss;
    ss << i.rdbuf();
    r.log = ss.str();
  } else {
    r.st = ST_FAIL;
    r.msg = crash_text(st, err);
    if (rep) r.rec = *rep;
  }
  return r;
}

// A crashing seed run cannot report its record.  Re-derive it: run with a
// recording file that is flushed at each draw would be slow, so instead run in
// a child with the record in shared memory.
static std::vector<uint64_t> record_of_crash(const Property &p, uint64_t seed, const std::string &tmpdir);

struct SharedRec {
  volatile uint64_t n;
  uint64_t v[1 << 20];
};

} // namespace pbt

namespace pbt {
static std::vector<uint64_t> record_of_crash(const Property &p, uint64_t seed, const std::string &tmpdir) {
  SharedRec *sh = (SharedRec *)mmap(nullptr, sizeof(SharedRec), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->n = 0;
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open((tmpdir + "/child.err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 2);
    // Src with the vector data mirrored: simplest is a very long replay-less
    // run with periodic mirroring through an at-crash handler
    static SharedRec *g;
    static Src *gs;
    g = sh;
    Src s(seed);
    gs = &s;
    auto dump = +[]() {
      const auto &r = gs->record();
      uint64_t n = std::min<uint64_t>(r.size(), 1 << 20);
      for (uint64_t i = 0; i < n; ++i) g->v[i] = r[i];
      g->n = n;
    };
    struct H {
      static void sig(int) {
        const auto &r = gs->record();
        uint64_t n = std::min<uint64_t>(r.size(), 1 << 20);
        for (uint64_t i = 0; i < n; ++i) g->v[i] = r[i];
        g->n = n;
        _exit(3);
      }
    };
    pbt_set_death_callback(dump);
    for (int sg : {SIGABRT, SIGFPE, SIGPROF, SIGSEGV, SIGBUS, SIGILL, SIGTRAP}) signal(sg, H::sig);
    arm_cpu_limit();
    Case c;
    std::string msg;
    run_once(p, s, c, msg);
    dump();
    _exit(0);
  }
  int st;
  waitpid(pid, &st, 0);
  std::vector<uint64_t> r(sh->v, sh->v + sh->n);
  munmap(sh, sizeof(SharedRec));
  return r;
}
} // namespace pbt

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
namespace pbt { void pbt_set_death_callback(void (*f)()) { __sanitizer_set_death_callback(f); } }
#else
namespace pbt { void pbt_set_death_callback(void (*)()) {} }
#endif

namespace pbt {

// first line of the message, with digits blanked: used to keep the same kind
// of failure while shrinking
static std::string kind_of(const std::string &m) {
  std::string s = m.substr(0, m.find('\n'));
  std::string r;
  for (char c : s) {
    if (isdigit((unsigned char)c)) continue;
    r += c;
    if (r.size() >= 40) break;
  }
  return r;
}

static std::vector<uint64_t> shrink(const Property &p, std::vector<uint64_t> best, const std::string &kind, double budget_s,
                                    unsigned max_tries, const std::string &tmpdir, unsigned &tries) {
  double t0 = now();
  tries = 0;
  auto attempt = [&](std::vector<uint64_t> cand) -> bool {
    if (tries >= max_tries || now() - t0 > budget_s) return false;
    ++tries;
    RunResult r = run_forked(p, nullptr, &cand, false, tmpdir);
    if (r.st == ST_FAIL && kind_of(r.msg) == kind) {
      std::vector<uint64_t> got = r.rec.size() ? r.rec : cand;
      while (!got.empty() && got.back() == 0) got.pop_back();
      if (got.size() < best.size() || (got.size() == best.size() && got < best)) {
        best = got;
        return true;
      }
    }
    return false;
  };
  while (!best.empty() && best.back() == 0) best.pop_back();
  bool progress = true;
  while (progress && tries < max_tries && now() - t0 < budget_s) {
    progress = false;
    // delete blocks
    for (std::size_t blk = std::max<std::size_t>(best.size() / 2, 1); blk >= 1; blk /= 2) {
      for (std::size_t i = 0; i + blk <= best.size();) {
        std::vector<uint64_t> c(best.begin(), best.begin() + i);
        c.insert(c.end(), best.begin() + i + blk, best.end());
        if (attempt(c)) progress = true;
        else i += blk;
        if (tries >= max_tries || now() - t0 > budget_s) break;
      }
      if (blk == 1) break;
    }
    // zero / lower values
    for (std::size_t i = 0; i < best.size(); ++i) {
      if (best[i] == 0) continue;
      std::vector<uint64_t> c = best;
      c[i] = 0;
      if (attempt(c)) { progress = true; continue; }
      if (i < best.size() && best[i] > 1) {
        c = best;
        c[i] = best[i] / 2;
        if (attempt(c)) { progress = true; continue; }
        if (i < best.size() && best[i] > 0) {
          c = best;
          c[i] = best[i] - 1;
          if (attempt(c)) progress = true;
        }
      }
      if (tries >= max_tries || now() - t0 > budget_s) break;
    }
  }
  return best;
}

static void write_stats(const std::string &f, uint64_t done, uint64_t nontriv, uint64_t sub, const std::set<uint64_t> &hashes,
                        const std::map<std::string, uint64_t> &labels, const std::vector<std::string> &samples,
                        const std::map<std::string, uint64_t> &known, uint64_t skipped) {
  std::ofstream o(f + ".tmp");
  o << "done " << done << "\nnontriv " << nontriv << "\nsub " << sub << "\nskipped " << skipped << "\n";
  for (auto &l : labels) o << "label " << l.second << " " << l.first << "\n";
  for (auto &l : known) o << "known " << l.second << " " << l.first << "\n";
  for (auto &s : samples) {
    o << "sample " << s.size() << "\n" << s << "\n";
  }
  o << "hashes " << hashes.size() << "\n";
  for (auto h : hashes) o << h << "\n";
  o.close();
  rename((f + ".tmp").c_str(), f.c_str());
}

static int usage() {
  std::cerr << "usage: --prop ID [--seed N] [--tier quick|thorough] [--workers N] [--cases N] [--max-seconds S]\n"
               "       [--stats FILE] [--replay FILE] [--replay-out FILE] [--tmp DIR]\n";
  return 2;
}

int pbt_main(int argc, char **argv) {
  std::string prop, tier = "quick", stats, replay, replay_out, tmpdir = ".", only;
  uint64_t seed = 1, cases = 0;
  unsigned workers = 8;
  double maxs = 300;
  double scale = 1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return ++i < argc ? argv[i] : ""; };
    if (a == "--prop") prop = val();
    else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--tier") tier = val();
    else if (a == "--workers") workers = atoi(val().c_str());
    else if (a == "--cases") cases = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--scale") scale = atof(val().c_str());
    else if (a == "--max-seconds") maxs = atof(val().c_str());
    else if (a == "--stats") stats = val();
    else if (a == "--replay") replay = val();
    else if (a == "--replay-out") replay_out = val();
    else if (a == "--tmp") tmpdir = val();
    else if (a == "--only-case") only = val();
    else if (a == "--list") {
      for (auto &p : registry()) std::cout << p.id << "\n";
      return 0;
    } else return usage();
  }
  const Property *p = nullptr;
  for (auto &x : registry())
    if (prop == x.id) p = &x;
  if (!p) {
    std::cerr << "no such property part: " << prop << "\n";
    return 2;
  }
  mkdir(tmpdir.c_str(), 0700);
  if (!replay.empty()) {
    // replay file: "choices: n n n ..." line
    std::ifstream in(replay);
    std::string line;
    std::vector<uint64_t> rec;
    while (std::getline(in, line))
      if (line.compare(0, 8, "choices:") == 0) {
        std::istringstream is(line.substr(8));
        uint64_t v;
        while (is >> v) rec.push_back(v);
      }
    Case c;
    c.want_log = true;
    c.log_fd = 1;
    std::string msg;
    Src s(&rec);
    Status st = run_once(*p, s, c, msg);
    if (st == ST_FAIL) {
      std::cout << "FAIL: " << msg << "\n";
      return 1;
    }
    std::cout << (st == ST_KNOWN ? "known finding " + msg : std::string("pass")) << "\n";
    return 0;
  }
  if (!only.empty()) {
    Case c;
    c.want_log = true;
    std::string msg;
    Src s(mixseed(seed, strtoull(only.c_str(), nullptr, 10), p->id));
    c.log_fd = 1;
    Status st = run_once(*p, s, c, msg);
    std::cout << (int)st << " " << msg << "\n";
    return st == ST_FAIL;
  }
  uint64_t total = cases ? cases : (uint64_t)((tier == "thorough" ? p->thorough_cases : p->quick_cases) * scale);
  if (workers < 1) workers = 1;
  if (total < workers) workers = total ? (unsigned)total : 1;

  Slot *slots = (Slot *)mmap(nullptr, sizeof(Slot) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  double t0 = now();
  std::vector<pid_t> pids(workers);
  fflush(nullptr);
  for (unsigned w = 0; w < workers; ++w) {
    pid_t pid = fork();
    if (pid == 0) {
      std::string err = tmpdir + "/w" + std::to_string(w) + ".err";
      int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
      dup2(fd, 2);
      uint64_t done = 0, nontriv = 0, sub = 0, skipped = 0;
      std::set<uint64_t> hashes;
      std::map<std::string, uint64_t> labels, known;
      std::vector<std::string> samples;
      for (uint64_t i = w; i < total; i += workers) {
        if (now() - t0 > maxs) break;
        arm_cpu_limit();
        slots[w].case_no = i;
        slots[w].in_case = 1;
        Case c;
        c.want_log = samples.size() < 2;
        std::string msg;
        Src s(mixseed(seed, i, p->id));
        Status st = run_once(*p, s, c, msg);
        slots[w].in_case = 0;
        ++done;
        sub += c.sub;
        slots[w].done = done;
        if (st == ST_FAIL) {
          slots[w].failed = 1;
          strncpy(slots[w].msg, msg.c_str(), sizeof(slots[w].msg) - 1);
          break;
        }
        if (st == ST_KNOWN) known[msg]++;
        if (st == ST_SKIP) ++skipped;
        for (auto &l : c.labels) labels[l.first] += l.second;
        if (c.nontrivial && (st == ST_PASS || st == ST_KNOWN)) {
          ++nontriv;
          hashes.insert(c.hash);
          if (samples.size() < 2) samples.push_back(c.log.str().substr(0, 3000));
        }
        if (done % 5000 == 0)
          write_stats(tmpdir + "/w" + std::to_string(w) + ".stats", done, nontriv, sub, hashes, labels, samples, known, skipped);
      }
      write_stats(tmpdir + "/w" + std::to_string(w) + ".stats", done, nontriv, sub, hashes, labels, samples, known, skipped);
      fflush(nullptr);
      _exit(0);
    }
    pids[w] = pid;
  }
  bool failed = false;
  uint64_t fail_case = 0;
  std::string fail_msg;
  unsigned alive = workers;
  while (alive) {
    int st;
    pid_t pid = waitpid(-1, &st, 0);
    if (pid < 0) break;
    unsigned w = 0;
    while (w < workers && pids[w] != pid) ++w;
    if (w == workers) continue;
    --alive;
    bool bad = false;
    std::string m;
    if (slots[w].failed) {
      bad = true;
      m = slots[w].msg;
    } else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      bad = true;
      m = crash_text(st, tmpdir + "/w" + std::to_string(w) + ".err");
    }
    if (bad) {
      // keep the lowest case number for determinism among those already failed
      if (!failed || slots[w].case_no < fail_case) {
        fail_case = slots[w].case_no;
        fail_msg = m;
      }
      failed = true;
      for (unsigned k = 0; k < workers; ++k)
        if (k != w && pids[k] > 0) kill(pids[k], SIGKILL);
      // reap others, ignore
      while (alive) {
        if (waitpid(-1, &st, 0) < 0) break;
        --alive;
      }
    }
  }
  double wall = now() - t0;
  // merge stats
  uint64_t done = 0, nontriv = 0, sub = 0, skipped = 0;
  std::set<uint64_t> hashes;
  std::map<std::string, uint64_t> labels, known;
  std::vector<std::string> samples;
  for (unsigned w = 0; w < workers; ++w) {
    std::ifstream i(tmpdir + "/w" + std::to_string(w) + ".stats", std::ios::binary);
    std::string k;
    if (!i) { done += slots[w].done; continue; }
    while (i >> k) {
      uint64_t v;
      if (k == "done") { i >> v; done += v; }
      else if (k == "nontriv") { i >> v; nontriv += v; }
      else if (k == "sub") { i >> v; sub += v; }
      else if (k == "skipped") { i >> v; skipped += v; }
      else if (k == "label" || k == "known") {
        i >> v;
        i.get();
        std::string n;
        std::getline(i, n);
        (k == "label" ? labels : known)[n] += v;
      } else if (k == "sample") {
        i >> v;
        i.get();
        std::string s(v, 0);
        i.read(&s[0], v);
        samples.push_back(s);
      } else if (k == "hashes") {
        i >> v;
        for (uint64_t j = 0; j < v; ++j) { uint64_t h; i >> h; hashes.insert(h); }
      }
    }
    unlink((tmpdir + "/w" + std::to_string(w) + ".stats").c_str());
  }
  std::string replay_path;
  bool inconsistent = false;
  if (failed) {
    uint64_t cs = mixseed(seed, fail_case, p->id);
    RunResult r = run_forked(*p, &cs, nullptr, false, tmpdir);
    std::vector<uint64_t> rec = r.rec;
    if (r.st == ST_FAIL && rec.empty()) rec = record_of_crash(*p, cs, tmpdir);
    if (r.st != ST_FAIL) {
      // must reproduce alone; try three times
      for (int k = 0; k < 3 && r.st != ST_FAIL; ++k) r = run_forked(*p, &cs, nullptr, false, tmpdir);
    }
    if (r.st == ST_FAIL) {
      std::string kind = kind_of(r.msg);
      unsigned tries = 0;
      std::vector<uint64_t> best = shrink(*p, rec, kind, 45, 1500, tmpdir, tries);
      // replay three times
      int okn = 0;
      RunResult last;
      for (int k = 0; k < 3; ++k) {
        last = run_forked(*p, nullptr, &best, true, tmpdir);
        if (last.st == ST_FAIL) ++okn;
      }
      if (okn < 3) { // shrink result unstable: fall back to the original record
        best = rec;
        okn = 0;
        for (int k = 0; k < 3; ++k) {
          last = run_forked(*p, nullptr, &best, true, tmpdir);
          if (last.st == ST_FAIL) ++okn;
        }
      }
      if (okn == 3) {
        fail_msg = last.msg;
        std::string log = last.log;
        if (log.empty()) { // crash: log lost; try to obtain it from the child's file
          log = read_file(tmpdir + "/case.log");
        }
        if (!replay_out.empty()) {
          std::ofstream o(replay_out);
          o << "property-part: " << p->id << "\nseed: " << seed << " case: " << fail_case << " shrink-runs: " << tries << "\n";
          o << "message: " << fail_msg << "\n";
          o << "choices:";
          for (auto v : best) o << " " << v;
          o << "\ncase:\n" << log << "\n";
        }
      } else
        inconsistent = true;
    } else
      inconsistent = true;
  }
  if (!stats.empty()) {
    std::ofstream o(stats);
    o << "{\"part\":" << json_str(p->id) << ",\"rule\":" << json_str(p->rule) << ",\"cases\":" << done << ",\"planned\":" << total
      << ",\"evaluations\":" << sub << ",\"nontrivial\":" << nontriv << ",\"distinct_nontrivial\":" << hashes.size()
      << ",\"skipped\":" << skipped << ",\"wall_s\":" << wall << ",\"failed\":" << (failed && !inconsistent ? "true" : "false")
      << ",\"unreproducible\":" << (inconsistent ? "true" : "false") << ",\"message\":" << json_str(failed ? fail_msg : "")
      << ",\"fail_case\":" << fail_case << ",\"labels\":{";
    bool f = true;
    for (auto &l : labels) { o << (f ? "" : ",") << json_str(l.first) << ":" << l.second; f = false; }
    o << "},\"known\":{";
    f = true;
    for (auto &l : known) { o << (f ? "" : ",") << json_str(l.first) << ":" << l.second; f = false; }
    o << "},\"samples\":[";
    f = true;
    for (std::size_t k = 0; k < samples.size() && k < 3; ++k) { o << (f ? "" : ",") << json_str(samples[k]); f = false; }
    o << "]}\n";
  }
  if (failed && !inconsistent) {
    std::cout << "FAILED part=" << p->id << " case=" << fail_case << "\n" << fail_msg << "\n";
    return 1;
  }
  if (inconsistent) {
    std::cout << "UNREPRODUCIBLE part=" << p->id << " case=" << fail_case << "\n" << fail_msg << "\n";
    return 3;
  }
  std::cout << "ok part=" << p->id << " cases=" << done << " evaluations=" << sub << " nontrivial=" << nontriv
            << " distinct=" << hashes.size() << " wall=" << wall << "\n";
  return 0;
}
} // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char **argv) { return pbt::pbt_main(argc, argv); }
#endif
