// Stateless bounded explorer.
//
// A *body* is an ordinary C++ function that drives the real code of the
// repository and takes every decision (operation, argument, environment
// answer, scheduling decision) through Ctx::choose().  The explorer runs the
// body once per choice sequence and enumerates ALL choice sequences, depth
// first.  A body fails by Ctx::check()/fail(), by crashing (also: sanitizer
// report, failed assertion) or by hanging.  Every failure is replayed alone,
// in a process of its own, before it is reported.
//
// The choice tree is split over worker processes: the first worker to reach a
// subtree below the first few choices claims it and enumerates all of it.
#pragma once
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace mc
{
// ---------------------------------------------------------------- hashing
inline uint64_t mix(uint64_t h, uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h ^= h >> 31;
  h *= 0xbf58476d1ce4e5b9ull;
  h ^= h >> 27;
  return h;
}
struct Hash {
  uint64_t h = 0x12345;
  Hash &add(uint64_t v)
  {
    h = mix(h, v);
    return *this;
  }
  Hash &addi(long long v)
  {
    return add((uint64_t)v);
  }
  // quantised, so that states that only differ by rounding are one state
  Hash &addd(double v)
  {
    if (std::isnan(v))
      return add(0x7ff8u);
    if (std::isinf(v))
      return add(v > 0 ? 0x7ff0u : 0xfff0u);
    return add((uint64_t)(long long)llround(std::max(-1e12, std::min(1e12, v)) * 1e6));
  }
  Hash &adds(const std::string &s)
  {
    for (char c : s)
      add((unsigned char)c);
    return add(s.size());
  }
};

struct Violation {
  std::string key, msg;
};
struct Prune {
};
struct Divergence {
  std::string msg;
};

static const int MAXCH = 8192;
static const size_t CLAIMS = 1 << 18;
struct Shared {  // lives in a page shared with the parent
  volatile uint64_t ticks;
  volatile int body;
  volatile int len;
  volatile int done;
  volatile int capped;
  int choices[MAXCH];
};

struct BodyStats {
  uint64_t executions = 0, transitions = 0, merged = 0, checks = 0, known = 0, undecided = 0;
  bool capped = false;
};

class Ctx;
typedef std::function<void(Ctx &)> BodyFn;
struct Body {
  std::string name;
  BodyFn fn;
  int shard_depth;
};
inline std::vector<Body> &bodies()
{
  static std::vector<Body> b;
  return b;
}
struct Registrar {
  Registrar(const char *n, BodyFn f, int sd = 3)
  {
    bodies().push_back({n, f, sd});
  }
};
// depth: after how many choices a subtree is one unit of work
#define MC_BODY(name) MC_BODY_AT(name, 3)
#define MC_BODY_AT(name, depth)                                                \
  static void mc_body_##name(mc::Ctx &c);                                      \
  static mc::Registrar mc_reg_##name(#name, mc_body_##name, depth);            \
  static void mc_body_##name(mc::Ctx &c)

inline bool &g_thorough()
{
  static bool t = false;
  return t;
}
inline bool thorough()
{
  return g_thorough();
}

class Ctx
{
public:
  // --- decisions
  int choose(int n, const char *label = "")
  {
    if (n <= 0)
      throw Divergence{"choose(0)"};
    int v;
    if (pos_ < prefix_.size()) {
      if (ns_.size() > pos_ && ns_[pos_] != n)
        throw Divergence{std::string("choice count changed on replay at ") + label};
      if (ns_.size() <= pos_)
        ns_.push_back(n);
      v = prefix_[pos_];
      if (v >= n)
        throw Divergence{std::string("choice out of range on replay at ") + label};
    } else {
      v = 0;
      prefix_.push_back(0);
      ns_.push_back(n);
    }
    ++pos_;
    if (pos_ >= MAXCH)
      throw Divergence{"too many choices"};
    sh_->choices[pos_ - 1] = v;
    sh_->len = (int)pos_;
    sh_->ticks = sh_->ticks + 1;
    if ((int)pos_ == shard_depth_ && !mine(shard_depth_))
      throw Prune();
    return v;
  }
  template <class T>
  const T &pick(const std::vector<T> &v, const char *label = "")
  {
    return v[choose((int)v.size(), label)];
  }
  bool flip(const char *label = "")
  {
    return choose(2, label) == 1;
  }
  // --- observations
  void step()
  {
    if (fresh())
      ++st->transitions;
    sh_->ticks = sh_->ticks + 1;
  }
  void state(uint64_t h)
  {
    if (fresh())
      states->insert(mix(h, body_id_));
  }
  // the rest of this execution cannot be judged (a value lies on a border where
  // either outcome is right); counted and reported
  void undecided()
  {
    ++st->undecided;
  }
  void state(const Hash &h)
  {
    state(h.h);
  }
  // Merge: stop this execution when the same state was already expanded with
  // at least as many steps to go.
  void merge(uint64_t h, int remaining)
  {
    h = mix(h, body_id_);
    if (!fresh() || recording_)
      return;
    auto it = seen->find(h);
    if (it == seen->end()) {
      (*seen)[h] = remaining;
      return;
    }
    if (it->second >= remaining) {
      ++st->merged;
      throw Prune();
    }
    it->second = remaining;
  }
  void check(bool ok, const char *fmt, ...) __attribute__((format(printf, 3, 4)))
  {
    ++st->checks;
    if (ok)
      return;
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    throw Violation{"", buf};
  }
  void near(double a, double b, double tol, const char *what)
  {
    ++st->checks;
    if (std::fabs(a - b) <= tol)
      return;
    char buf[512];
    snprintf(buf, sizeof buf, "%s: got %.12g, expected %.12g (tolerance %g)", what, a, b, tol);
    throw Violation{"", buf};
  }
  void fail(const std::string &key, const std::string &msg)
  {
    throw Violation{key, msg};
  }
  // like fail(), but the execution goes on, so that a listed finding hides
  // nothing that comes after it
  void finding(const std::string &key, const std::string &msg)
  {
    ++st->checks;
    if (pending_key_.empty()) {
      pending_key_ = key;
      pending_msg_ = msg;
    }
  }
  bool recording() const
  {
    return recording_;
  }
  void say(const char *fmt, ...) __attribute__((format(printf, 2, 3)))
  {
    if (!recording_)
      return;
    char buf[512];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    log_.push_back(buf);
  }
  bool thorough() const
  {
    return mc::thorough();
  }
  // fills dead stack with a pattern so that reads of uninitialised locals are
  // repeatable and wrong
  __attribute__((noinline)) void scribble()
  {
    volatile unsigned char junk[16384];
    for (size_t i = 0; i < sizeof junk; ++i)
      junk[i] = 0xA5;
  }

  // --- driver side
  std::vector<int> prefix_, ns_;
  size_t pos_ = 0, fixed_ = 0;
  bool recording_ = false;
  std::vector<std::string> log_;
  std::string pending_key_, pending_msg_;
  Shared *sh_ = nullptr;
  int shard_ = 0, nshards_ = 1, shard_depth_ = 0;
  unsigned char *claims_ = nullptr;
  uint64_t body_id_ = 0;
  BodyStats *st = nullptr;
  std::unordered_set<uint64_t> *states = nullptr;
  std::unordered_map<uint64_t, int> *seen = nullptr;

  bool fresh() const
  {
    return pos_ >= fixed_;
  }
  bool mine(int depth) const
  {
    if (nshards_ <= 1)
      return true;
    uint64_t h = 99;
    for (int i = 0; i < depth; ++i)
      h = mix(h, (uint64_t)prefix_[i]);
    h = mix(h, (uint64_t)body_id_ * 16 + depth);
    // the worker that gets to a subtree first explores all of it
    unsigned char *slot = claims_ + h % CLAIMS, none = 0;
    unsigned char me = (unsigned char)(shard_ + 1);
    if (__atomic_compare_exchange_n(slot, &none, me, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST))
      return true;
    return none == me;
  }
};

struct Outcome {
  bool violated = false;
  std::string key, msg;
};

inline Outcome run_one(const Body &b, Ctx &c)
{
  Outcome o;
  c.pos_ = 0;
  c.log_.clear();
  c.pending_key_.clear();
  c.sh_->len = 0;
  try {
    b.fn(c);
    if (!c.pending_key_.empty())
      throw Violation{c.pending_key_, c.pending_msg_};
    // executions shorter than the shard depth belong to one shard
    if ((int)c.pos_ < c.shard_depth_ && !c.mine((int)c.pos_))
      return o;
    if (c.pos_ < c.prefix_.size())
      throw Divergence{"execution ended before its prefix"};
    ++c.st->executions;
  } catch (const Prune &) {
  } catch (const Violation &v) {
    if ((int)c.pos_ < c.shard_depth_ && !c.mine((int)c.pos_))
      return o;
    ++c.st->executions;
    o.violated = true;
    o.key = v.key;
    o.msg = v.msg;
  }
  return o;
}

// advance to the next choice sequence; false when the tree is exhausted
inline bool advance(Ctx &c)
{
  c.prefix_.resize(c.pos_);
  c.ns_.resize(c.pos_);
  while (!c.prefix_.empty() && c.prefix_.back() + 1 >= c.ns_.back()) {
    c.prefix_.pop_back();
    c.ns_.pop_back();
  }
  if (c.prefix_.empty())
    return false;
  ++c.prefix_.back();
  c.fixed_ = c.prefix_.size();
  return true;
}

inline std::string jstr(const std::string &s)
{
  std::string r = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      r += '\\';
      r += ch;
    } else if (ch < 32 || ch > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      r += b;
    } else
      r += ch;
  }
  return r + "\"";
}
inline double now()
{
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

struct Found {
  int body = -1;
  std::vector<int> choices;
  std::string key, msg;
};

struct Main {
  std::string out, known_arg, tmp;
  std::set<std::string> known;
  int jobs = 8;
  double deadline = 1e18;
  double hang_s = 40;
  unsigned char *claims = nullptr;

  Shared *share()
  {
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
      perror("mmap");
      exit(3);
    }
    memset(p, 0, sizeof(Shared));
    return (Shared *)p;
  }

  // ---------------------------------------------------------- worker
  void worker(int shard, int nshards, Shared *sh, const std::string &base)
  {
    std::unordered_set<uint64_t> states;
    std::vector<BodyStats> stats(bodies().size());
    std::vector<std::pair<int, std::vector<int>>> samples;
    Found f;
    for (size_t bi = 0; bi < bodies().size() && f.body < 0; ++bi) {
      std::unordered_map<uint64_t, int> seen;
      Ctx c;
      c.sh_ = sh;
      c.shard_ = shard;
      c.nshards_ = nshards;
      c.claims_ = claims;
      c.shard_depth_ = nshards > 1 ? bodies()[bi].shard_depth : 0;
      c.body_id_ = bi + 1;
      c.st = &stats[bi];
      c.states = &states;
      c.seen = &seen;
      sh->body = (int)bi;
      uint64_t nextsample = 1;
      do {
        uint64_t before = stats[bi].executions;
        Outcome o = run_one(bodies()[bi], c);
        if (o.violated) {
          if (!o.key.empty() && known.count(o.key)) {
            ++stats[bi].known;
          } else {
            f.body = (int)bi;
            f.choices.assign(c.prefix_.begin(), c.prefix_.begin() + c.pos_);
            f.key = o.key;
            f.msg = o.msg;
            break;
          }
        } else if (shard == 0 && stats[bi].executions > before &&
                   stats[bi].executions >= nextsample) {
          nextsample = nextsample * 50;
          samples.push_back({(int)bi, std::vector<int>(c.prefix_.begin(),
                                                       c.prefix_.begin() + c.pos_)});
        }
        if ((stats[bi].executions & 63) == 0 && now() > deadline) {
          stats[bi].capped = true;
          break;
        }
      } while (advance(c));
    }
    // samples written out
    std::vector<std::string> stext;
    if (f.body < 0)
      for (auto &s : samples) {
        std::unordered_map<uint64_t, int> seen;
        std::unordered_set<uint64_t> ds;
        BodyStats dst;
        Ctx c;
        c.sh_ = sh;
        c.prefix_ = s.second;
        c.fixed_ = 0;
        c.recording_ = true;
        c.st = &dst;
        c.states = &ds;
        c.seen = &seen;
        run_one(bodies()[s.first], c);
        std::string t = bodies()[s.first].name + ":";
        for (auto &l : c.log_)
          t += " " + l + ";";
        if (t.size() > 600)
          t = t.substr(0, 600) + "...";
        stext.push_back(t);
      }
    FILE *o = fopen((base + ".res").c_str(), "w");
    fprintf(o, "%d\n", f.body);
    if (f.body >= 0) {
      fprintf(o, "%zu\n", f.choices.size());
      for (int v : f.choices)
        fprintf(o, "%d ", v);
      fprintf(o, "\n%s\n%s\n", f.key.c_str(), f.msg.c_str());
    }
    for (auto &s : stats)
      fprintf(o, "%llu %llu %llu %llu %llu %llu %d\n", (unsigned long long)s.executions,
              (unsigned long long)s.transitions, (unsigned long long)s.merged,
              (unsigned long long)s.checks, (unsigned long long)s.known,
              (unsigned long long)s.undecided, (int)s.capped);
    fprintf(o, "%zu\n", stext.size());
    for (auto &t : stext)
      fprintf(o, "%s\n", jstr(t).c_str());
    fclose(o);
    FILE *sf = fopen((base + ".st").c_str(), "wb");
    std::vector<uint64_t> v(states.begin(), states.end());
    if (!v.empty())
      fwrite(v.data(), 8, v.size(), sf);
    fclose(sf);
    sh->done = 1;
    fflush(stdout);
    _exit(0);
  }

  // ---------------------------------------------------------- replay alone
  // returns: 0 no failure, 1 violation, 2 crash, 3 hang
  int replay(int body, const std::vector<int> &ch, std::string &msg, std::string &key,
             std::vector<std::string> &log, const std::string &base, double limit)
  {
    unlink((base + ".rep").c_str());
    Shared *sh = share();
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      if (!freopen((base + ".err").c_str(), "w", stderr))
        _exit(99);
      std::unordered_map<uint64_t, int> seen;
      std::unordered_set<uint64_t> ds;
      BodyStats dst;
      Ctx c;
      c.sh_ = sh;
      c.prefix_ = ch;
      c.fixed_ = 0;  // every check of the execution runs
      c.recording_ = true;
      c.st = &dst;
      c.states = &ds;
      c.seen = &seen;
      Outcome o;
      try {
        o = run_one(bodies()[body], c);
      } catch (const Divergence &d) {
        fprintf(stderr, "divergence: %s\n", d.msg.c_str());
        _exit(98);
      }
      FILE *f = fopen((base + ".rep").c_str(), "w");
      fprintf(f, "%d\n%s\n%s\n", (int)o.violated, o.key.c_str(), o.msg.c_str());
      for (auto &l : c.log_)
        fprintf(f, "%s\n", l.c_str());
      fclose(f);
      _exit(0);
    }
    double t0 = now();
    int st = 0;
    for (;;) {
      pid_t r = waitpid(p, &st, WNOHANG);
      if (r == p)
        break;
      if (now() - t0 > limit) {
        kill(p, SIGKILL);
        waitpid(p, &st, 0);
        munmap(sh, sizeof(Shared));
        msg = "execution does not terminate";
        return 3;
      }
      usleep(2000);
    }
    munmap(sh, sizeof(Shared));
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
      std::ifstream in(base + ".rep");
      std::string l;
      std::getline(in, l);
      bool v = l == "1";
      std::getline(in, key);
      std::getline(in, msg);
      while (std::getline(in, l))
        log.push_back(l);
      return v ? 1 : 0;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 98)
      return 0;
    std::ifstream in(base + ".err");
    std::string l, sum;
    while (std::getline(in, l)) {
      if (l.find("ERROR:") != std::string::npos || l.find("runtime error") != std::string::npos ||
          l.find("ssertion") != std::string::npos || l.find("terminate called") != std::string::npos ||
          l.find("what()") != std::string::npos)
        if (sum.size() < 500)
          sum += l + " | ";
    }
    char b[128];
    if (WIFSIGNALED(st))
      snprintf(b, sizeof b, "crashed with signal %d: ", WTERMSIG(st));
    else
      snprintf(b, sizeof b, "aborted with exit code %d: ", WEXITSTATUS(st));
    msg = b + sum;
    return 2;
  }

  int run(int argc, char **argv)
  {
    std::string replay_file, only;
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
      if (a == "--tier")
        g_thorough() = next() == "thorough";
      else if (a == "--out")
        out = next();
      else if (a == "--jobs")
        jobs = atoi(next().c_str());
      else if (a == "--limit")
        deadline = now() + atof(next().c_str());
      else if (a == "--known") {
        std::stringstream ss(next());
        std::string k;
        while (std::getline(ss, k, ','))
          if (!k.empty())
            known.insert(k);
      } else if (a == "--replay")
        replay_file = next();
      else if (a == "--only")
        only = next();
      else if (a == "--tmp")
        tmp = next();
    }
    if (!only.empty()) {
      std::vector<Body> keep;
      for (auto &b : bodies())
        if (b.name == only)
          keep.push_back(b);
      bodies() = keep;
    }
    if (tmp.empty())
      tmp = "/tmp";
    if (!replay_file.empty()) {
      std::ifstream in(replay_file);
      std::string bname;
      std::getline(in, bname);
      std::vector<int> ch;
      int v;
      while (in >> v)
        ch.push_back(v);
      for (size_t bi = 0; bi < bodies().size(); ++bi)
        if (bodies()[bi].name == bname) {
          std::string msg, key;
          std::vector<std::string> log;
          int r = replay((int)bi, ch, msg, key, log, tmp + "/replay", 120);
          for (auto &l : log)
            printf("  %s\n", l.c_str());
          printf("%s %s\n", r ? "FAILS:" : "passes", msg.c_str());
          return r ? 1 : 0;
        }
      fprintf(stderr, "no body %s\n", bname.c_str());
      return 3;
    }
    double t0 = now();
    std::vector<Shared *> sh(jobs);
    std::vector<pid_t> pid(jobs);
    std::vector<std::string> base(jobs);
    std::vector<uint64_t> last(jobs, 0);
    std::vector<double> lastt(jobs, now());
    std::vector<int> status(jobs, 0), hung(jobs, 0), reruns(jobs, 0), state(jobs, 0);
    auto start = [&](int w) {
      memset((void *)sh[w], 0, sizeof(Shared));
      unlink((base[w] + ".res").c_str());
      fflush(stdout);
      pid[w] = fork();
      if (pid[w] == 0) {
        if (!freopen((base[w] + ".werr").c_str(), "w", stderr))
          _exit(97);
        try {
          worker(w, jobs, sh[w], base[w]);
        } catch (const Divergence &d) {
          fprintf(stderr, "divergence: %s\n", d.msg.c_str());
          _exit(98);
        }
      }
      lastt[w] = now();
      last[w] = 0;
      hung[w] = 0;
      state[w] = 1;
    };
    claims = (unsigned char *)mmap(nullptr, CLAIMS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (claims == MAP_FAILED) {
      perror("mmap");
      exit(3);
    }
    for (int w = 0; w < jobs; ++w) {
      sh[w] = share();
      base[w] = tmp + "/w" + std::to_string(w);
      start(w);
    }
    Found viol;
    std::string vkind;
    std::vector<std::string> vlog;
    std::string internal;
    uint64_t nonrepro = 0;
    int live = jobs;
    auto stop_all = [&]() {
      for (int w = 0; w < jobs; ++w)
        if (state[w] == 1) {
          kill(pid[w], SIGKILL);
          waitpid(pid[w], nullptr, 0);
          state[w] = 3;
        }
      live = 0;
    };
    while (live > 0) {
      usleep(5000);
      for (int w = 0; w < jobs && live > 0; ++w) {
        if (state[w] != 1)
          continue;
        int st;
        pid_t r = waitpid(pid[w], &st, WNOHANG);
        if (r != pid[w]) {
          if (sh[w]->ticks != last[w]) {
            last[w] = sh[w]->ticks;
            lastt[w] = now();
            continue;
          } else if (now() - lastt[w] > hang_s && !sh[w]->done) {
            hung[w] = 1;
            kill(pid[w], SIGKILL);
            waitpid(pid[w], &st, 0);
          } else
            continue;
        }
        state[w] = 2;
        --live;
        Found cand;
        bool clean = !hung[w] && WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w]->done;
        if (clean) {
          std::ifstream in(base[w] + ".res");
          in >> cand.body;
          if (cand.body >= 0) {
            size_t n;
            in >> n;
            cand.choices.resize(n);
            for (auto &v : cand.choices)
              in >> v;
            std::string l;
            std::getline(in, l);
            std::getline(in, cand.key);
            std::getline(in, cand.msg);
          } else
            continue;  // this shard is complete
        } else if (!hung[w] && WIFEXITED(st) && WEXITSTATUS(st) == 98) {
          std::ifstream in(base[w] + ".werr");
          std::string l;
          std::getline(in, l);
          internal = l;
          stop_all();
          break;
        } else {
          cand.body = sh[w]->body;
          cand.choices.assign(sh[w]->choices, sh[w]->choices + sh[w]->len);
        }
        // confirm
        std::string msg, key;
        std::vector<std::string> log;
        int rr = replay(cand.body, cand.choices, msg, key, log, base[w], 90);
        if (rr != 0) {
          viol = cand;
          viol.msg = msg;
          viol.key = key;
          vkind = rr == 1 ? "check" : rr == 2 ? "crash" : "hang";
          vlog = log;
          stop_all();
          break;
        }
        ++nonrepro;
        if (++reruns[w] <= 1) {
          start(w);
          ++live;
        } else {
          // fails in its place in the enumeration every time, but not alone
          viol = cand;
          if (viol.msg.empty())
            viol.msg = "fails whenever this execution follows its predecessors in one process";
          vkind = "order-dependent";
          stop_all();
          break;
        }
      }
    }
    // ------------------------------------------------------ collect
    std::vector<BodyStats> tot(bodies().size());
    std::vector<std::string> samples;
    std::unordered_set<uint64_t> all;
    if (viol.body < 0 && internal.empty())
      for (int w = 0; w < jobs; ++w) {
        std::ifstream in(base[w] + ".res");
        int b;
        in >> b;
        for (auto &t : tot) {
          BodyStats s;
          int cap;
          in >> s.executions >> s.transitions >> s.merged >> s.checks >> s.known >> s.undecided >> cap;
          t.executions += s.executions;
          t.transitions += s.transitions;
          t.merged += s.merged;
          t.checks += s.checks;
          t.known += s.known;
          t.undecided += s.undecided;
          t.capped |= cap != 0;
        }
        size_t n = 0;
        in >> n;
        std::string l;
        std::getline(in, l);
        for (size_t i = 0; i < n; ++i) {
          std::getline(in, l);
          samples.push_back(l);
        }
        FILE *sf = fopen((base[w] + ".st").c_str(), "rb");
        if (sf) {
          uint64_t buf[4096];
          size_t k;
          while ((k = fread(buf, 8, 4096, sf)) > 0)
            for (size_t i = 0; i < k; ++i)
              all.insert(buf[i]);
          fclose(sf);
        }
      }
    std::ofstream o(out);
    o << "{\n\"violated\": " << (viol.body >= 0 ? "true" : "false") << ",\n";
    o << "\"internal_error\": " << jstr(internal) << ",\n";
    if (viol.body >= 0) {
      o << "\"body\": " << jstr(bodies()[viol.body].name) << ",\n\"kind\": " << jstr(vkind)
        << ",\n\"key\": " << jstr(viol.key) << ",\n\"message\": " << jstr(viol.msg)
        << ",\n\"choices\": [";
      for (size_t i = 0; i < viol.choices.size(); ++i)
        o << (i ? "," : "") << viol.choices[i];
      o << "],\n\"trace\": [";
      for (size_t i = 0; i < vlog.size(); ++i)
        o << (i ? "," : "") << jstr(vlog[i]);
      o << "],\n";
    }
    BodyStats sum;
    o << "\"bodies\": {";
    for (size_t i = 0; i < tot.size(); ++i) {
      o << (i ? "," : "") << "\n  " << jstr(bodies()[i].name) << ": {\"executions\": " << tot[i].executions
        << ", \"transitions\": " << tot[i].transitions << ", \"merged\": " << tot[i].merged
        << ", \"checks\": " << tot[i].checks << ", \"known\": " << tot[i].known
        << ", \"undecided\": " << tot[i].undecided
        << ", \"complete\": " << (tot[i].capped ? "false" : "true") << "}";
      sum.executions += tot[i].executions;
      sum.transitions += tot[i].transitions;
      sum.checks += tot[i].checks;
      sum.known += tot[i].known;
      sum.merged += tot[i].merged;
      sum.capped |= tot[i].capped;
    }
    o << "},\n\"states\": " << all.size() << ",\n\"executions\": " << sum.executions
      << ",\n\"transitions\": " << sum.transitions << ",\n\"checks\": " << sum.checks
      << ",\n\"merged\": " << sum.merged << ",\n\"known\": " << sum.known
      << ",\n\"nonreproduced\": " << nonrepro << ",\n\"exhaustive\": " << (sum.capped ? "false" : "true")
      << ",\n\"wall_s\": " << (now() - t0) << ",\n\"samples\": [";
    size_t k = 0;
    for (auto &s : samples) {
      if (k >= 12)
        break;
      o << (k++ ? ",\n  " : "\n  ") << s;
    }
    o << "]\n}\n";
    o.close();
    return viol.body >= 0 ? 1 : internal.empty() ? 0 : 3;
  }
};
}  // namespace mc

#ifndef MC_NO_MAIN
int main(int argc, char **argv)
{
  return mc::Main().run(argc, argv);
}
#endif
