// An OpenMP runtime under the control of the explorer.
//
// Replaces the entry points that the compiler's OpenMP code calls.  The members
// of a team are threads that pass a baton: exactly one of them runs, and the
// baton changes hands only where members synchronise (start of the region,
// loop chunks handed out at run time, critical sections, barriers, end of the
// region).  Which member goes on is decided by team::pick.  Together with the
// absence of unsynchronised conflicting accesses (see race.h) these
// schedules stand for all schedules.
#pragma once
#include <pthread.h>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <mutex>
#include <thread>
#include <vector>

namespace team
{
struct Region;
struct Member {
  Region *region = nullptr;
  int id = 0;
  long loops = 0, singles = 0;  // work shares entered so far
  std::vector<void *> locks;
  int epoch = 0;  // barriers passed
};
inline Member *&me()
{
  static thread_local Member *m = nullptr;
  return m;
}
struct Loop {
  unsigned long long next, end, incr, chunk;
  bool up;
  int gone = 0;
};
enum State { READY, BARRIER, BLOCKED, DONE };
struct Region {
  std::mutex mu;
  std::condition_variable cv;
  int n, current = -1;
  std::vector<State> st;
  std::vector<void *> want;
  std::map<void *, int> owner;
  std::map<long, Loop> loops;
  std::map<long, bool> singles;
  std::vector<Member> members;
};
// decides among `n` runnable members; team size where the code leaves it open
inline std::function<int(int)> &pick()
{
  static std::function<int(int)> f = [](int) { return 0; };
  return f;
}
inline int &default_size()
{
  static int n = 2;
  return n;
}
struct Observer {
  virtual void begin(Region &)
  {
  }
  virtual void end(Region &)
  {
  }
  virtual void locked(void *)
  {
  }
  virtual void unlocking(void *)
  {
  }
};
// how many members a team gets that asked for n: a runtime may grant fewer
inline std::function<int(int)> &grant()
{
  static std::function<int(int)> f;
  return f;
}
inline Observer *&observer()
{
  static Observer *o = nullptr;
  return o;
}
inline unsigned long &regions()
{
  static unsigned long n = 0;
  return n;
}

// called by the running member with the region locked
inline void next(Region &r)
{
  std::vector<int> can;
  for (int i = 0; i < r.n; ++i)
    if (r.st[i] == READY || (r.st[i] == BLOCKED && !r.owner.count(r.want[i])))
      can.push_back(i);
  if (can.empty()) {
    int at = 0, left = 0;
    for (int i = 0; i < r.n; ++i)
      at += r.st[i] == BARRIER, left += r.st[i] != DONE;
    if (left == 0) {
      r.current = -2;
      r.cv.notify_all();
      return;
    }
    if (at != left) {
      fprintf(stderr, "FATAL: members of a parallel region wait for each other\n");
      abort();
    }
    for (int i = 0; i < r.n; ++i)
      if (r.st[i] == BARRIER) {
        r.st[i] = READY;
        ++r.members[i].epoch;
        can.push_back(i);
      }
  }
  int w = can.size() == 1 ? 0 : pick()((int)can.size());
  r.current = can[w];
  r.cv.notify_all();
}
inline void await(Region &r, int id, std::unique_lock<std::mutex> &l)
{
  r.cv.wait(l, [&] { return r.current == id; });
}
inline void handover(State s, void *want = nullptr)
{
  Member *m = me();
  Region &r = *m->region;
  std::unique_lock<std::mutex> l(r.mu);
  r.st[m->id] = s;
  r.want[m->id] = want;
  next(r);
  await(r, m->id, l);
  r.st[m->id] = READY;
}
inline void run(void (*fn)(void *), void *data, unsigned n)
{
  if (n == 0)
    n = default_size();
  ++regions();
  Member *outer = me();
  if (outer)
    n = 1;  // nested regions are run by one member
  else if (grant() && n > 1)
    n = (unsigned)grant()((int)n);
  Region r;
  r.n = (int)n;
  r.st.assign(n, READY);
  r.want.assign(n, nullptr);
  r.members.resize(n);
  for (unsigned i = 0; i < n; ++i)
    r.members[i].region = &r, r.members[i].id = (int)i;
  bool watched = observer() && !outer;
  if (watched)
    observer()->begin(r);
  auto body = [&](int id) {
    me() = &r.members[id];
    {
      std::unique_lock<std::mutex> l(r.mu);
      await(r, id, l);
    }
    fn(data);
    {
      std::unique_lock<std::mutex> l(r.mu);
      r.st[id] = DONE;
      next(r);
    }
    me() = nullptr;
  };
  std::vector<std::thread> th;
  for (unsigned i = 1; i < n; ++i)
    th.emplace_back(body, (int)i);
  {
    std::unique_lock<std::mutex> l(r.mu);
    next(r);
  }
  body(0);
  for (auto &t : th)
    t.join();
  me() = outer;
  if (watched)
    observer()->end(r);
}
inline void lock(void *k)
{
  Member *m = me();
  if (!m)
    return;
  handover(BLOCKED, k);
  m->region->owner[k] = m->id;
  m->locks.push_back(k);
  if (observer())
    observer()->locked(k);
}
inline void unlock(void *k)
{
  Member *m = me();
  if (!m)
    return;
  if (observer())
    observer()->unlocking(k);
  m->region->owner.erase(k);
  for (size_t i = m->locks.size(); i-- > 0;)
    if (m->locks[i] == k) {
      m->locks.erase(m->locks.begin() + i);
      break;
    }
  handover(READY);
}
inline bool chunk(unsigned long long &from, unsigned long long &to)
{
  Member *m = me();
  handover(READY);
  Loop &l = m->region->loops[m->loops];
  unsigned long long left;
  if (l.up)
    left = (long long)(l.end - l.next) > 0 && l.next != l.end ? (l.end - l.next + l.incr - 1) / l.incr : 0;
  else
    left = (long long)(l.next - l.end) > 0 ? (l.next - l.end + (0 - l.incr) - 1) / (0 - l.incr) : 0;
  if (!left)
    return false;
  unsigned long long k = left < l.chunk ? left : l.chunk;
  from = l.next;
  l.next += k * l.incr;
  to = l.next;
  return true;
}
inline bool open(bool up, unsigned long long s, unsigned long long e, unsigned long long incr, unsigned long long ch, unsigned long long &from, unsigned long long &to)
{
  Member *m = me();
  ++m->loops;
  auto &ls = m->region->loops;
  if (!ls.count(m->loops)) {
    Loop l;
    l.next = s, l.end = e, l.incr = incr, l.chunk = ch ? ch : 1, l.up = up;
    ls[m->loops] = l;
  }
  return chunk(from, to);
}
struct Solo {  // work sharing outside of any region: a team of one
  Region r;
  Solo()
  {
    r.n = 1;
    r.st.assign(1, READY);
    r.want.assign(1, nullptr);
    r.members.resize(1);
    r.members[0].region = &r;
    r.current = 0;
  }
};
inline void ensure()
{
  static thread_local Solo *solo = nullptr;
  if (!me()) {
    if (!solo)
      solo = new Solo();
    me() = &solo->r.members[0];
  }
}
static char g_critical, g_atomic;
}

extern "C" {
typedef unsigned long long team_ull;
int omp_get_thread_num(void) noexcept
{
  return team::me() ? team::me()->id : 0;
}
int omp_get_num_threads(void) noexcept
{
  return team::me() ? team::me()->region->n : 1;
}
int omp_get_max_threads(void) noexcept
{
  return team::default_size();
}
int omp_get_num_procs(void) noexcept
{
  return team::default_size();
}
int omp_in_parallel(void) noexcept
{
  return team::me() && team::me()->region->n > 1;
}
void omp_set_num_threads(int n) noexcept
{
  team::default_size() = n;
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned)
{
  team::run(fn, data, n);
}
void GOMP_barrier(void)
{
  if (team::me())
    team::handover(team::BARRIER);
}
void GOMP_critical_start(void)
{
  team::lock(&team::g_critical);
}
void GOMP_critical_end(void)
{
  team::unlock(&team::g_critical);
}
void GOMP_critical_name_start(void **p)
{
  team::lock(p);
}
void GOMP_critical_name_end(void **p)
{
  team::unlock(p);
}
void GOMP_atomic_start(void)
{
  team::lock(&team::g_atomic);
}
void GOMP_atomic_end(void)
{
  team::unlock(&team::g_atomic);
}
bool GOMP_single_start(void)
{
  team::Member *m = team::me();
  if (!m)
    return true;
  team::handover(team::READY);
  bool &taken = m->region->singles[++m->singles];
  bool first = !taken;
  taken = true;
  return first;
}
void GOMP_loop_end(void)
{
  GOMP_barrier();
}
void GOMP_loop_end_nowait(void)
{
}
#define TEAM_LOOP(kind)                                                                                                        \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *f, long *t)                                              \
  {                                                                                                                            \
    team::ensure();                                                                                                            \
    team_ull a, b;                                                                                                             \
    bool r = team::open(i > 0, s, e, i, c, a, b);                                                                              \
    if (r)                                                                                                                     \
      *f = a, *t = b;                                                                                                          \
    return r;                                                                                                                  \
  }                                                                                                                            \
  bool GOMP_loop_##kind##_next(long *f, long *t)                                                                               \
  {                                                                                                                            \
    team_ull a, b;                                                                                                             \
    bool r = team::chunk(a, b);                                                                                                \
    if (r)                                                                                                                     \
      *f = a, *t = b;                                                                                                          \
    return r;                                                                                                                  \
  }                                                                                                                            \
  bool GOMP_loop_ull_##kind##_start(bool up, team_ull s, team_ull e, team_ull i, team_ull c, team_ull *f, team_ull *t)         \
  {                                                                                                                            \
    team::ensure();                                                                                                            \
    return team::open(up, s, e, i, c, *f, *t);                                                                                 \
  }                                                                                                                            \
  bool GOMP_loop_ull_##kind##_next(team_ull *f, team_ull *t)                                                                   \
  {                                                                                                                            \
    return team::chunk(*f, *t);                                                                                                \
  }
TEAM_LOOP(dynamic)
TEAM_LOOP(guided)
TEAM_LOOP(nonmonotonic_dynamic)
TEAM_LOOP(nonmonotonic_guided)
#define TEAM_RUNTIME(kind)                                                                                     \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long *f, long *t)                                      \
  {                                                                                                            \
    return GOMP_loop_dynamic_start(s, e, i, 1, f, t);                                                          \
  }                                                                                                            \
  bool GOMP_loop_##kind##_next(long *f, long *t)                                                               \
  {                                                                                                            \
    return GOMP_loop_dynamic_next(f, t);                                                                       \
  }                                                                                                            \
  bool GOMP_loop_ull_##kind##_start(bool up, team_ull s, team_ull e, team_ull i, team_ull *f, team_ull *t)     \
  {                                                                                                            \
    return GOMP_loop_ull_dynamic_start(up, s, e, i, 1, f, t);                                                  \
  }                                                                                                            \
  bool GOMP_loop_ull_##kind##_next(team_ull *f, team_ull *t)                                                   \
  {                                                                                                            \
    return GOMP_loop_ull_dynamic_next(f, t);                                                                   \
  }
TEAM_RUNTIME(runtime)
TEAM_RUNTIME(nonmonotonic_runtime)
TEAM_RUNTIME(maybe_nonmonotonic_runtime)
}
namespace team
{
struct Pre {
  void (*fn)(void *);
  void *data;
  unsigned long long s, e, i, c;
  bool up;
};
// combined "parallel for" with a run-time schedule: the loop is set up before
// the members start
inline void run_loop(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c);
}
#define TEAM_PLOOP(kind)                                                                                                    \
  extern "C" void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, unsigned) \
  {                                                                                                                         \
    team::run_loop(fn, data, n, s, e, i, c);                                                                                \
  }
TEAM_PLOOP(dynamic)
TEAM_PLOOP(guided)
TEAM_PLOOP(nonmonotonic_dynamic)
TEAM_PLOOP(nonmonotonic_guided)
#define TEAM_PRUNTIME(kind)                                                                                         \
  extern "C" void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, unsigned) \
  {                                                                                                                 \
    team::run_loop(fn, data, n, s, e, i, 1);                                                                        \
  }
TEAM_PRUNTIME(runtime)
TEAM_PRUNTIME(nonmonotonic_runtime)
TEAM_PRUNTIME(maybe_nonmonotonic_runtime)
namespace team
{
inline void run_loop(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c)
{
  struct W {
    void (*fn)(void *);
    void *data;
    long s, e, i, c;
  } w = {fn, data, s, e, i, c};
  run(
      [](void *p) {
        W *q = (W *)p;
        Member *m = me();
        ++m->loops;
        Loop l;
        l.next = q->s, l.end = q->e, l.incr = q->i, l.chunk = q->c ? q->c : 1, l.up = q->i > 0;
        m->region->loops.insert(std::make_pair(m->loops, l));
        q->fn(q->data);
      },
      &w, n);
}
}
