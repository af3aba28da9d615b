// See race.h.  Conflicts are judged by vector clocks: members are ordered by
// critical sections, locks, atomics and barriers only.
#include "omp_team.h"
#include "race.h"
#include <cstdint>
#include <cstring>
#include <new>
#include <unordered_map>

namespace
{
enum { MAXM = 16 };
struct Clock {
  unsigned v[MAXM] = {0};
  void join(const Clock &o)
  {
    for (int i = 0; i < MAXM; ++i)
      if (o.v[i] > v[i])
        v[i] = o.v[i];
  }
};
struct Rec {
  uint8_t member, mask, write;
  unsigned at;
  void *pc;
};
template <class T>
struct Raw {  // allocator that stays out of the watched heap functions
  typedef T value_type;
  Raw()
  {
  }
  template <class U>
  Raw(const Raw<U> &)
  {
  }
  T *allocate(size_t n);
  void deallocate(T *p, size_t);
  bool operator==(const Raw &) const
  {
    return true;
  }
  bool operator!=(const Raw &) const
  {
    return false;
  }
};
}
extern "C" {
void *__real_malloc(size_t);
void __real_free(void *);
void *__real_realloc(void *, size_t);
void *__real_calloc(size_t, size_t);
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
size_t malloc_usable_size(void *);
}
namespace
{
template <class T>
T *Raw<T>::allocate(size_t n)
{
  return (T *)__real_malloc(n * sizeof(T));
}
template <class T>
void Raw<T>::deallocate(T *p, size_t)
{
  __real_free(p);
}
typedef std::vector<Rec, Raw<Rec>> Recs;
struct World {
  std::unordered_map<uintptr_t, Recs, std::hash<uintptr_t>, std::equal_to<uintptr_t>, Raw<std::pair<const uintptr_t, Recs>>> mem;
  std::unordered_map<const void *, Clock, std::hash<const void *>, std::equal_to<const void *>, Raw<std::pair<const void *const, Clock>>> sync;
  Clock vc[MAXM];
  int epoch[MAXM];
};
World *g_w = nullptr;
bool g_on = false;
race::Report g_rep;
thread_local int t_muted = 0;

struct Mute {
  Mute()
  {
    ++t_muted;
  }
  ~Mute()
  {
    --t_muted;
  }
};
inline team::Member *watched()
{
  if (!g_on || t_muted)
    return nullptr;
  team::Member *m = team::me();
  if (!m || !m->region || m->region->n < 2 || m->region->n > MAXM)
    return nullptr;
  return m;
}
void barriers(team::Member *m)
{
  // members that passed a barrier know everything done before it
  if (g_w->epoch[m->id] == m->epoch)
    return;
  Clock all;
  int n = m->region->n;
  for (int i = 0; i < n; ++i)
    all.join(g_w->vc[i]);
  for (int i = 0; i < n; ++i) {
    g_w->vc[i] = all;
    ++g_w->vc[i].v[i];
    g_w->epoch[i] = m->region->members[i].epoch;
  }
}
void touch(uintptr_t a, size_t n, bool write, void *pc)
{
  team::Member *m = watched();
  if (!m || !n)
    return;
  Mute mute;
  barriers(m);
  ++g_rep.accesses;
  Clock &me = g_w->vc[m->id];
  for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; ++g) {
    unsigned lo = g == a >> 3 ? a & 7 : 0, hi = g == (a + n - 1) >> 3 ? (a + n - 1) & 7 : 7;
    uint8_t mask = (uint8_t)(((1u << (hi + 1)) - 1) & ~((1u << lo) - 1));
    Recs &r = g_w->mem[g];
    bool found = false;
    for (Rec &k : r) {
      if (k.member == m->id) {
        if (k.mask == mask && (bool)k.write == write)
          k.at = me.v[m->id], k.pc = pc, found = true;
        continue;
      }
      if ((k.mask & mask) && (write || k.write) && k.at > me.v[k.member] && g_rep.conflict.empty()) {
        char b[200];
        snprintf(b, sizeof b, "member %d %s and member %d %s the same memory with nothing to order them", k.member, k.write ? "writes" : "reads", m->id, write ? "writes" : "reads");
        g_rep.conflict = b;
      }
    }
    if (!found)
      r.push_back(Rec{(uint8_t)m->id, mask, (uint8_t)write, me.v[m->id], pc});
  }
}
void forget(uintptr_t a, size_t n)
{
  if (!n)
    return;
  Mute mute;
  for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; ++g)
    g_w->mem.erase(g);
}
void acquire(const void *k)
{
  team::Member *m = watched();
  if (!m)
    return;
  Mute mute;
  barriers(m);
  g_w->vc[m->id].join(g_w->sync[k]);
}
void release(const void *k)
{
  team::Member *m = watched();
  if (!m)
    return;
  Mute mute;
  barriers(m);
  g_w->sync[k].join(g_w->vc[m->id]);
  ++g_w->vc[m->id].v[m->id];
}
struct Watch : team::Observer {
  void begin(team::Region &r) override
  {
    Mute mute;
    g_w->mem.clear();
    g_w->sync.clear();
    for (int i = 0; i < MAXM; ++i) {
      g_w->vc[i] = Clock();
      g_w->vc[i].v[i] = 1;
      g_w->epoch[i] = 0;
    }
    if (r.n > 1)
      ++g_rep.regions;
    if (r.n > g_rep.largest)
      g_rep.largest = r.n;
  }
  void locked(void *k) override
  {
    acquire(k);
  }
  void unlocking(void *k) override
  {
    release(k);
  }
} g_watch;
}
namespace race
{
void start(std::function<int(int)> pick, std::function<int(int)> grant)
{
  if (!g_w)
    g_w = new World;
  g_rep = Report();
  team::pick() = [pick](int n) {
    Mute mute;
    ++g_rep.decisions;
    return pick(n);
  };
  team::grant() = [grant](int n) {
    Mute mute;
    return grant(n);
  };
  team::observer() = &g_watch;
  g_on = true;
}
Report stop()
{
  g_on = false;
  team::observer() = nullptr;
  team::pick() = [](int) { return 0; };
  team::grant() = nullptr;
  return g_rep;
}
}
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init()
{
}
void __tsan_func_entry(void *)
{
}
void __tsan_func_exit(void *)
{
}
void __tsan_read_range(void *p, unsigned long n)
{
  touch((uintptr_t)p, n, false, PC);
}
void __tsan_write_range(void *p, unsigned long n)
{
  touch((uintptr_t)p, n, true, PC);
}
void __tsan_vptr_update(void **p, void *v)
{
  if (*p != v)
    touch((uintptr_t)p, 8, true, PC);
}
void __tsan_vptr_read(void **p)
{
  touch((uintptr_t)p, 8, false, PC);
}
#define ACCESS(n)                                  \
  void __tsan_read##n(void *p)                     \
  {                                                \
    touch((uintptr_t)p, n, false, PC);             \
  }                                                \
  void __tsan_write##n(void *p)                    \
  {                                                \
    touch((uintptr_t)p, n, true, PC);              \
  }                                                \
  void __tsan_unaligned_read##n(void *p)           \
  {                                                \
    touch((uintptr_t)p, n, false, PC);             \
  }                                                \
  void __tsan_unaligned_write##n(void *p)          \
  {                                                \
    touch((uintptr_t)p, n, true, PC);              \
  }                                                \
  void __tsan_volatile_read##n(void *p)            \
  {                                                \
    touch((uintptr_t)p, n, false, PC);             \
  }                                                \
  void __tsan_volatile_write##n(void *p)           \
  {                                                \
    touch((uintptr_t)p, n, true, PC);              \
  }
ACCESS(1)
ACCESS(2)
ACCESS(4)
ACCESS(8)
ACCESS(16)
// atomics order everything that uses the same variable
#define ATOMIC(T, n)                                                                   \
  T __tsan_atomic##n##_load(const volatile T *a, int)                                  \
  {                                                                                    \
    acquire((const void *)a);                                                          \
    return __atomic_load_n(a, 5);                                                      \
  }                                                                                    \
  void __tsan_atomic##n##_store(volatile T *a, T v, int)                               \
  {                                                                                    \
    acquire((const void *)a);                                                          \
    release((const void *)a);                                                          \
    __atomic_store_n(a, v, 5);                                                         \
  }                                                                                    \
  T __tsan_atomic##n##_exchange(volatile T *a, T v, int)                               \
  {                                                                                    \
    acquire((const void *)a);                                                          \
    release((const void *)a);                                                          \
    return __atomic_exchange_n(a, v, 5);                                               \
  }                                                                                    \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int, int)   \
  {                                                                                    \
    acquire((const void *)a);                                                          \
    release((const void *)a);                                                          \
    return __atomic_compare_exchange_n(a, c, v, 0, 5, 5);                              \
  }                                                                                    \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int, int)     \
  {                                                                                    \
    acquire((const void *)a);                                                          \
    release((const void *)a);                                                          \
    return __atomic_compare_exchange_n(a, c, v, 0, 5, 5);                              \
  }                                                                                    \
  T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int, int)         \
  {                                                                                    \
    acquire((const void *)a);                                                          \
    release((const void *)a);                                                          \
    __atomic_compare_exchange_n(a, &c, v, 0, 5, 5);                                    \
    return c;                                                                          \
  }
#define FETCH(T, n, op)                                               \
  T __tsan_atomic##n##_fetch_##op(volatile T *a, T v, int)            \
  {                                                                   \
    acquire((const void *)a);                                         \
    release((const void *)a);                                         \
    return __atomic_fetch_##op(a, v, 5);                              \
  }
#define ALL(T, n)  \
  ATOMIC(T, n)     \
  FETCH(T, n, add) \
  FETCH(T, n, sub) \
  FETCH(T, n, and) \
  FETCH(T, n, or)  \
  FETCH(T, n, xor) \
  FETCH(T, n, nand)
ALL(char, 8)
ALL(short, 16)
ALL(int, 32)
ALL(long, 64)
void __tsan_atomic_thread_fence(int)
{
}
void __tsan_atomic_signal_fence(int)
{
}
// heap: what is handed out anew has no past, what is given back is written
static void born(void *p, size_t n)
{
  if (p && watched())
    forget((uintptr_t)p, n);
}
static void dies(void *p)
{
  if (!p || !watched())
    return;
  size_t n = malloc_usable_size(p);
  Mute mute;
  --t_muted;
  touch((uintptr_t)p, n, true, PC);
  ++t_muted;
  forget((uintptr_t)p, n);
}
void *__wrap_malloc(size_t n)
{
  void *p = __real_malloc(n);
  born(p, n);
  return p;
}
void *__wrap_calloc(size_t a, size_t b)
{
  void *p = __real_calloc(a, b);
  born(p, a * b);
  return p;
}
void *__wrap_realloc(void *o, size_t n)
{
  dies(o);
  void *p = __real_realloc(o, n);
  born(p, n);
  return p;
}
void __wrap_free(void *p)
{
  dies(p);
  __real_free(p);
}
void *__wrap_memcpy(void *d, const void *s, size_t n)
{
  touch((uintptr_t)s, n, false, PC);
  touch((uintptr_t)d, n, true, PC);
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n)
{
  touch((uintptr_t)s, n, false, PC);
  touch((uintptr_t)d, n, true, PC);
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int v, size_t n)
{
  touch((uintptr_t)d, n, true, PC);
  return __real_memset(d, v, n);
}
// mutexes of the code under test are the baton's business
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
  team::Member *w = watched();
  if (!w || (void *)m == (void *)w->region->mu.native_handle())
    return __real_pthread_mutex_lock(m);
  team::lock(m);
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
  team::Member *w = watched();
  if (!w || (void *)m == (void *)w->region->mu.native_handle())
    return __real_pthread_mutex_unlock(m);
  team::unlock(m);
  return 0;
}
int __real___cxa_guard_acquire(void *);
void __real___cxa_guard_release(void *);
int __wrap___cxa_guard_acquire(void *g)
{
  int r = __real___cxa_guard_acquire(g);
  acquire(g);
  return r;
}
void __wrap___cxa_guard_release(void *g)
{
  release(g);
  __real___cxa_guard_release(g);
}
}
void *operator new(size_t n)
{
  void *p = __wrap_malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n)
{
  return operator new(n);
}
void operator delete(void *p) noexcept
{
  __wrap_free(p);
}
void operator delete[](void *p) noexcept
{
  __wrap_free(p);
}
void operator delete(void *p, size_t) noexcept
{
  __wrap_free(p);
}
void operator delete[](void *p, size_t) noexcept
{
  __wrap_free(p);
}
