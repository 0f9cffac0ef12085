#include "seam_thread.h"
#include <cerrno>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>

namespace sim
{
namespace thr
{
static thread_local int t_me = -1;
static const int MAX = 16;
static sem_t g_sem[MAX], g_main;
static bool g_done[MAX];
static int g_n = 0, g_left = 0;
static Policy g_p;
static Result g_r;
static uint64_t g_rng;
static const std::vector<std::function<void()>>* g_jobs;

static uint64_t rnd()
{
  uint64_t z = (g_rng += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static void note(int k)
{
  g_r.trace = (g_r.trace ^ (uint64_t)(k + 1)) * 1099511628211ull;
  g_r.trace = (g_r.trace ^ (uint64_t)g_r.points) * 1099511628211ull;
}
// another thread that may run, or -1
static int other(int me)
{
  int can[MAX], n = 0;
  for (int k = 0; k < g_n; k++)
  {
    if (k == me || g_done[k])
      continue;
    if (k == g_p.stalled && g_r.points >= g_p.stall_from && g_r.points < g_p.stall_from + g_p.stall_len)
    {
      g_r.stalled = true;
      continue;
    }
    can[n++] = k;
  }
  if (n == 0)
    for (int k = 0; k < g_n; k++)
      if (k != me && !g_done[k])
        can[n++] = k;
  return n ? can[rnd() % n] : -1;
}
static void hand_over(int me, int to)
{
  g_r.switches++;
  note(to);
  sem_post(&g_sem[to]);
  while (sem_wait(&g_sem[me]) != 0)
  {
  }
}
static void on_yield(int)
{
  int me = t_me;
  if (me < 0)
    return;
  g_r.points++;
  bool stalled = me == g_p.stalled && g_r.points >= g_p.stall_from && g_r.points < g_p.stall_from + g_p.stall_len;
  if (!stalled && (rnd() >> 11) * (1.0 / 9007199254740992.0) >= g_p.p_switch)
    return;
  int to = other(me);
  if (to >= 0)
    hand_over(me, to);
}
static void* body(void* a)
{
  int me = (int)(long)a;
  while (sem_wait(&g_sem[me]) != 0)
  {
  }
  t_me = me;
  (*g_jobs)[me]();
  t_me = -1;
  g_done[me] = true;
  g_left--;
  if (g_left == 0)
    sem_post(&g_main);
  else
  {
    int to = other(me);
    note(to);
    sem_post(&g_sem[to]);
  }
  return nullptr;
}
Result run(const std::vector<std::function<void()>>& jobs, const Policy& p)
{
  g_jobs = &jobs;
  g_p = p;
  g_r = Result();
  g_rng = p.seed;
  g_n = g_left = (int)jobs.size();
  pthread_t th[MAX];
  sem_init(&g_main, 0, 0);
  for (int k = 0; k < g_n; k++)
  {
    sem_init(&g_sem[k], 0, 0);
    g_done[k] = false;
  }
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 8 << 20);
  for (int k = 0; k < g_n; k++)
    if (pthread_create(&th[k], &at, body, (void*)(long)k) != 0)
      throw std::runtime_error("simulator error: no thread");
  mem::yield_hook = on_yield;
  sem_post(&g_sem[rnd() % g_n]);
  while (sem_wait(&g_main) != 0)
  {
  }
  mem::yield_hook = nullptr;
  for (int k = 0; k < g_n; k++)
    pthread_join(th[k], nullptr);
  return g_r;
}
}  // namespace thr
}  // namespace sim

// A thread that finds a lock taken gives the processor back (its owner is waiting for it)
typedef int (*lock_t)(pthread_mutex_t*);
static lock_t real_lock()
{
  static lock_t f = (lock_t)dlsym(RTLD_NEXT, "pthread_mutex_lock");
  return f;
}
__attribute__((constructor)) static void init_lock()
{
  real_lock();
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
  using namespace sim::thr;
  if (t_me < 0)
    return real_lock()(m);
  int e;
  while ((e = pthread_mutex_trylock(m)) == EBUSY)
  {
    int to = other(t_me);
    if (to < 0)
      return real_lock()(m);
    hand_over(t_me, to);
  }
  return e;
}
