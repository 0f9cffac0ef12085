// Memory seam: the process allocator. Addresses, the content of fresh and freed memory and allocation
// failures are all decided by the simulator's seed. Lives at a fixed address, so that a run does not depend
// on address-space randomisation.
#include "core.h"
#include <cerrno>
#include <cstdlib>
#include <sys/mman.h>
#include <unistd.h>
#include <atomic>
#include <new>

namespace
{
constexpr uint64_t BASE = 0x200000000000ull;
constexpr uint64_t SIZE = 16ull << 30;
constexpr uint64_t CHUNK = 64 << 10;
constexpr uint64_t NCHUNK = SIZE / CHUNK;
constexpr int REDZONE = 8;
constexpr unsigned char CANARY = 0xA7;

uint32_t* g_unit;      // per 16 bytes: bit 31 = allocated, low bits: requested size
uint8_t* g_cls;        // per chunk: size class + 1, 255 = large
uint32_t* g_run;       // per chunk: number of chunks of the large run starting here
std::atomic_flag g_lock = ATOMIC_FLAG_INIT;
bool g_init = false;
uint64_t g_next = 0;   // next free chunk
uint64_t g_floor = 0;  // blocks below this address are never handed out again

constexpr int NCLS = 96;
uint32_t g_csize[NCLS];
int g_ncls = 0;
struct Stack
{
  uint64_t* v;
  size_t n, cap;
};
Stack g_free[NCLS];
// freed large runs, by number of chunks
struct Large
{
  uint64_t addr;
  uint32_t n;
};
Large* g_large;
size_t g_nlarge = 0;
// quarantine
constexpr int QN = 256;
uint64_t g_quar[QN];
int g_qpos = 0;

bool g_on = false;
sim::mem::Env g_env;
uint64_t g_rng = 88172645463325252ull;
long g_count = 0, g_live = 0, g_live_bytes = 0;
long g_arm = 0;
bool g_sticky = false, g_fired = false;
char g_err[256];
bool g_has_err = false;

uint64_t prng()
{
  g_rng ^= g_rng << 13;
  g_rng ^= g_rng >> 7;
  g_rng ^= g_rng << 17;
  return g_rng;
}

void* rawmap(uint64_t addr, uint64_t size)
{
  void* p = mmap((void*)addr, size, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (addr ? MAP_FIXED_NOREPLACE : 0), -1, 0);
  if (p == MAP_FAILED)
  {
    const char m[] = "simulator error: cannot reserve the heap\n";
    if (write(2, m, sizeof m - 1)) {}
    _exit(3);
  }
  return p;
}

void init()
{
  g_init = true;
  rawmap(BASE, SIZE);
  g_unit = (uint32_t*)rawmap(BASE + 0x10000000000ull, SIZE / 16 * 4);
  g_cls = (uint8_t*)rawmap(BASE + 0x20000000000ull, NCHUNK);
  g_run = (uint32_t*)rawmap(BASE + 0x21000000000ull, NCHUNK * 4);
  g_large = (Large*)rawmap(BASE + 0x22000000000ull, 1 << 24);
  for (uint32_t s = 32; s <= 512; s += 16)
    g_csize[g_ncls++] = s;
  for (uint32_t s = 1024; s <= 32768; s *= 2)
  {
    g_csize[g_ncls++] = s;
    if (s < 32768)
      g_csize[g_ncls++] = s + s / 2;
  }
  for (int c = 0; c < g_ncls; c++)
  {
    g_free[c].cap = 1 << 24;
    g_free[c].v = (uint64_t*)rawmap(BASE + 0x30000000000ull + c * 0x40000000ull, g_free[c].cap * 8);
    g_free[c].n = 0;
  }
}

void err(const char* what, const void* p)
{
  if (g_has_err)
    return;
  g_has_err = true;
  snprintf(g_err, sizeof g_err, "%s", what);
}

int cls_of(size_t need)
{
  if (need <= 512)
    return need <= 32 ? 0 : (int)((need - 32 + 15) / 16);
  for (int c = (512 - 32) / 16 + 1; c < g_ncls; c++)
    if (g_csize[c] >= need)
      return c;
  return -1;
}

uint64_t take_chunks(uint32_t n)
{
  for (size_t i = 0; i < g_nlarge; i++)
    if (g_large[i].n == n)
    {
      uint64_t a = g_large[i].addr;
      g_large[i] = g_large[--g_nlarge];
      return a;
    }
  if (g_next + n > NCHUNK)
    return 0;
  uint64_t a = BASE + g_next * CHUNK;
  g_next += n;
  return a;
}

void push(int c, uint64_t a)
{
  if (a < g_floor)
    return;
  Stack& s = g_free[c];
  if (s.n < s.cap)
    s.v[s.n++] = a;
}

uint64_t alloc_class(int c)
{
  Stack& s = g_free[c];
  if (s.n == 0)
  {
    uint64_t a = take_chunks(1);
    if (!a)
      return 0;
    g_cls[(a - BASE) / CHUNK] = c + 1;
    uint32_t k = CHUNK / g_csize[c];
    for (uint32_t i = k; i-- > 0;)
      push(c, a + (uint64_t)i * g_csize[c]);
    if (g_on && g_env.permute)
      for (uint32_t i = k - 1; i > 0; i--)
      {
        uint32_t j = prng() % (i + 1);
        uint64_t t = s.v[i];
        s.v[i] = s.v[j];
        s.v[j] = t;
      }
  }
  if (g_on && g_env.permute)
  {
    size_t w = s.n < 64 ? s.n : 64;
    size_t j = s.n - 1 - prng() % w;
    uint64_t a = s.v[j];
    s.v[j] = s.v[s.n - 1];
    s.n--;
    return a;
  }
  return s.v[--s.n];
}

struct Lock
{
  Lock()
  {
    while (g_lock.test_and_set(std::memory_order_acquire))
    {
    }
  }
  ~Lock()
  {
    g_lock.clear(std::memory_order_release);
  }
};

void* do_alloc(size_t size, size_t align, bool zero)
{
  if (size > (1ull << 30))
  {
    errno = ENOMEM;
    return nullptr;
  }
  uint64_t a;
  size_t slot;
  {
    Lock l;
    if (!g_init)
      init();
    g_count++;
    if (g_arm > 0)
    {
      if (g_arm == 1)
      {
        g_fired = true;
        if (!g_sticky)
          g_arm = 0;
        errno = ENOMEM;
        return nullptr;
      }
      g_arm--;
    }
    size_t need = size + REDZONE;
    int c = -1;
    if (align > 16)
    {
      size_t p = align < 64 ? 64 : align;
      while (p < need)
        p *= 2;
      need = p;
      // classes of power-of-two size are naturally aligned in their 64 kB chunk
      c = p <= 512 && p >= 32 && (p & (p - 1)) == 0 ? cls_of(p) : cls_of(p);
      if (c >= 0 && g_csize[c] != p)
        c = -1;
    }
    else
      c = cls_of(need);
    if (c >= 0)
    {
      a = alloc_class(c);
      slot = g_csize[c];
    }
    else
    {
      uint32_t n = (need + CHUNK - 1) / CHUNK;
      a = take_chunks(n);
      slot = (size_t)n * CHUNK;
      if (a)
      {
        g_cls[(a - BASE) / CHUNK] = 255;
        g_run[(a - BASE) / CHUNK] = n;
      }
    }
    if (!a)
    {
      errno = ENOMEM;
      return nullptr;
    }
    g_unit[(a - BASE) / 16] = 0x80000000u | (uint32_t)size;
    g_live++;
    g_live_bytes += size;
  }
  if (zero)
    memset((void*)a, 0, size);
  else if (g_on && g_env.fill_alloc >= 0)
    memset((void*)a, g_env.fill_alloc, size);
  size_t tail = slot - size;
  memset((char*)a + size, CANARY, tail > 64 ? 64 : tail);
  return (void*)a;
}

bool slot_info(const void* p, size_t& slot, int& c, const char** why)
{
  uint64_t a = (uint64_t)p;
  if (a < BASE || a >= BASE + SIZE || (a & 15))
  {
    *why = "free of a pointer that the allocator never returned";
    return false;
  }
  uint64_t ch = (a - BASE) / CHUNK;
  if (g_cls[ch] == 0)
  {
    *why = "free of a pointer that the allocator never returned";
    return false;
  }
  if (g_cls[ch] == 255)
  {
    c = -1;
    slot = (size_t)g_run[ch] * CHUNK;
  }
  else
  {
    c = g_cls[ch] - 1;
    slot = g_csize[c];
    if ((a - (BASE + ch * CHUNK)) % slot)
    {
      *why = "free of a pointer inside a block";
      return false;
    }
  }
  if (!(g_unit[(a - BASE) / 16] & 0x80000000u))
  {
    *why = "double free";
    return false;
  }
  return true;
}

void do_free(void* p)
{
  if (!p)
    return;
  Lock l;
  size_t slot;
  int c;
  const char* why = nullptr;
  if (!slot_info(p, slot, c, &why))
  {
    err(why, p);
    return;
  }
  uint64_t a = (uint64_t)p;
  uint32_t& u = g_unit[(a - BASE) / 16];
  size_t size = u & 0x7fffffffu;
  size_t tail = slot - size;
  if (tail > 64)
    tail = 64;
  for (size_t i = 0; i < tail; i++)
    if (((unsigned char*)p)[size + i] != CANARY)
    {
      err("heap block written past its end", p);
      break;
    }
  u = 0;
  g_live--;
  g_live_bytes -= size;
  if (g_on && g_env.fill_free >= 0)
    memset(p, g_env.fill_free, c < 0 && size > 65536 ? 65536 : size);
  if (c < 0)
  {
    if (a >= g_floor && g_nlarge < (1 << 24) / sizeof(Large))
      g_large[g_nlarge++] = { a, g_run[(a - BASE) / CHUNK] };
    return;
  }
  if (g_on)
  {
    uint64_t old = g_quar[g_qpos];
    g_quar[g_qpos] = a;
    g_qpos = (g_qpos + 1) % QN;
    if (old)
      push(g_cls[(old - BASE) / CHUNK] - 1, old);
  }
  else
    push(c, a);
}
}  // namespace

namespace sim::mem
{
void (*yield_hook)(int) = nullptr;

// From now on, the addresses handed out don't depend on what was allocated before
void fresh()
{
  Lock l;
  if (!g_init)
    init();
  for (int c = 0; c < g_ncls; c++)
    g_free[c].n = 0;
  g_nlarge = 0;
  memset(g_quar, 0, sizeof g_quar);
  g_qpos = 0;
  if (g_next > NCHUNK / 2)
  {
    const char m[] = "simulator error: too much memory used before the run\n";
    if (write(2, m, sizeof m - 1)) {}
    _exit(3);
  }
  g_next = NCHUNK / 2;
  g_floor = BASE + g_next * CHUNK;
}
void begin(const Env& env)
{
  g_env = env;
  g_rng = env.seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
  if (!g_rng)
    g_rng = 1;
  prng();
  g_on = true;
  g_count = 0;
}
void end()
{
  g_on = false;
}
void set_fill(int fill_alloc)
{
  g_env.fill_alloc = fill_alloc;
}
Env random_env(Rng& r)
{
  Env e;
  e.seed = r.next();
  e.permute = r.chance(0.7);
  static const int fills[] = { -1, 0x00, 0xFF, 0x7F, 0x3F, 0xC1 };
  e.fill_alloc = fills[r.range(6)];
  static const int frees[] = { 0xDB, 0xFF, 0x00, 0xDB };
  e.fill_free = frees[r.range(4)];
  return e;
}
void arm(long nth, bool sticky)
{
  g_fired = false;
  g_sticky = sticky;
  g_arm = nth;
}
bool disarm()
{
  g_arm = 0;
  bool f = g_fired;
  g_fired = false;
  return f;
}
long count()
{
  return g_count;
}
void reset_count()
{
  g_count = 0;
}
long live()
{
  return g_live;
}
long live_bytes()
{
  return g_live_bytes;
}
const char* error()
{
  return g_has_err ? g_err : nullptr;
}
bool is_live(const void* p)
{
  uint64_t a = (uint64_t)p;
  return a >= BASE && a < BASE + SIZE && !(a & 15) && (g_unit[(a - BASE) / 16] & 0x80000000u);
}
}  // namespace sim::mem

static inline void maybe_yield(int why)
{
  if (__builtin_expect(sim::mem::yield_hook != nullptr, 0))
    sim::mem::yield_hook(why);
}

extern "C"
{
  void* malloc(size_t n)
  {
    maybe_yield(1);
    return do_alloc(n, 16, false);
  }
  void free(void* p)
  {
    do_free(p);
  }
  void* calloc(size_t a, size_t b)
  {
    maybe_yield(1);
    if (b && a > (size_t)-1 / b)
      return nullptr;
    return do_alloc(a * b, 16, true);
  }
  void* realloc(void* p, size_t n)
  {
    if (!p)
      return malloc(n);
    if (n == 0)
    {
      free(p);
      return nullptr;
    }
    size_t slot;
    int c;
    const char* why = nullptr;
    if (!slot_info(p, slot, c, &why))
    {
      err(why, p);
      return nullptr;
    }
    size_t old = g_unit[((uint64_t)p - BASE) / 16] & 0x7fffffffu;
    void* q = malloc(n);
    if (!q)
      return nullptr;
    memcpy(q, p, old < n ? old : n);
    free(p);
    return q;
  }
  void* memalign(size_t al, size_t n)
  {
    maybe_yield(1);
    return do_alloc(n, al, false);
  }
  void* aligned_alloc(size_t al, size_t n)
  {
    return memalign(al, n);
  }
  int posix_memalign(void** out, size_t al, size_t n)
  {
    void* p = memalign(al, n);
    if (!p)
      return ENOMEM;
    *out = p;
    return 0;
  }
  void* valloc(size_t n)
  {
    return memalign(4096, n);
  }
  size_t malloc_usable_size(void* p)
  {
    size_t slot;
    int c;
    const char* why;
    if (!p || !slot_info(p, slot, c, &why))
      return 0;
    return g_unit[((uint64_t)p - BASE) / 16] & 0x7fffffffu;
  }
}
