#include "seam_io.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim
{
namespace io
{
struct State
{
  std::map<std::string, std::string> files;
  std::map<std::string, long> nopens;
  Kind kind = None;
  std::string suffix;
  int nth = 0;
  size_t param = 0;
  bool fired = false;
};
static State& st()
{
  static State s;
  return s;
}
struct Fd
{
  bool ours = false, faulty = false, last_intr = false;
  size_t off = 0;
};
static Fd fds[1024];

Kind kind_from(const std::string& s)
{
  if (s == "enoent")
    return ENoEnt;
  if (s == "eacces")
    return EAcces;
  if (s == "emfile")
    return EMFile;
  if (s == "eio-read")
    return EIORead;
  if (s == "eintr")
    return EIntr;
  if (s == "short-read")
    return Short;
  if (s == "truncated")
    return Truncated;
  if (s == "stat-eio")
    return StatFails;
  return None;
}
void reset()
{
  st() = State();
}
void put(const std::string& p, const std::string& c)
{
  st().files[p] = c;
}
void rm(const std::string& p)
{
  st().files.erase(p);
}
void arm(Kind k, const std::string& suffix, int nth, size_t param)
{
  State& s = st();
  s.kind = k;
  s.suffix = suffix;
  s.nth = nth;
  s.param = param;
  s.fired = false;
}
bool disarm()
{
  State& s = st();
  s.kind = None;
  bool f = s.fired;
  s.fired = false;
  return f;
}
static bool ends(const std::string& p, const std::string& s)
{
  return p.size() >= s.size() && p.compare(p.size() - s.size(), s.size(), s) == 0;
}
long opens(const std::string& suffix)
{
  long n = 0;
  for (auto& e : st().nopens)
    if (ends(e.first, suffix))
      n += e.second;
  return n;
}
int open_files()
{
  int n = 0;
  for (auto& f : fds)
    n += f.ours;
  return n;
}
static bool simulated(const char* p)
{
  return p && strncmp(p, "/simfs", 6) == 0 && (p[6] == 0 || p[6] == '/');
}
static std::string norm(const char* p)
{
  std::string s;
  for (; *p; p++)
    if (!(*p == '/' && !s.empty() && s.back() == '/'))
      s += *p;
  while (s.size() > 1 && s.back() == '/')
    s.pop_back();
  return s;
}
static bool is_dir(const std::string& p)
{
  for (auto& f : st().files)
    if (f.first.compare(0, p.size() + 1, p + "/") == 0)
      return true;
  return false;
}
// 0, or the errno of the failure injected now
static bool hits(const std::string& p, bool open)
{
  State& s = st();
  if (s.kind == None || !ends(p, s.suffix) || open != (s.kind != StatFails))
    return false;
  return --s.nth == 0;
}
static int sim_open(const char* path)
{
  std::string p = norm(path);
  State& s = st();
  s.nopens[p]++;
  auto it = s.files.find(p);
  if (it == s.files.end())
  {
    errno = is_dir(p) ? EISDIR : ENOENT;
    return -1;
  }
  bool hit = hits(p, true);
  size_t n = it->second.size();
  if (hit)
  {
    if (s.kind == ENoEnt || s.kind == EAcces || s.kind == EMFile)
    {
      s.fired = true;
      errno = s.kind == ENoEnt ? ENOENT : s.kind == EAcces ? EACCES : EMFILE;
      return -1;
    }
    if (s.kind == Truncated)
    {
      size_t m = n ? s.param % n : 0;
      s.fired = m != n;
      n = m;
    }
  }
  int fd = (int)syscall(SYS_memfd_create, "simfs", 0);
  if (fd < 0)
    return -1;
  size_t w = 0;
  while (w < n)
  {
    ssize_t k = ::write(fd, it->second.data() + w, n - w);
    if (k <= 0)
      break;
    w += k;
  }
  lseek(fd, 0, SEEK_SET);
  if (fd < 1024)
  {
    fds[fd] = Fd();
    fds[fd].ours = true;
    fds[fd].faulty = hit && (s.kind == EIORead || s.kind == EIntr || s.kind == Short);
  }
  return fd;
}
static int sim_stat(const char* path, struct stat* b)
{
  std::string p = norm(path);
  State& s = st();
  memset(b, 0, sizeof *b);
  auto it = s.files.find(p);
  bool dir = it == s.files.end() && is_dir(p);
  if (it == s.files.end() && !dir)
  {
    errno = ENOENT;
    return -1;
  }
  if (hits(p, false))
  {
    s.fired = true;
    errno = EIO;
    return -1;
  }
  b->st_mode = dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
  b->st_nlink = 1;
  b->st_blksize = 4096;
  b->st_size = dir ? 4096 : (off_t)it->second.size();
  return 0;
}
}  // namespace io
}  // namespace sim
using namespace sim::io;

template <class F>
static F real(F, const char* n)
{
  return (F)dlsym(RTLD_NEXT, n);
}
#define REAL(n) real(&n, #n)

extern "C"
{
  FILE* fopen(const char* p, const char* m)
  {
    if (simulated(p))
    {
      int fd = sim_open(p);
      return fd < 0 ? nullptr : fdopen(fd, m);
    }
    return REAL(fopen)(p, m);
  }
  FILE* fopen64(const char* p, const char* m)
  {
    if (simulated(p))
      return fopen(p, m);
    return REAL(fopen64)(p, m);
  }
  int open(const char* p, int fl, ...)
  {
    va_list a;
    va_start(a, fl);
    int mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0;
    va_end(a);
    if (simulated(p))
      return sim_open(p);
    return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
  }
  int open64(const char* p, int fl, ...)
  {
    va_list a;
    va_start(a, fl);
    int mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0;
    va_end(a);
    if (simulated(p))
      return sim_open(p);
    return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
  }
  int openat(int d, const char* p, int fl, ...)
  {
    va_list a;
    va_start(a, fl);
    int mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0;
    va_end(a);
    if (simulated(p))
      return sim_open(p);
    return (int)syscall(SYS_openat, d, p, fl, mode);
  }
  int openat64(int d, const char* p, int fl, ...)
  {
    va_list a;
    va_start(a, fl);
    int mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0;
    va_end(a);
    if (simulated(p))
      return sim_open(p);
    return (int)syscall(SYS_openat, d, p, fl, mode);
  }
  int close(int fd)
  {
    if (fd >= 0 && fd < 1024)
      fds[fd] = Fd();
    return (int)syscall(SYS_close, fd);
  }
  int fclose(FILE* f)
  {
    int fd = f ? fileno(f) : -1;
    if (fd >= 0 && fd < 1024)
      fds[fd] = Fd();
    return REAL(fclose)(f);
  }
  ssize_t read(int fd, void* b, size_t n)
  {
    if (fd >= 0 && fd < 1024 && fds[fd].ours)
    {
      Fd& f = fds[fd];
      if (f.faulty)
      {
        auto& s = st();
        if (s.kind == EIORead && f.off >= s.param)
        {
          s.fired = true;
          errno = EIO;
          return -1;
        }
        if (s.kind == EIORead && f.off + n > s.param)
          n = s.param - f.off;
        if (s.kind == EIntr)
        {
          f.last_intr = !f.last_intr;
          if (f.last_intr)
          {
            s.fired = true;
            errno = EINTR;
            return -1;
          }
        }
        if (s.kind == Short && n > 1)
        {
          n = std::min(n, 1 + (s.param + 7 * f.off) % 97);
          s.fired = true;
        }
      }
      ssize_t k = syscall(SYS_read, fd, b, n);
      if (k > 0)
        f.off += k;
      return k;
    }
    return syscall(SYS_read, fd, b, n);
  }
  int stat(const char* p, struct stat* b) noexcept
  {
    return simulated(p) ? sim_stat(p, b) : REAL(stat)(p, b);
  }
  int lstat(const char* p, struct stat* b) noexcept
  {
    return simulated(p) ? sim_stat(p, b) : REAL(lstat)(p, b);
  }
  int stat64(const char* p, struct stat64* b) noexcept
  {
    return simulated(p) ? sim_stat(p, (struct stat*)b) : REAL(stat64)(p, b);
  }
  int lstat64(const char* p, struct stat64* b) noexcept
  {
    return simulated(p) ? sim_stat(p, (struct stat*)b) : REAL(lstat64)(p, b);
  }
  int fstatat(int d, const char* p, struct stat* b, int fl) noexcept
  {
    return simulated(p) ? sim_stat(p, b) : REAL(fstatat)(d, p, b, fl);
  }
  int fstatat64(int d, const char* p, struct stat64* b, int fl) noexcept
  {
    return simulated(p) ? sim_stat(p, (struct stat*)b) : REAL(fstatat64)(d, p, b, fl);
  }
  int access(const char* p, int m) noexcept
  {
    struct stat b;
    return simulated(p) ? sim_stat(p, &b) : REAL(access)(p, m);
  }
  static int sim_statx(const char* p, struct statx* x)
  {
    struct stat b;
    if (sim_stat(p, &b) != 0)
      return -1;
    memset(x, 0, sizeof *x);
    x->stx_mask = STATX_BASIC_STATS;
    x->stx_mode = b.st_mode;
    x->stx_nlink = 1;
    x->stx_size = b.st_size;
    x->stx_blksize = 4096;
    return 0;
  }
  int statx(int d, const char* p, int fl, unsigned mask, struct statx* x) noexcept
  {
    if (simulated(p))
      return sim_statx(p, x);
    return (int)syscall(SYS_statx, d, p, fl, mask, x);
  }
}
