// The simulated world: every libc service rcutils uses that is not a pure function.
// The library's objects have their undefined symbols renamed X -> sim_X (see build.py, SYMS below).
#include "core.h"

#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <limits.h>
#include <wchar.h>

#include <algorithm>

#include "internal.h"

namespace sim {
Clock g_clock;
int64_t g_tz_offset = 0;
Stream g_out, g_err;
bool g_isatty[3];
std::map<std::string, std::string> g_env;
std::string g_exe_path;
int64_t g_pid = 4242;
Disk g_disk;
unsigned g_disk_uid_root = 0;
bool g_dtype_unknown = false;
Loader g_dl;

void Clock::set(int64_t wall, int64_t mono)
{
  wall_s = wall / 1000000000ll; wall_ns = wall % 1000000000ll;
  mono_s = mono / 1000000000ll; mono_ns = mono % 1000000000ll;
}
static void addns(int64_t & s, int64_t & ns, int64_t d)
{
  ns += d % 1000000000ll;
  s += d / 1000000000ll;
  if (ns >= 1000000000ll) {ns -= 1000000000ll; ++s;}
  if (ns < 0) {ns += 1000000000ll; --s;}
}
void Clock::advance(int64_t d) {addns(wall_s, wall_ns, d); addns(mono_s, mono_ns, d); if (d > 0) {covered += d;}}
void Clock::jump_wall(int64_t d) {addns(wall_s, wall_ns, d);}

// ---------------------------------------------------------------- disk
void Disk::reset()
{
  n.clear();
  Node r;
  r.type = Node::DIR_;
  r.mode = 0755;
  n.push_back(r);
  cwd = "/";
  order_seed = 0;
  live = nodots = false;
  open_dirs = 0;
  opened = closed = mutations = 0;
}
static std::vector<std::string> parts(const std::string & p)
{
  std::vector<std::string> v;
  size_t i = 0;
  while (i < p.size()) {
    size_t e = p.find('/', i);
    if (e == std::string::npos) {e = p.size();}
    if (e > i) {v.push_back(p.substr(i, e - i));}
    i = e + 1;
  }
  return v;
}
static int walk(const Disk & d, int start, const std::string & path, bool follow, int depth, int * err,
  std::vector<int> stack)
{
  auto ps = parts(path);
  bool trailing = !path.empty() && path.back() == '/';
  for (size_t i = 0; i < ps.size(); ++i) {
    const Node & nd = d.n[(size_t)stack.back()];
    if (nd.type != Node::DIR_) {*err = ENOTDIR; return -1;}
    if (!g_disk_uid_root && !(nd.mode & 0100)) {*err = EACCES; return -1;}
    if (ps[i] == ".") {continue;}
    if (ps[i] == "..") {if (stack.size() > 1) {stack.pop_back();} continue;}
    if (ps[i].size() > 255) {*err = ENAMETOOLONG; return -1;}
    auto k = nd.kids.find(ps[i]);
    if (k == nd.kids.end() || !nd.linked) {*err = ENOENT; return -1;}
    int c = k->second;
    if (d.n[(size_t)c].type == Node::LINK_ && (follow || i + 1 < ps.size() || trailing)) {
      if (depth > 16) {*err = ELOOP; return -1;}
      const std::string & t = d.n[(size_t)c].target;
      std::vector<int> st = stack;
      if (!t.empty() && t[0] == '/') {st.assign(1, 0);}
      c = walk(d, start, t, true, depth + 1, err, st);
      if (c < 0) {return -1;}
    }
    stack.push_back(c);
  }
  int r = stack.back();
  if (trailing && d.n[(size_t)r].type != Node::DIR_) {*err = ENOTDIR; return -1;}
  return r;
}
int Disk::resolve(const std::string & path, bool follow, int * err) const
{
  int e0;
  if (!err) {err = &e0;}
  if (path.empty()) {*err = ENOENT; return -1;}
  if (path.size() >= PATH_MAX) {*err = ENAMETOOLONG; return -1;}
  std::string p = path[0] == '/' ? path : cwd + "/" + path;
  return walk(*this, 0, p, follow, 0, err, std::vector<int>(1, 0));
}
int Disk::mk(const std::string & path, Node::Type t, unsigned mode, int64_t size)
{
  std::string p = path;
  while (p.size() > 1 && p.back() == '/') {p.pop_back();}
  size_t s = p.rfind('/');
  std::string dir = s == std::string::npos ? "." : s == 0 ? "/" : p.substr(0, s);
  std::string nm = s == std::string::npos ? p : p.substr(s + 1);
  int d = resolve(dir);
  if (d < 0 || nm.empty() || nm.size() > 255 || nm == "." || nm == ".." || n[(size_t)d].type != Node::DIR_ || n[(size_t)d].kids.count(nm)) {return -1;}
  Node x;
  x.type = t;
  x.mode = mode;
  x.size = size;
  n.push_back(x);
  n[(size_t)d].kids[nm] = (int)n.size() - 1;
  return (int)n.size() - 1;
}
static void unlink_tree(Disk & d, int i)
{
  d.n[(size_t)i].linked = false;
  auto kids = d.n[(size_t)i].kids;
  for (auto & k : kids) {unlink_tree(d, k.second);}
  d.n[(size_t)i].kids.clear();
}
bool Disk::rm(const std::string & path)
{
  std::string p = path;
  while (p.size() > 1 && p.back() == '/') {p.pop_back();}
  size_t s = p.rfind('/');
  if (s == std::string::npos) {return false;}
  int d = resolve(s == 0 ? "/" : p.substr(0, s));
  if (d < 0 || n[(size_t)d].type != Node::DIR_) {return false;}
  auto k = n[(size_t)d].kids.find(p.substr(s + 1));
  if (k == n[(size_t)d].kids.end()) {return false;}
  int c = k->second;
  n[(size_t)d].kids.erase(k);
  unlink_tree(*this, c);
  return true;
}
static void dumprec(const Disk & d, int i, const std::string & p, std::string & o)
{
  const Node & x = d.n[(size_t)i];
  char b[64];
  snprintf(b, sizeof b, " %d %o %lld\n", (int)x.type, x.mode, (long long)x.size);
  o += p + b;
  for (auto & k : x.kids) {dumprec(d, k.second, p + "/" + k.first, o);}
}
std::string Disk::dump() const {std::string o; dumprec(*this, 0, "", o); return o;}

// ---------------------------------------------------------------- loader
void Loader::reset()
{
  libs.clear(); opens = closes = bad_close = 0; clears = false; pending.clear();
}
int Loader::total_refs() const {int r = 0; for (auto & l : libs) {r += l.refs;} return r;}

static std::map<const void *, int> g_dirs_live;
struct SimDir {
  int node;
  bool listed = false;
  std::vector<std::pair<std::string, int>> names;
  size_t pos = 0;
  uint64_t seed = g_disk.order_seed;
  bool live = g_disk.live, end = false;
  std::pair<uint64_t, std::string> last;     // live listings: the entry shown last
  struct dirent * cur = nullptr;
};
static std::vector<SimDir *> all_dirs;
static std::map<void *, int> dl_handles;   // handle -> lib index
static std::vector<void *> all_maps;
static std::map<pthread_once_t *, int> onces;
static char * exe_buf = nullptr;
static uint64_t rnd_state;
static std::map<int, std::string> fds;     // open file descriptors -> content (unused paths give ENOENT)
}  // namespace sim
extern "C" char * sim_program_invocation_name;
extern "C" char * sim_program_invocation_short_name;
char * sim_program_invocation_name = nullptr;
char * sim_program_invocation_short_name = nullptr;
extern "C" char * sim___progname_full;
extern "C" char * sim___progname;
char * sim___progname_full = nullptr;
char * sim___progname = nullptr;

namespace sim {
void set_exe(const std::string & p)
{
  free(exe_buf);
  g_exe_path = p;
  exe_buf = strdup(p.c_str());
  sim_program_invocation_name = exe_buf;
  sim___progname_full = exe_buf;
  char * s = strrchr(exe_buf, '/');
  sim_program_invocation_short_name = s ? s + 1 : exe_buf;
  sim___progname = sim_program_invocation_short_name;
}
void reset_world_seams()
{
  g_clock = Clock();
  g_clock.set(1700000000ll * 1000000000ll, 5000ll * 1000000000ll);
  g_tz_offset = 0;
  g_out = Stream();
  g_err = Stream();
  g_isatty[0] = g_isatty[1] = g_isatty[2] = false;
  g_env.clear();
  g_disk.reset();
  g_disk_uid_root = 0;
  g_dtype_unknown = false;
  g_dl.reset();
  for (auto d : all_dirs) {free(d->cur); delete d;}
  all_dirs.clear();
  for (auto m : all_maps) {free(m);}
  all_maps.clear();
  dl_handles.clear();
  onces.clear();
  rnd_state = 12345;
  g_pid = 4242;
  set_exe("/usr/bin/simulated_process");
}

static void seam()
{
  if (g_on_seam && in_thread()) {g_on_seam();}
  yield(Y_CALL);
  errno_noise();
}

// ---------------------------------------------------------------- streams
static Stream * stream_of(FILE * f)
{
  if (f == stdout) {return &g_out;}
  if (f == stderr) {return &g_err;}
  return nullptr;
}
static int emit(FILE * f, const std::string & text)
{
  seam();
  Stream * s = stream_of(f);
  if (!s) {ev("write to unknown stream"); return -1;}
  int64_t arg = 0;
  std::string t = text;
  bool fail = false;
  if (should_fail(F_WRITE, &arg)) {
    fail = true;
    s->errors++;
    t = (arg & 1) ? text.substr(0, text.size() / 2) : std::string();
    errno = (arg & 2) ? ENOSPC : EIO;
  }
  if (!t.empty()) {
    s->data += t;
    s->writes.push_back({my_tid(), event_seq(), t});
  }
  ev("%s %zu %llx%s", s == &g_out ? "stdout" : "stderr", t.size(),
    (unsigned long long)hash64(t.data(), t.size()), fail ? " (failed)" : "");
  yield(Y_CALL);
  return fail ? -1 : (int)text.size();
}
static std::string vfmt(const char * f, va_list ap)
{
  va_list c;
  va_copy(c, ap);
  int n = vsnprintf(nullptr, 0, f, c);
  va_end(c);
  if (n < 0) {return "";}
  std::string s((size_t)n + 1, '\0');
  vsnprintf(&s[0], s.size(), f, ap);
  s.resize((size_t)n);
  return s;
}
}  // namespace sim
using namespace sim;

static void * cov_guard_dummy;
extern "C" {
// ---------------------------------------------------------------- heap
void * sim_malloc(size_t n) {return ledger_alloc(HEAP, n, false);}
void * sim_calloc(size_t c, size_t n)
{
  size_t t;
  if (__builtin_mul_overflow(c, n, &t)) {errno = ENOMEM; return nullptr;}
  return ledger_alloc(HEAP, t, true);
}
void * sim_realloc(void * p, size_t n) {return ledger_realloc(HEAP, p, n);}
void * sim_reallocarray(void * p, size_t c, size_t n)
{
  size_t t;
  if (__builtin_mul_overflow(c, n, &t)) {errno = ENOMEM; return nullptr;}
  return ledger_realloc(HEAP, p, t);
}
void sim_free(void * p) {ledger_free(HEAP, p);}
char * sim_strdup(const char * s)
{
  size_t n = strlen(s) + 1;
  char * p = (char *)ledger_alloc(HEAP, n, false);
  if (p) {memcpy(p, s, n);}
  return p;
}
char * sim_strndup(const char * s, size_t m)
{
  size_t n = strnlen(s, m);
  char * p = (char *)ledger_alloc(HEAP, n + 1, false);
  if (p) {memcpy(p, s, n); p[n] = 0;}
  return p;
}
int sim_vasprintf(char ** o, const char * f, va_list ap)
{
  std::string s = vfmt(f, ap);
  *o = (char *)ledger_alloc(HEAP, s.size() + 1, false);
  if (!*o) {return -1;}
  memcpy(*o, s.c_str(), s.size() + 1);
  return (int)s.size();
}
int sim_asprintf(char ** o, const char * f, ...)
{
  va_list ap;
  va_start(ap, f);
  int r = sim_vasprintf(o, f, ap);
  va_end(ap);
  return r;
}
// ---------------------------------------------------------------- formatting
int sim_vsnprintf(char * b, size_t n, const char * f, va_list ap)
{
  seam();
  int64_t arg = 0;
  if (should_fail(F_FMT, &arg)) {errno = (arg & 1) ? EILSEQ : EOVERFLOW; return -1;}
  if (n && library_static(b)) {yield(Y_GLOB);}
  int r = vsnprintf(b, n, f, ap);
  if (n && r >= 0) {stored(b, std::min(n, (size_t)r + 1));}
  yield(Y_CALL);
  return r;
}
int sim_snprintf(char * b, size_t n, const char * f, ...)
{
  va_list ap;
  va_start(ap, f);
  int r = sim_vsnprintf(b, n, f, ap);
  va_end(ap);
  return r;
}
int sim_vsprintf(char * b, const char * f, va_list ap) {seam(); return vsprintf(b, f, ap);}
int sim_sprintf(char * b, const char * f, ...)
{
  va_list ap;
  va_start(ap, f);
  int r = sim_vsprintf(b, f, ap);
  va_end(ap);
  return r;
}
// copies into and out of static data are accesses to it
static void touch(const void * p, const void * q, size_t n) {if (n && (library_static(p) || (q && library_static(q)))) {yield(Y_GLOB);}}
void * sim_memcpy(void * d, const void * s, size_t n) {stored(d, n); touch(d, s, n); return memcpy(d, s, n);}
void * sim_memmove(void * d, const void * s, size_t n) {stored(d, n); touch(d, s, n); return memmove(d, s, n);}
void * sim_memset(void * d, int c, size_t n) {stored(d, n); touch(d, nullptr, n); return memset(d, c, n);}
void * sim___asan_memcpy(void * d, const void * s, size_t n) {stored(d, n); touch(d, s, n); return memcpy(d, s, n);}
void * sim___asan_memmove(void * d, const void * s, size_t n) {stored(d, n); touch(d, s, n); return memmove(d, s, n);}
void * sim___asan_memset(void * d, int c, size_t n) {stored(d, n); touch(d, nullptr, n); return memset(d, c, n);}
char * sim_strcpy(char * d, const char * s) {stored(d, strlen(s) + 1); touch(d, s, 1); return strcpy(d, s);}
char * sim_stpcpy(char * d, const char * s) {stored(d, strlen(s) + 1); touch(d, s, 1); return stpcpy(d, s);}
char * sim_strncpy(char * d, const char * s, size_t n) {stored(d, n); touch(d, s, n); return strncpy(d, s, n);}
char * sim_strcat(char * d, const char * s) {stored(d + strlen(d), strlen(s) + 1); touch(d, s, 1); return strcat(d, s);}
char * sim_strncat(char * d, const char * s, size_t n) {stored(d + strlen(d), strnlen(s, n) + 1); touch(d, s, n); return strncat(d, s, n);}
size_t sim_strlen(const char * s) {touch(s, nullptr, 1); return strlen(s);}
int sim_strcmp(const char * a, const char * b) {touch(a, b, 1); return strcmp(a, b);}
#undef strerror_r
char * sim_strerror_r(int e, char * b, size_t n) {stored(b, n); touch(b, nullptr, n); return strerror_r(e, b, n);}
// ---------------------------------------------------------------- stdio
int sim_vfprintf(FILE * f, const char * fm, va_list ap) {return emit(f, vfmt(fm, ap));}
int sim_fprintf(FILE * f, const char * fm, ...)
{
  va_list ap;
  va_start(ap, fm);
  int r = sim_vfprintf(f, fm, ap);
  va_end(ap);
  return r;
}
int sim_vprintf(const char * fm, va_list ap) {return sim_vfprintf(stdout, fm, ap);}
int sim_printf(const char * fm, ...)
{
  va_list ap;
  va_start(ap, fm);
  int r = sim_vfprintf(stdout, fm, ap);
  va_end(ap);
  return r;
}
int sim_fputs(const char * s, FILE * f) {return emit(f, s) < 0 ? EOF : 1;}
int sim_puts(const char * s) {return emit(stdout, std::string(s) + "\n") < 0 ? EOF : 1;}
int sim_fputc(int c, FILE * f) {return emit(f, std::string(1, (char)c)) < 0 ? EOF : (c & 255);}
int sim_putc(int c, FILE * f) {return sim_fputc(c, f);}
int sim_putchar(int c) {return sim_fputc(c, stdout);}
size_t sim_fwrite(const void * p, size_t s, size_t n, FILE * f)
{
  return emit(f, std::string((const char *)p, s * n)) < 0 ? 0 : n;
}
void sim_perror(const char * s) {emit(stderr, std::string(s ? s : "") + ": " + strerror(errno) + "\n");}
ssize_t sim_write(int fd, const void * p, size_t n)
{
  if (fd != 1 && fd != 2) {errno = EBADF; return -1;}
  return emit(fd == 1 ? stdout : stderr, std::string((const char *)p, n)) < 0 ? -1 : (ssize_t)n;
}
int sim_fflush(FILE * f)
{
  seam();
  if (!f) {g_out.flushes++; g_err.flushes++; return 0;}
  Stream * s = stream_of(f);
  if (s) {s->flushes++;}
  return 0;
}
int sim_setvbuf(FILE * f, char *, int mode, size_t)
{
  seam();
  Stream * s = stream_of(f);
  ev("setvbuf %d", mode);
  if (should_fail(F_SETVBUF)) {errno = EBADF; return -1;}
  if (s) {s->bufmode = mode;}
  return 0;
}
void sim_setlinebuf(FILE * f) {sim_setvbuf(f, nullptr, _IOLBF, 0);}
int sim_fileno(FILE * f) {seam(); return f == stdout ? 1 : f == stderr ? 2 : 0;}
int sim_isatty(int fd)
{
  seam();
  bool r = fd >= 0 && fd < 3 && g_isatty[fd];
  ev("isatty %d=%d", fd, r);
  if (!r) {errno = ENOTTY;}
  return r;
}
int sim_fputs_unlocked(const char * s, FILE * f) {return sim_fputs(s, f);}
int sim_fputc_unlocked(int c, FILE * f) {return sim_fputc(c, f);}
int sim_putc_unlocked(int c, FILE * f) {return sim_fputc(c, f);}
size_t sim_fwrite_unlocked(const void * p, size_t s, size_t n, FILE * f) {return sim_fwrite(p, s, n, f);}
int sim_fflush_unlocked(FILE * f) {return sim_fflush(f);}
int sim_fileno_unlocked(FILE * f) {return sim_fileno(f);}
int sim_vdprintf(int fd, const char * fm, va_list ap)
{
  if (fd != 1 && fd != 2) {errno = EBADF; return -1;}
  return sim_vfprintf(fd == 1 ? stdout : stderr, fm, ap);
}
int sim_dprintf(int fd, const char * fm, ...)
{
  va_list ap;
  va_start(ap, fm);
  int r = sim_vdprintf(fd, fm, ap);
  va_end(ap);
  return r;
}
void sim_flockfile(FILE * f) {sched_mutex_lock(f);}
void sim_funlockfile(FILE * f) {sched_mutex_unlock(f);}
// ---------------------------------------------------------------- environment
char * sim_getenv(const char * k)
{
  seam();
  if (should_fail(F_GETENV)) {return nullptr;}
  if (g_on_getenv && in_thread()) {g_on_getenv(k);}
  auto i = g_env.find(k);
  ev("getenv %s=%s", k, i == g_env.end() ? "(none)" : i->second.c_str());
  return i == g_env.end() ? nullptr : (char *)i->second.c_str();
}
char * sim_secure_getenv(const char * k) {return sim_getenv(k);}
int sim_setenv(const char * k, const char * v, int ow)
{
  seam();
  if (!k || !*k || strchr(k, '=')) {errno = EINVAL; return -1;}
  if (should_fail(F_SETENV)) {errno = ENOMEM; return -1;}
  if (ow || !g_env.count(k)) {g_env[k] = v;}
  ev("setenv %s", k);
  return 0;
}
int sim_unsetenv(const char * k)
{
  seam();
  if (!k || !*k || strchr(k, '=')) {errno = EINVAL; return -1;}
  if (should_fail(F_SETENV)) {errno = ENOMEM; return -1;}
  g_env.erase(k);
  ev("unsetenv %s", k);
  return 0;
}
int sim_putenv(char * kv)
{
  seam();
  if (should_fail(F_SETENV)) {errno = ENOMEM; return -1;}
  std::string s(kv);
  size_t e = s.find('=');
  if (e == std::string::npos) {g_env.erase(s);} else {g_env[s.substr(0, e)] = s.substr(e + 1);}
  return 0;
}
int sim_clearenv(void) {seam(); g_env.clear(); return 0;}
// ---------------------------------------------------------------- time
int sim_clock_gettime(clockid_t id, struct timespec * ts)
{
  seam();
  int64_t arg = 0;
  bool wall = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI;
  g_clock.reads++;
  if (should_fail(F_CLOCK, &arg)) {
    if (arg == 1) {ts->tv_sec = -5; ts->tv_nsec = 10; return 0;}
    if (arg == 2) {ts->tv_sec = 0; ts->tv_nsec = -1; return 0;}
    if (arg == 3) {ts->tv_sec = -(1ll << 34); ts->tv_nsec = 999999999; return 0;}
    errno = EINVAL;
    return -1;
  }
  if (wall) {g_clock.wall_reads++;} else {g_clock.mono_reads++;}
  g_clock.advance(g_clock.tick);
  int64_t sec = wall ? g_clock.wall_s : g_clock.mono_s, ns = wall ? g_clock.wall_ns : g_clock.mono_ns;
  // the other clocks of the platform differ from the two the simulator drives
  if (id == CLOCK_REALTIME_COARSE || id == CLOCK_MONOTONIC_COARSE) {ns -= ns % 4000000;}
  if (id == CLOCK_BOOTTIME) {sec += 12345;}
  if (id == CLOCK_TAI) {sec += 37;}
  if (id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID) {sec /= 7;}
  ts->tv_sec = sec;
  ts->tv_nsec = ns;
  g_clock.got[wall][my_tid() & 15] = wall ? g_clock.wall() : g_clock.mono();
  if (wall) {g_clock.last_wall = g_clock.wall();} else {g_clock.last_mono = g_clock.mono();}
  ev("clock %d %lld.%09ld", wall, (long long)ts->tv_sec, (long)ts->tv_nsec);
  yield(Y_CALL);
  return 0;
}
int sim_timespec_get(struct timespec * ts, int base)
{
  return sim_clock_gettime(CLOCK_REALTIME, ts) == 0 ? base : 0;
}
int sim_gettimeofday(struct timeval * tv, void *)
{
  struct timespec ts;
  int r = sim_clock_gettime(CLOCK_REALTIME, &ts);
  if (r == 0) {tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;}
  return r;
}
time_t sim_time(time_t * o)
{
  struct timespec ts;
  time_t r = sim_clock_gettime(CLOCK_REALTIME, &ts) == 0 ? ts.tv_sec : (time_t)-1;
  if (o) {*o = r;}
  return r;
}
int sim_nanosleep(const struct timespec * a, struct timespec * rem)
{
  seam();
  g_clock.advance(a->tv_sec * 1000000000ll + a->tv_nsec);
  if (rem) {rem->tv_sec = 0; rem->tv_nsec = 0;}
  return 0;
}
int sim_usleep(unsigned us) {seam(); g_clock.advance((int64_t)us * 1000); return 0;}
unsigned sim_sleep(unsigned s) {seam(); g_clock.advance((int64_t)s * 1000000000ll); return 0;}
static struct tm g_tm;
struct tm * sim_localtime_r(const time_t * t, struct tm * o)
{
  seam();
  if (should_fail(F_LOCALTIME)) {errno = EOVERFLOW; return nullptr;}
  time_t x = *t + g_tz_offset;
  o = gmtime_r(&x, o);
  yield(Y_CALL);
  return o;
}
struct tm * sim_localtime(const time_t * t) {return sim_localtime_r(t, &g_tm);}
struct tm * sim_gmtime(const time_t * t) {seam(); struct tm * r = gmtime_r(t, &g_tm); yield(Y_CALL); return r;}
size_t sim_strftime(char * s, size_t n, const char * f, const struct tm * t)
{
  seam();
  if (should_fail(F_STRFTIME)) {return 0;}
  return strftime(s, n, f, t);
}
// ---------------------------------------------------------------- files
static int fill_stat(int i, struct stat * st)
{
  memset(st, 0, sizeof *st);
  const Node & n = g_disk.n[(size_t)i];
  st->st_mode = n.mode | (n.type == Node::DIR_ ? S_IFDIR : n.type == Node::FILE_ ? S_IFREG :
    n.type == Node::FIFO_ ? S_IFIFO : S_IFLNK);
  st->st_size = n.type == Node::DIR_ ? 4096 : n.size;
  st->st_ino = (ino_t)(i + 1);
  st->st_nlink = 1;
  st->st_uid = st->st_gid = 1000;
  return 0;
}
static int do_stat(const char * p, struct stat * st, bool follow)
{
  seam();
  int64_t arg = 0;
  if (should_fail(F_STAT, &arg)) {
    static const int e[4] = {EACCES, EIO, ENOMEM, ENOENT};
    errno = e[arg & 3];
    return -1;
  }
  int err = 0;
  int i = p ? g_disk.resolve(p, follow, &err) : -1;
  if (!p) {err = EFAULT;}
  ev("stat %s %d", p ? p : "", i);
  if (i < 0) {errno = err; return -1;}
  return fill_stat(i, st);
}
int sim_stat(const char * p, struct stat * st) {return do_stat(p, st, true);}
int sim_lstat(const char * p, struct stat * st) {return do_stat(p, st, false);}
int sim_stat64(const char * p, struct stat * st) {return do_stat(p, st, true);}
int sim_lstat64(const char * p, struct stat * st) {return do_stat(p, st, false);}
static int check_access(int i, int m)
{
  if (g_disk_uid_root) {return 0;}
  unsigned md = g_disk.n[(size_t)i].mode;
  if (((m & R_OK) && !(md & 0400)) || ((m & W_OK) && !(md & 0200)) || ((m & X_OK) && !(md & 0100))) {
    errno = EACCES;
    return -1;
  }
  return 0;
}
int sim_access(const char * p, int m)
{
  seam();
  int64_t arg = 0;
  if (should_fail(F_STAT, &arg)) {
    static const int e[4] = {EACCES, EIO, ENOMEM, ENOENT};
    errno = e[arg & 3];
    return -1;
  }
  int err = 0;
  int i = g_disk.resolve(p, true, &err);
  ev("access %s %d", p, i);
  if (i < 0) {errno = err; return -1;}
  return check_access(i, m);
}
static std::string at(int fd, const char * p);
int sim_faccessat(int fd, const char * p, int m, int) {return sim_access(at(fd, p).c_str(), m);}
int sim_fstatat(int fd, const char * p, struct stat * st, int fl)
{
  return do_stat(at(fd, p).c_str(), st, !(fl & AT_SYMLINK_NOFOLLOW));
}
int sim_fstatat64(int fd, const char * p, struct stat * st, int fl) {return sim_fstatat(fd, p, st, fl);}
int sim_euidaccess(const char * p, int m) {return sim_access(p, m);}
int sim_eaccess(const char * p, int m) {return sim_access(p, m);}
static bool dir_for_write(const char * p, int * err)
{
  std::string s(p);
  while (s.size() > 1 && s.back() == '/') {s.pop_back();}
  size_t k = s.rfind('/');
  std::string dir = k == std::string::npos ? "." : k == 0 ? "/" : s.substr(0, k);
  int d = g_disk.resolve(dir, true, err);
  if (d < 0) {return false;}
  if (g_disk.n[(size_t)d].type != Node::DIR_) {*err = ENOTDIR; return false;}
  if (!g_disk.n[(size_t)d].linked) {*err = ENOENT; return false;}
  if (!g_disk_uid_root && (g_disk.n[(size_t)d].mode & 0300) != 0300) {*err = EACCES; return false;}
  if (s.substr(k + 1).size() > 255) {*err = ENAMETOOLONG; return false;}
  return true;
}
int sim_mkdir(const char * p, mode_t m)
{
  seam();
  int64_t arg = 0;
  if (should_fail(F_MKDIR, &arg)) {
    static const int e[4] = {ENOSPC, EACCES, EIO, EROFS};
    errno = e[arg & 3];
    return -1;
  }
  int err = 0;
  if (!*p) {errno = ENOENT; return -1;}
  int i = g_disk.resolve(p, false, &err);
  if (i >= 0) {errno = EEXIST; ev("mkdir %s exists", p); return -1;}
  if (err != ENOENT) {errno = err; return -1;}
  std::string s(p);
  while (s.size() > 1 && s.back() == '/') {s.pop_back();}
  if (g_disk.resolve(s, false) >= 0) {errno = EEXIST; return -1;}
  if (!dir_for_write(p, &err)) {errno = err; return -1;}
  if (g_disk.mk(p, Node::DIR_, (unsigned)m & 0777, 0) < 0) {errno = ENOENT; return -1;}
  g_disk.mutations++;
  ev("mkdir %s", p);
  yield(Y_CALL);
  return 0;
}
int sim_mkdirat(int fd, const char * p, mode_t m) {return sim_mkdir(at(fd, p).c_str(), m);}
int sim_rmdir(const char * p)
{
  seam();
  int err = 0;
  int i = g_disk.resolve(p, false, &err);
  if (i < 0) {errno = err; return -1;}
  if (g_disk.n[(size_t)i].type != Node::DIR_) {errno = ENOTDIR; return -1;}
  if (!g_disk.n[(size_t)i].kids.empty()) {errno = ENOTEMPTY; return -1;}
  g_disk.mutations++;
  return g_disk.rm(p) ? 0 : -1;
}
int sim_unlink(const char * p)
{
  seam();
  int err = 0;
  int i = g_disk.resolve(p, false, &err);
  if (i < 0) {errno = err; return -1;}
  if (g_disk.n[(size_t)i].type == Node::DIR_) {errno = EISDIR; return -1;}
  g_disk.mutations++;
  return g_disk.rm(p) ? 0 : -1;
}
int sim_remove(const char * p) {return sim_unlink(p) == 0 ? 0 : sim_rmdir(p);}
int sim_rename(const char *, const char *) {seam(); g_disk.mutations++; errno = EXDEV; return -1;}
int sim_chmod(const char * p, mode_t m)
{
  seam();
  int err = 0;
  int i = g_disk.resolve(p, true, &err);
  if (i < 0) {errno = err; return -1;}
  g_disk.n[(size_t)i].mode = m & 07777;
  g_disk.mutations++;
  return 0;
}
int sim_chdir(const char * p)
{
  seam();
  int err = 0;
  int i = g_disk.resolve(p, true, &err);
  if (i < 0) {errno = err; return -1;}
  g_disk.cwd = p[0] == '/' ? p : g_disk.cwd + "/" + p;
  g_disk.mutations++;
  return 0;
}
static int fd_next = 100;
static std::map<int, int> fd_node;
static const int DIR_FD = 1000000;     // descriptor of the directory node i: DIR_FD + i
static bool path_to(int from, int node, std::string & out)
{
  if (from == node) {return true;}
  for (auto & k : g_disk.n[(size_t)from].kids) {
    std::string rest;
    if (path_to(k.second, node, rest)) {out = "/" + k.first + rest; return true;}
  }
  return false;
}
static std::string at(int fd, const char * p)
{
  if (fd == AT_FDCWD || p[0] == '/') {return p;}
  auto k = fd_node.find(fd);
  int node = k != fd_node.end() ? k->second : fd >= DIR_FD ? fd - DIR_FD : -1;
  std::string dir;
  if (node < 0 || node >= (int)g_disk.n.size() || !path_to(0, node, dir)) {return "/\001 gone";}
  return dir + "/" + p;
}
int sim_open(const char * p, int fl, ...)
{
  seam();
  int64_t arg = 0;
  if (should_fail(F_OPENDIR, &arg)) {errno = EMFILE; return -1;}
  int err = 0;
  int i = g_disk.resolve(p, true, &err);
  if (i < 0 || (fl & O_CREAT)) {
    if ((fl & O_CREAT) && i < 0 && dir_for_write(p, &err)) {
      g_disk.mutations++;
      i = g_disk.mk(p, Node::FILE_, 0644, 0);
    }
    if (i < 0) {errno = err; return -1;}
  }
  if (check_access(i, (fl & O_ACCMODE) == O_RDONLY ? R_OK : W_OK) != 0) {return -1;}
  if ((fl & O_DIRECTORY) && g_disk.n[(size_t)i].type != Node::DIR_) {errno = ENOTDIR; return -1;}
  int fd = ++fd_next;
  fd_node[fd] = i;
  g_disk.open_dirs++;
  g_disk.opened++;
  return fd;
}
int sim_open64(const char * p, int fl, ...) {return sim_open(p, fl);}
int sim_openat(int fd, const char * p, int fl, ...) {return sim_open(at(fd, p).c_str(), fl);}
int sim_openat64(int fd, const char * p, int fl, ...) {return sim_open(at(fd, p).c_str(), fl);}
int sim_close(int fd)
{
  seam();
  auto k = fd_node.find(fd);
  if (k == fd_node.end()) {violate("bad-close", "close(%d) of a descriptor that is not open", fd);}
  fd_node.erase(k);
  g_disk.open_dirs--;
  g_disk.closed++;
  return 0;
}
int sim_fstat(int fd, struct stat * st)
{
  seam();
  int64_t arg = 0;
  if (should_fail(F_STAT, &arg)) {errno = EIO; return -1;}
  if (fd >= DIR_FD && fd - DIR_FD < (int)g_disk.n.size()) {return fill_stat(fd - DIR_FD, st);}
  auto k = fd_node.find(fd);
  if (k == fd_node.end()) {errno = EBADF; return -1;}
  return fill_stat(k->second, st);
}
int sim_fstat64(int fd, struct stat * st) {return sim_fstat(fd, st);}
static DIR * mkdir_handle(int i)
{
  SimDir * d = new SimDir();
  d->node = i;
  all_dirs.push_back(d);
  g_disk.open_dirs++;
  g_disk.opened++;
  return (DIR *)d;
}
static SimDir * live_dir(DIR * p, const char * fn)
{
  for (auto d : all_dirs) {if ((DIR *)d == p) {return d;}}
  violate("bad-dir-handle", "%s on a directory handle that is not open", fn);
}
DIR * sim_opendir(const char * p)
{
  seam();
  int64_t arg = 0;
  if (should_fail(F_OPENDIR, &arg)) {
    static const int e[4] = {EMFILE, EACCES, ENOMEM, EIO};
    errno = e[arg & 3];
    return nullptr;
  }
  int err = 0;
  int i = g_disk.resolve(p, true, &err);
  ev("opendir %s %d", p, i);
  if (i < 0) {errno = err; return nullptr;}
  if (g_disk.n[(size_t)i].type != Node::DIR_) {errno = ENOTDIR; return nullptr;}
  if (check_access(i, R_OK) != 0) {return nullptr;}
  DIR * d = mkdir_handle(i);
  yield(Y_CALL);
  return d;
}
DIR * sim_fdopendir(int fd)
{
  seam();
  auto k = fd_node.find(fd);
  if (k == fd_node.end()) {errno = EBADF; return nullptr;}
  int i = k->second;
  fd_node.erase(k);
  g_disk.open_dirs--;
  g_disk.closed++;
  if (g_disk.n[(size_t)i].type != Node::DIR_) {errno = ENOTDIR; return nullptr;}
  return mkdir_handle(i);
}
struct dirent * sim_readdir(DIR * dp)
{
  int keep = errno;
  seam();
  errno = keep;                          // except this: it tells the end of the listing from a failure
  SimDir * d = live_dir(dp, "readdir");
  int64_t arg = 0;
  if (should_fail(F_READDIR, &arg)) {errno = (arg & 1) ? EIO : EBADF; return nullptr;}
  if (d->live) {
    // the next name, in an order that does not depend on what is there, after the one shown last
    const Node & n = g_disk.n[(size_t)d->node];
    std::pair<uint64_t, std::string> best;
    int node = -1;
    auto consider = [&](const std::string & nm, int i) {
        std::pair<uint64_t, std::string> k(d->seed ? hash64(nm.data(), nm.size()) * (d->seed | 1) : nm == "." ? 1 : nm == ".." ? 2 : 3, nm);
        if (d->pos && k <= d->last) {return;}
        if (node < 0 || k < best) {best = k; node = i;}
      };
    if (n.linked && !d->end) {
      for (auto & k : n.kids) {consider(k.first, k.second);}
      if (!g_disk.nodots) {consider(".", d->node); consider("..", 0);}
    } else if (!n.linked) {probe("readdir-of-removed-directory");}
    d->names.resize(d->pos);
    if (node >= 0) {d->names.push_back({best.second, node}); d->last = best;} else {d->end = true;}
  } else if (!d->listed) {
    d->listed = true;
    const Node & n = g_disk.n[(size_t)d->node];
    if (n.linked) {
      for (auto & k : n.kids) {d->names.push_back(k);}
      if (!g_disk.nodots) {
        d->names.push_back({".", d->node});
        d->names.push_back({"..", 0});
      }
      if (d->seed) {
        Rng r(d->seed + (uint64_t)d->node);
        for (size_t i = d->names.size(); i > 1; --i) {std::swap(d->names[i - 1], d->names[r.below(i)]);}
      } else {
        if (!g_disk.nodots) {std::rotate(d->names.begin(), d->names.end() - 2, d->names.end());}
      }
    } else {probe("readdir-of-removed-directory");}
  }
  free(d->cur);
  d->cur = nullptr;
  if (d->pos >= d->names.size()) {return nullptr;}
  auto & e = d->names[d->pos++];
  d->cur = (struct dirent *)malloc(sizeof(struct dirent));
  memset(d->cur, 0, sizeof *d->cur);
  const Node & n = g_disk.n[(size_t)e.second];
  d->cur->d_ino = (ino_t)(e.second + 1);
  d->cur->d_type = g_dtype_unknown ? DT_UNKNOWN : n.type == Node::DIR_ ? DT_DIR : n.type == Node::FILE_ ? DT_REG :
    n.type == Node::FIFO_ ? DT_FIFO : DT_LNK;
  snprintf(d->cur->d_name, sizeof d->cur->d_name, "%s", e.first.c_str());
  ev("readdir %s", e.first.c_str());
  yield(Y_CALL);
  return d->cur;
}
struct dirent * sim_readdir64(DIR * dp) {return sim_readdir(dp);}
void sim_rewinddir(DIR * dp) {seam(); SimDir * d = live_dir(dp, "rewinddir"); d->pos = 0; d->end = false; d->listed = false; d->names.clear();}
int sim_dirfd(DIR * dp) {seam(); return DIR_FD + live_dir(dp, "dirfd")->node;}
int sim_closedir(DIR * dp)
{
  seam();
  SimDir * d = live_dir(dp, "closedir");
  all_dirs.erase(std::find(all_dirs.begin(), all_dirs.end(), d));
  free(d->cur);
  delete d;
  g_disk.open_dirs--;
  g_disk.closed++;
  ev("closedir");
  if (should_fail(F_CLOSEDIR)) {errno = EIO; return -1;}
  return 0;
}
char * sim_getcwd(char * b, size_t n)
{
  seam();
  int64_t arg = 0;
  if (should_fail(F_GETCWD, &arg)) {
    static const int e[4] = {ENOENT, EACCES, ENOMEM, EIO};
    errno = e[arg & 3];
    return nullptr;
  }
  if (!b) {
    size_t m = g_disk.cwd.size() + 1;
    b = (char *)ledger_alloc(HEAP, n > m ? n : m, false);
    if (!b) {return nullptr;}
    memcpy(b, g_disk.cwd.c_str(), m);
    return b;
  }
  if (n == 0) {errno = EINVAL; return nullptr;}
  if (g_disk.cwd.size() + 1 > n) {errno = ERANGE; return nullptr;}
  memcpy(b, g_disk.cwd.c_str(), g_disk.cwd.size() + 1);
  ev("getcwd %s", b);
  return b;
}
char * sim_get_current_dir_name(void) {return sim_getcwd(nullptr, 0);}
char * sim_realpath(const char * p, char * o)
{
  seam();
  int err = 0;
  if (g_disk.resolve(p, true, &err) < 0) {errno = err; return nullptr;}
  if (!o) {return sim_strdup(p);}
  strcpy(o, p);
  return o;
}
ssize_t sim_readlink(const char * p, char * b, size_t n)
{
  seam();
  if (strcmp(p, "/proc/self/exe") == 0) {
    size_t m = std::min(n, g_exe_path.size());
    memcpy(b, g_exe_path.data(), m);
    return (ssize_t)m;
  }
  errno = EINVAL;
  return -1;
}
// ---------------------------------------------------------------- loader
static void dl_fail(const std::string & m) {g_dl.pending[my_tid()] = m;}
void * sim_dlopen(const char * nm, int flags)
{
  seam();
  if (g_dl.clears) {g_dl.pending.erase(my_tid());}
  if (!(flags & (RTLD_LAZY | RTLD_NOW))) {dl_fail("invalid mode for dlopen()"); return nullptr;}
  if (should_fail(F_DLOPEN)) {dl_fail("simulated loader: cannot open"); return nullptr;}
  std::string s = nm ? nm : "";
  for (size_t i = 0; i < g_dl.libs.size(); ++i) {
    if (g_dl.libs[i].name == s || g_dl.libs[i].path == s) {
      if ((flags & RTLD_NOLOAD) && !g_dl.libs[i].refs) {return nullptr;}
      if ((flags & RTLD_NODELETE) && !g_dl.libs[i].resident) {g_dl.libs[i].resident = true; g_dl.libs[i].refs++;}
      g_dl.libs[i].refs++;
      g_dl.opens++;
      void * h = nullptr;
      for (auto & k : dl_handles) {if (k.second == (int)i) {h = k.first;}}
      if (!h) {h = malloc(16); all_maps.push_back(h); dl_handles[h] = (int)i;}
      ev("dlopen %s", s.c_str());
      return h;
    }
  }
  ev("dlopen %s missing", s.c_str());
  dl_fail(s + ": cannot open shared object file: No such file or directory");
  return nullptr;
}
static Lib * lib_of(void * h, const char * fn)
{
  auto i = dl_handles.find(h);
  if (i == dl_handles.end()) {violate("bad-lib-handle", "%s with a handle the loader never gave out", fn);}
  Lib * l = &g_dl.libs[(size_t)i->second];
  if (l->refs <= 0) {violate("closed-lib-handle", "%s with a handle that was already closed", fn);}
  return l;
}
void * sim_dlsym(void * h, const char * s)
{
  seam();
  ev("dlsym %s", s);
  if (g_dl.clears) {g_dl.pending.erase(my_tid());}
  if (h == RTLD_DEFAULT || h == RTLD_NEXT) {
    if (std::string(s) == "of_the_program") {return (void *)0xf1;}
    for (auto & l : g_dl.libs) {if (!l.refs) {continue;} auto i = l.syms.find(s); if (i != l.syms.end()) {return i->second;}}
    dl_fail(std::string("undefined symbol: ") + s);
    return nullptr;
  }
  Lib * l = lib_of(h, "dlsym");
  if (should_fail(F_DLSYM)) {dl_fail("simulated loader: lookup failed"); return nullptr;}
  auto i = l->syms.find(s);
  if (i == l->syms.end()) {dl_fail(l->path + ": undefined symbol: " + s); return nullptr;}
  return i->second;
}
char * sim_dlerror(void)
{
  seam();
  static thread_local char buf[600];
  auto i = g_dl.pending.find(my_tid());
  if (i == g_dl.pending.end()) {return nullptr;}
  snprintf(buf, sizeof buf, "%s", i->second.c_str());
  g_dl.pending.erase(i);
  return buf;
}
int sim_dlclose(void * h)
{
  seam();
  Lib * l = lib_of(h, "dlclose");
  if (g_dl.clears) {g_dl.pending.erase(my_tid());}
  if (should_fail(F_DLCLOSE)) {dl_fail("simulated loader: close failed"); return -1;}
  l->refs--;
  g_dl.closes++;
  ev("dlclose %s", l->name.c_str());
  return 0;
}
int sim_dlinfo(void * h, int req, void * out)
{
  seam();
  Lib * l = lib_of(h, "dlinfo");
  if (g_dl.clears) {g_dl.pending.erase(my_tid());}
  if (should_fail(F_DLINFO)) {dl_fail("simulated loader: dlinfo failed"); return -1;}
  if (req == RTLD_DI_LINKMAP) {
    struct link_map * m = (struct link_map *)calloc(1, sizeof(struct link_map));
    char * nm = strdup(l->linkmap_empty ? "" : l->path.c_str());
    all_maps.push_back(m);
    all_maps.push_back(nm);
    m->l_name = nm;
    *(struct link_map **)out = m;
    return 0;
  }
  if (req == RTLD_DI_ORIGIN) {
    strcpy((char *)out, l->path.substr(0, l->path.rfind('/')).c_str());
    return 0;
  }
  dl_fail("dlinfo: unsupported request");
  return -1;
}
int sim_dladdr(const void *, void *) {seam(); return 0;}
// ---------------------------------------------------------------- process, randomness, locks
int sim_getpid(void) {seam(); return (int)sim::g_pid;}
int sim_rand(void) {seam(); rnd_state = rnd_state * 6364136223846793005ull + 1; return (int)((rnd_state >> 33) & 0x7fffffff);}
long sim_random(void) {return sim_rand();}
void sim_srand(unsigned s) {rnd_state = s;}
int sim_sched_yield(void) {yield(Y_CALL); return 0;}
int sim_pthread_mutex_init(pthread_mutex_t *, const void *) {return 0;}
int sim_pthread_mutex_destroy(pthread_mutex_t *) {return 0;}
int sim_pthread_mutex_lock(pthread_mutex_t * m) {sched_mutex_lock(m); return 0;}
int sim_pthread_mutex_trylock(pthread_mutex_t * m) {return sched_mutex_trylock(m) ? 0 : EBUSY;}
int sim_pthread_mutex_unlock(pthread_mutex_t * m) {sched_mutex_unlock(m); return 0;}
int sim_pthread_rwlock_rdlock(void * m) {sched_mutex_lock(m); return 0;}
int sim_pthread_rwlock_wrlock(void * m) {sched_mutex_lock(m); return 0;}
int sim_pthread_rwlock_unlock(void * m) {sched_mutex_unlock(m); return 0;}
int sim_pthread_spin_lock(void * m) {sched_mutex_lock(m); return 0;}
int sim_pthread_spin_unlock(void * m) {sched_mutex_unlock(m); return 0;}
int sim_mtx_init(void *, int) {return 0;}
void sim_mtx_destroy(void *) {}
int sim_mtx_lock(void * m) {sched_mutex_lock(m); return 0;}
int sim_mtx_unlock(void * m) {sched_mutex_unlock(m); return 0;}
int sim_pthread_once(pthread_once_t * o, void (* fn)(void))
{
  sched_mutex_lock(o);
  if (!onces[o]) {onces[o] = 1; fn();}
  sched_mutex_unlock(o);
  return 0;
}
void sim_call_once(void * o, void (* fn)(void)) {sim_pthread_once((pthread_once_t *)o, fn);}
void sim___assert_fail(const char * e, const char * f, unsigned l, const char * fn)
{
  const char * s = strrchr(f, '/');
  char cls[200];
  snprintf(cls, sizeof cls, "assert:%s", fn);
  violate(cls, "%s:%u: assertion '%s' failed", s ? s + 1 : f, l, e);
}
void sim_abort(void) {violate("abort", "the library called abort()");}
void sim_exit(int c) {violate("exit", "the library called exit(%d)", c);}
void sim__exit(int c) {violate("exit", "the library called _exit(%d)", c);}
}  // extern "C"
