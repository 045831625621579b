#include "core.h"

#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>

#include <algorithm>
#include <memory>
#include <unordered_map>
#include <unordered_set>

#include "internal.h"

extern "C" {
void rcutils_fault_injection_set_count(int_least64_t count);
int_least64_t rcutils_fault_injection_get_count(void);
}

namespace sim {

const char * const kFaultName[F_NUM] = {
  "alloc", "fi", "fmt", "clock", "getenv", "setenv", "setvbuf", "write", "stat", "mkdir", "opendir",
  "readdir", "closedir", "getcwd", "dlopen", "dlinfo", "dlsym", "dlclose", "localtime", "strftime",
  "user"};

uint64_t hash64(const void * p, size_t n, uint64_t h)
{
  const unsigned char * c = (const unsigned char *)p;
  for (size_t i = 0; i < n; ++i) {h ^= c[i]; h *= 0x100000001b3ull;}
  return h;
}

// ---------------------------------------------------------------- registry
static std::vector<const Workload *> & reg() {static std::vector<const Workload *> r; return r;}
void register_workload(const Workload * w) {reg().push_back(w);}
const Workload * find_workload(const std::string & prop)
{
  for (auto w : reg()) {if (prop == w->prop) {return w;}}
  return nullptr;
}

// ---------------------------------------------------------------- plan text
static std::string hex(const std::string & s)
{
  static const char * d = "0123456789abcdef";
  std::string o = "x";
  for (unsigned char c : s) {o += d[c >> 4]; o += d[c & 15];}
  return o;
}
static std::string unhex(const std::string & s)
{
  std::string o;
  auto v = [](char c) {return c <= '9' ? c - '0' : c - 'a' + 10;};
  for (size_t i = 1; i + 1 < s.size(); i += 2) {o += (char)(v(s[i]) * 16 + v(s[i + 1]));}
  return o;
}
static std::string printable(const std::string & s)
{
  std::string o;
  for (unsigned char c : s.substr(0, 60)) {
    if (c >= 32 && c < 127 && c != '\\') {o += (char)c;} else {char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b;}
  }
  if (s.size() > 60) {o += "...";}
  return o;
}
std::string plan_to_text(const Plan & p)
{
  const Workload * w = find_workload(p.prop);
  std::string o = "# deterministic simulation plan: replay with  sim replay <this file>\n";
  o += "prop " + p.prop + "\nseed " + std::to_string(p.seed) + "\n";
  for (auto & c : p.cfg) {o += "cfg " + c.first + " " + std::to_string(c.second) + "\n";}
  for (auto & op : p.ops) {
    std::string nm = w && op.code >= 0 && op.code < w->nops ? w->opnames[op.code] : "?";
    if (!op.s.empty()) {
      o += "#";
      for (auto & s : op.s) {o += " '" + printable(s) + "'";}
      o += "\n";
    }
    o += "op " + std::to_string(op.tid) + " " + std::to_string(op.code) + " " + nm + " a";
    for (auto v : op.a) {o += " " + std::to_string(v);}
    o += " s";
    for (auto & s : op.s) {o += " " + hex(s);}
    o += " f";
    for (auto & f : op.f) {
      o += std::string(" ") + kFaultName[f.kind] + ":" + std::to_string(f.nth) + ":" + std::to_string(f.len) +
        ":" + std::to_string(f.arg);
    }
    o += "\n";
  }
  for (auto & x : p.pre) {
    o += "pre " + std::to_string(x.cls) + " " + std::to_string(x.at) + " " + std::to_string(x.to) + "\n";
  }
  return o;
}
bool plan_from_text(const std::string & t, Plan & p)
{
  size_t i = 0;
  while (i < t.size()) {
    size_t e = t.find('\n', i);
    if (e == std::string::npos) {e = t.size();}
    std::string line = t.substr(i, e - i);
    i = e + 1;
    std::vector<std::string> w;
    size_t j = 0;
    while (j < line.size()) {
      size_t k = line.find(' ', j);
      if (k == std::string::npos) {k = line.size();}
      if (k > j) {w.push_back(line.substr(j, k - j));}
      j = k + 1;
    }
    if (w.empty() || w[0][0] == '#') {continue;}
    if (w[0] == "prop" && w.size() > 1) {p.prop = w[1];}
    else if (w[0] == "seed" && w.size() > 1) {p.seed = strtoull(w[1].c_str(), nullptr, 10);}
    else if (w[0] == "cfg" && w.size() > 2) {p.cfg[w[1]] = strtoll(w[2].c_str(), nullptr, 10);}
    else if (w[0] == "pre" && w.size() > 3) {
      p.pre.push_back({atoi(w[1].c_str()), strtoull(w[2].c_str(), nullptr, 10), atoi(w[3].c_str())});
    } else if (w[0] == "op" && w.size() > 3) {
      Op op;
      op.tid = atoi(w[1].c_str());
      op.code = atoi(w[2].c_str());
      int mode = 0;
      for (size_t k = 4; k < w.size(); ++k) {
        if (w[k] == "a") {mode = 1; continue;}
        if (w[k] == "s") {mode = 2; continue;}
        if (w[k] == "f") {mode = 3; continue;}
        if (mode == 1) {op.a.push_back(strtoll(w[k].c_str(), nullptr, 10));}
        if (mode == 2) {op.s.push_back(unhex(w[k]));}
        if (mode == 3) {
          Fault f;
          std::vector<std::string> q;
          size_t a = 0;
          while (a <= w[k].size()) {
            size_t b = w[k].find(':', a);
            if (b == std::string::npos) {b = w[k].size();}
            q.push_back(w[k].substr(a, b - a));
            a = b + 1;
          }
          if (q.size() < 4) {return false;}
          for (int z = 0; z < F_NUM; ++z) {if (q[0] == kFaultName[z]) {f.kind = z;}}
          f.nth = atoi(q[1].c_str());
          f.len = atoi(q[2].c_str());
          f.arg = strtoll(q[3].c_str(), nullptr, 10);
          op.f.push_back(f);
        }
      }
      p.ops.push_back(op);
    } else {return false;}
  }
  return !p.prop.empty();
}

// ---------------------------------------------------------------- per-thread state
struct SThread {
  int tid = 0;
  pthread_t th{};
  sem_t sem;
  bool finished = false;
  void * waiting = nullptr;     // mutex it waits for
  // current operation
  const Op * op = nullptr;
  int64_t calls[F_NUM] = {};
  int fires[F_NUM] = {};
  uint64_t steps0 = 0;
  int quiet = 0;
  bool fi_done = false;
  bool nofaults = false;
  const std::function<void(int)> * body = nullptr;
  // arguments of the operations: an argument of one operation is gone when the next one starts
  uint64_t ops_ended = 0;
  std::vector<std::pair<uint64_t, char *>> args;
  ~SThread() {for (auto & a : args) {free(a.second);}}
};
static thread_local SThread * t_self = nullptr;
struct Run {
  std::vector<std::unique_ptr<SThread>> th;
  int current = -1;
  bool multi = false;
  uint64_t ycount[Y_NUM] = {};
  std::vector<Preempt> pre[Y_NUM];
  size_t pidx[Y_NUM] = {};
  uint64_t since_switch = 0;
  uint64_t switches = 0;
  uint64_t seq = 0;
  uint64_t ops = 0;
  uint64_t fault_fired[F_NUM] = {};
  uint64_t hash = 0xcbf29ce484222325ull;
  sem_t done;
  std::map<void *, int> mutex_owner;
  std::set<std::string> probes;
};
static Run R;
RunStats g_stats;
std::function<void(void)> g_on_seam;
std::function<void(const char *)> g_on_getenv;
FILE * g_evlog = nullptr;
uint64_t g_steps = 0;

bool in_thread() {return t_self != nullptr;}
int my_tid() {return t_self ? t_self->tid : -1;}
uint64_t event_seq() {return ++R.seq;}
uint64_t switches() {return R.switches;}
uint64_t run_hash() {return R.hash;}

void ev(const char * fmt, ...)
{
  if (t_self && t_self->quiet) {return;}
  char b[600];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n < 0) {n = 0;}
  if (n >= (int)sizeof b) {n = sizeof b - 1;}
  R.hash = hash64(b, (size_t)n, R.hash ^ (uint64_t)(my_tid() + 7));
  if (g_evlog) {fprintf(g_evlog, "[%llu t%d] %s\n", (unsigned long long)R.seq, my_tid(), b);}
}

void probe(const char * name)
{
  if (R.probes.insert(name).second) {stat_probe(name);}
}

void known(const char * id, const char * fmt, ...)
{
  char b[400];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (!known_listed(id)) {violate(id, "%s", b);}
  stat_known(id, b);
}

void known_stop(const char * id, const char * fmt, ...)
{
  char b[400];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (!known_listed(id)) {violate(id, "%s", b);}
  stat_known(id, b);
  end_run_early(R.hash);
}

void violate(const char * cls, const char * fmt, ...)
{
  char b[4000];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (g_evlog) {fprintf(g_evlog, "VIOLATION %s: %s\n", cls, b); fflush(g_evlog);}
  record_violation(cls, b, R.hash);
  _exit(66);
}

// ---------------------------------------------------------------- faults
static int64_t fi_before = 0;
// memory the library was given to read: no code under test stores into it, not even for a moment
struct Sealed { const char * lo, * hi; };
static std::vector<Sealed> sealed;
void seal(const void * p, size_t n) {if (n) {sealed.push_back({(const char *)p, (const char *)p + n});}}
static void unseal(const void * p)
{
  for (size_t i = 0; i < sealed.size(); ) {
    if (sealed[i].lo == p) {sealed[i] = sealed.back(); sealed.pop_back();} else {++i;}
  }
}
void stored(const void * p, size_t n)
{
  if (sealed.empty() || !n || !t_self) {return;}
  const char * c = (const char *)p;
  for (auto & s : sealed) {
    if (c < s.hi && s.lo < c + n) {
      violate("writes-to-input", "%zu bytes were stored %zd bytes into an argument of %zu bytes that is only to be read", n, (ssize_t)(c - s.lo), (size_t)(s.hi - s.lo));
    }
  }
}
void op_step() {t_self->steps0 = g_steps;}
void begin_op(const Op & op, const char * name)
{
  SThread * t = t_self;
  size_t kept = 0;
  for (auto & a : t->args) {
    if (a.first < t->ops_ended) {unseal(a.second); free(a.second);} else {t->args[kept++] = a;}
  }
  t->args.resize(kept);
  t->op = &op;
  memset(t->calls, 0, sizeof t->calls);
  memset(t->fires, 0, sizeof t->fires);
  t->steps0 = g_steps;
  t->fi_done = false;
  R.ops++;
  ev("op %s a=%lld,%lld,%lld s=%llx", name, (long long)op.A(0), (long long)op.A(1), (long long)op.A(2),
    (unsigned long long)(op.s.empty() ? 0 : hash64(op.s[0].data(), op.s[0].size())));
  for (auto & f : op.f) {
    if (f.kind == F_FI) {
      fi_before = f.nth - 1;
      rcutils_fault_injection_set_count(f.nth - 1);
    }
  }
  yield(Y_CALL);
}
static void settle_fi()
{
  SThread * t = t_self;
  if (!t->op || t->fi_done) {return;}
  for (auto & f : t->op->f) {
    if (f.kind == F_FI) {
      int64_t now = rcutils_fault_injection_get_count();
      if (now < 0) {t->fires[F_FI] = 1;}
    }
  }
}
void fi_off()
{
  settle_fi();
  t_self->fi_done = true;
  rcutils_fault_injection_set_count(-1);
}
int end_op(const char * fmt, ...)
{
  SThread * t = t_self;
  for (auto & f : t->op->f) {
    if (f.kind == F_FI && !t->fi_done) {
      if (rcutils_fault_injection_get_count() < 0) {t->fires[F_FI] = 1;}
      rcutils_fault_injection_set_count(-1);
    }
  }
  int n = 0;
  for (int k = 0; k < F_NUM; ++k) {n += t->fires[k]; R.fault_fired[k] += (uint64_t)t->fires[k];}
  char b[300] = "";
  if (fmt) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
  }
  ev("end %s fired=%d", b, n);
  t->op = nullptr;
  t->ops_ended++;
  return n;
}
int fired()
{
  SThread * t = t_self;
  if (t->op) {settle_fi();}
  int n = 0;
  for (int k = 0; k < F_NUM; ++k) {n += t->fires[k];}
  return n;
}
int fired_kind(int kind) {if (kind == F_FI && t_self->op) {settle_fi();} return t_self->fires[kind];}
int64_t calls_in_op(int kind) {return t_self->calls[kind];}
bool g_no_memory = false;
bool should_fail(int kind, int64_t * arg)
{
  SThread * t = t_self;
  if (!t || !t->op || t->quiet || t->nofaults) {return false;}
  int64_t n = ++t->calls[kind];
  for (auto & f : t->op->f) {
    if (f.kind == kind && n >= f.nth && (f.len == 0 || n < f.nth + f.len)) {
      t->fires[kind]++;
      if (arg) {*arg = f.arg;}
      ev("fault %s #%lld", kFaultName[kind], (long long)n);
      return true;
    }
  }
  if (kind == F_ALLOC && g_no_memory) {
    t->fires[kind]++;
    ev("no memory #%lld", (long long)n);
    return true;
  }
  return false;
}
NoFaults::NoFaults() {old = t_self ? t_self->nofaults : false; if (t_self) {t_self->nofaults = true;}}
NoFaults::~NoFaults() {if (t_self) {t_self->nofaults = old;}}
Quiet::Quiet() {if (t_self) {t_self->quiet++;}}
Quiet::~Quiet() {if (t_self) {t_self->quiet--;}}

void gen_faults(Rng & r, Op & op, const std::vector<int> & kinds, unsigned num, unsigned den)
{
  if (kinds.empty() || !r.chance(num, den)) {return;}
  int n = r.chance(1, 6) ? 2 : 1;
  for (int i = 0; i < n; ++i) {
    Fault f;
    f.kind = r.pick(kinds);
    unsigned d = (unsigned)r.below(16);
    f.nth = d < 6 ? 1 : d < 10 ? 2 : d < 12 ? 3 : d < 13 ? 4 : (int)r.range(1, 24);
    unsigned l = (unsigned)r.below(10);
    f.len = l < 7 ? 1 : l < 8 ? 2 : 0;
    if (f.kind == F_FI) {f.len = 1; f.nth = d < 8 ? 1 + (int)r.below(3) : 1 + (int)r.below(12);}
    f.arg = (int64_t)r.below(4);
    op.f.push_back(f);
  }
}

// ---------------------------------------------------------------- scheduler
static bool runnable(SThread * t) {return !t->finished && (!t->waiting || !R.mutex_owner.count(t->waiting));}
static void switch_to(int to)
{
  SThread * self = t_self;
  if (to == self->tid) {return;}
  R.current = to;
  R.switches++;
  R.since_switch = 0;
  R.hash = hash64(&to, sizeof to, R.hash);
  if (g_evlog) {fprintf(g_evlog, "[%llu] switch t%d -> t%d\n", (unsigned long long)R.seq, self->tid, to);}
  sem_post(&R.th[(size_t)to]->sem);
  while (sem_wait(&self->sem) != 0) {}
}
static int next_runnable(int from)
{
  int n = (int)R.th.size();
  for (int i = 1; i <= n; ++i) {
    int k = (from + i) % n;
    if (runnable(R.th[(size_t)k].get())) {return k;}
  }
  return -1;
}
void yield(int cls)
{
  SThread * t = t_self;
  if (!t || !R.multi || t->quiet) {return;}
  uint64_t c = ++R.ycount[cls];
  auto & v = R.pre[cls];
  size_t & i = R.pidx[cls];
  while (i < v.size() && v[i].at < c) {++i;}
  if (i < v.size() && v[i].at == c) {
    int n = (int)R.th.size();
    int to = ((v[i].to % n) + n) % n;
    ++i;
    for (int k = 0; k < n; ++k) {
      int q = (to + k) % n;
      if (q != t->tid && runnable(R.th[(size_t)q].get())) {switch_to(q); return;}
    }
    return;
  }
  if (++R.since_switch > 300000) {
    R.since_switch = 0;
    int q = next_runnable(t->tid);
    if (q >= 0 && q != t->tid) {switch_to(q);}
  }
}
bool sched_mutex_trylock(void * m)
{
  yield(Y_CALL);
  if (R.mutex_owner.count(m)) {return false;}
  R.mutex_owner[m] = my_tid();
  return true;
}
bool sched_mutex_lock(void * m)
{
  yield(Y_CALL);
  SThread * t = t_self;
  while (R.mutex_owner.count(m)) {
    if (!t) {return true;}
    t->waiting = m;
    int q = next_runnable(t->tid);
    if (q < 0 || q == t->tid) {violate("deadlock", "every thread waits for a lock");}
    switch_to(q);
    t->waiting = nullptr;
  }
  R.mutex_owner[m] = my_tid();
  return true;
}
void sched_mutex_unlock(void * m) {R.mutex_owner.erase(m); yield(Y_CALL);}

static void * thread_main(void * p)
{
  SThread * t = (SThread *)p;
  while (sem_wait(&t->sem) != 0) {}
  t_self = t;
  (*t->body)(t->tid);
  t->finished = true;
  t_self = nullptr;
  int q = -1;
  for (auto & o : R.th) {if (runnable(o.get())) {q = o->tid; break;}}
  if (q < 0) {
    for (auto & o : R.th) {if (!o->finished) {violate("deadlock", "threads left waiting for a lock");}}
    sem_post(&R.done);
  } else {
    R.current = q;
    R.since_switch = 0;
    sem_post(&R.th[(size_t)q]->sem);
  }
  return nullptr;
}
void run_threads(const Plan & plan, int n, const std::function<void(int)> & body)
{
  R.th.clear();
  R.multi = n > 1;
  for (int c = 0; c < Y_NUM; ++c) {
    R.pre[c].clear();
    R.pidx[c] = 0;
    R.ycount[c] = 0;
    for (auto & x : plan.pre) {if (x.cls == c) {R.pre[c].push_back(x);}}
    std::stable_sort(R.pre[c].begin(), R.pre[c].end(),
      [](const Preempt & a, const Preempt & b) {return a.at < b.at;});
  }
  sem_init(&R.done, 0, 0);
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 1u << 20);
  for (int i = 0; i < n; ++i) {
    auto t = std::make_unique<SThread>();
    t->tid = i;
    t->body = &body;
    sem_init(&t->sem, 0, 0);
    R.th.push_back(std::move(t));
  }
  for (int i = 0; i < n; ++i) {
    if (pthread_create(&R.th[(size_t)i]->th, &at, thread_main, R.th[(size_t)i].get()) != 0) {
      fprintf(stderr, "sim: cannot create thread\n");
      _exit(70);
    }
  }
  pthread_attr_destroy(&at);
  int first = (int)(((plan.C("first") % n) + n) % n);
  R.current = first;
  sem_post(&R.th[(size_t)first]->sem);
  while (sem_wait(&R.done) != 0) {}
  for (auto & t : R.th) {pthread_join(t->th, nullptr); sem_destroy(&t->sem);}
  g_stats.yields += R.ycount[Y_CALL] + R.ycount[Y_MEM];
  R.th.clear();
  R.multi = false;
}
void gen_schedule(Rng & r, Plan & p, int nthreads, uint64_t mem_points)
{
  p.cfg["first"] = (int64_t)r.below((uint64_t)nthreads);
  if (nthreads < 2) {return;}
  // swarm: which kinds of switch points, how dense, and a cluster of them at any place of the run
  auto cluster = [&](int cls, std::vector<int> gaps, unsigned most, uint64_t horizon) {
      uint64_t gap = (uint64_t)r.pick(gaps);
      unsigned n = (unsigned)r.below(most);
      uint64_t at = r.chance(1, 3) ? 0 : r.below(horizon);
      for (unsigned i = 0; i < n; ++i) {
        at += 1 + r.below(2 * gap);
        if (at > 8 * horizon) {break;}
        p.pre.push_back({cls, at, (int)r.below((uint64_t)nthreads)});
      }
    };
  unsigned style = (unsigned)r.below(5);
  if (r.chance(1, 2)) {cluster(Y_GLOB, {1, 2, 4, 10}, 50, 60);}
  if (style != 0) {cluster(Y_CALL, {2, 3, 6, 12, 30}, 60, 100);}
  if (style != 1) {cluster(Y_MEM, {2, 5, 15, 40, 120, 400, 1500}, 80, mem_points);}
}

// ---------------------------------------------------------------- memory ledger
struct Block { int id; size_t size; uint64_t seq; int tid; };
static std::unordered_map<const void *, Block> L;
static std::unordered_map<const void *, Block> freed;
static uint64_t L_seq = 0;
static uint64_t L_calls[8];
bool g_zero_null = false;
bool g_realloc0_block = false;
struct AState { uint64_t magic; int id; };
static AState astate[8];
static std::map<int, std::vector<uint64_t>> taken;

static void fill(void * p, size_t n, uint64_t seq)
{
  memset(p, 0xA0 | (int)(seq & 0xF), n);
}
// what succeeds may leave anything in errno
void errno_noise()
{
  static const int noise[] = {ENOENT, EAGAIN, ENOMEM, EINVAL, EEXIST, ENOTTY, EINTR};
  if (in_thread()) {errno = noise[event_seq() % 7];}
}
void * ledger_alloc(int id, size_t size, bool zero)
{
  if (g_on_seam) {g_on_seam();}
  yield(Y_CALL);
  L_calls[id]++;
  if (should_fail(F_ALLOC)) {errno = ENOMEM; return nullptr;}
  if (size == 0 && g_zero_null) {ev("alloc %d 0 -> null", id); return nullptr;}
  if (size > (1ull << 30)) {ev("alloc %d huge", id); errno = ENOMEM; return nullptr;}
  void * p = malloc(size);
  uint64_t q = ++L_seq;
  if (zero) {memset(p, 0, size);} else {fill(p, size, q);}
  L[p] = Block{id, size, q, my_tid()};
  freed.erase(p);
  taken[id].push_back(q);
  ev("alloc %d %zu #%llu", id, size, (unsigned long long)q);
  errno_noise();
  return p;
}
void ledger_free(int id, void * p)
{
  if (g_on_seam) {g_on_seam();}
  yield(Y_CALL);
  if (!p) {return;}
  auto i = L.find(p);
  if (i == L.end()) {
    auto j = freed.find(p);
    if (j != freed.end()) {
      violate("double-free", "block #%llu of %zu bytes given back twice (allocator %d)",
        (unsigned long long)j->second.seq, j->second.size, id);
    }
    violate("bad-free", "pointer that was never handed out given back to allocator %d", id);
  }
  if (i->second.id != id) {
    violate("wrong-allocator", "block #%llu taken from allocator %d given back to allocator %d",
      (unsigned long long)i->second.seq, i->second.id, id);
  }
  ev("free %d #%llu", id, (unsigned long long)i->second.seq);
  freed[p] = i->second;
  L.erase(i);
  free(p);
}
void * ledger_realloc(int id, void * p, size_t size)
{
  if (!p) {return ledger_alloc(id, size, false);}
  if (g_on_seam) {g_on_seam();}
  yield(Y_CALL);
  L_calls[id]++;
  auto i = L.find(p);
  if (i == L.end()) {violate("bad-realloc", "reallocation of a block that is not outstanding (allocator %d)", id);}
  if (i->second.id != id) {
    violate("wrong-allocator", "block #%llu of allocator %d reallocated with allocator %d",
      (unsigned long long)i->second.seq, i->second.id, id);
  }
  if (size == 0 && !(g_realloc0_block && id != HEAP)) {  // as glibc: frees
    ev("realloc0 %d #%llu", id, (unsigned long long)i->second.seq);
    freed[p] = i->second;
    L.erase(i);
    free(p);
    return nullptr;
  }
  if (size != 0 && should_fail(F_ALLOC)) {errno = ENOMEM; return nullptr;}
  if (size > (1ull << 30)) {errno = ENOMEM; return nullptr;}
  void * n = malloc(size);
  uint64_t q = ++L_seq;
  fill(n, size, q);
  size_t c = std::min(size, i->second.size);
  memcpy(n, p, c);
  ev("realloc %d #%llu %zu->%zu", id, (unsigned long long)i->second.seq, i->second.size, size);
  freed[p] = i->second;
  L.erase(i);
  free(p);
  L[n] = Block{id, size, q, my_tid()};
  freed.erase(n);
  taken[id].push_back(q);
  errno_noise();
  return n;
}
size_t live_blocks(int id) {size_t n = 0; for (auto & b : L) {n += b.second.id == id;} return n;}
size_t live_bytes(int id) {size_t n = 0; for (auto & b : L) {n += b.second.id == id ? b.second.size : 0;} return n;}
uint64_t alloc_calls(int id) {return L_calls[id];}
bool is_live(const void * p, int * id, size_t * size)
{
  auto i = L.find(p);
  if (i == L.end()) {return false;}
  if (id) {*id = i->second.id;}
  if (size) {*size = i->second.size;}
  return true;
}
void check_no_leaks_id(int id, const char * where)
{
  uint64_t first = 0;
  size_t n = 0, sz = 0;
  for (auto & b : L) {
    if (b.second.id == id) {
      ++n;
      if (!first || b.second.seq < first) {first = b.second.seq; sz = b.second.size;}
    }
  }
  if (n) {
    violate("leak", "%s: %zu block(s) never given back to allocator %d; the first is #%llu of %zu bytes", where, n, id,
      (unsigned long long)first, sz);
  }
}
void check_no_leaks(const char * where) {for (int i = 0; i < 8; ++i) {check_no_leaks_id(i, where);}}
uint64_t alloc_mark() {return L_seq;}
uint64_t blocks_since(int id, uint64_t mark)
{
  auto & v = taken[id];
  return (uint64_t)(v.end() - std::upper_bound(v.begin(), v.end(), mark));
}

static int sid(void * state, const char * fn)
{
  for (int i = 1; i < 8; ++i) {if (state == &astate[i]) {return i;}}
  violate("wrong-state", "%s called with a state pointer that is not the allocator's", fn);
}
static void * a_alloc(size_t n, void * st) {return ledger_alloc(sid(st, "allocate"), n, false);}
static void a_free(void * p, void * st) {ledger_free(sid(st, "deallocate"), p);}
static void * a_realloc(void * p, size_t n, void * st) {return ledger_realloc(sid(st, "reallocate"), p, n);}
static void * a_zalloc(size_t c, size_t n, void * st)
{
  int id = sid(st, "zero_allocate");
  size_t t;
  if (__builtin_mul_overflow(c, n, &t)) {ev("zalloc overflow"); return nullptr;}
  return ledger_alloc(id, t, true);
}
rcutils_allocator_t allocator(int id)
{
  rcutils_allocator_t a;
  memset(&a, 0, sizeof a);
  a.allocate = a_alloc;
  a.deallocate = a_free;
  a.reallocate = a_realloc;
  a.zero_allocate = a_zalloc;
  a.state = &astate[id];
  return a;
}
static std::vector<char *> guards;
char * guarded(size_t n)
{
  char * p = (char *)malloc(n ? n : 1);
  if (t_self) {t_self->args.emplace_back(t_self->ops_ended, p);} else {guards.push_back(p);}
  return p;
}
char * guarded_keep(size_t n)
{
  char * p = (char *)malloc(n ? n : 1);
  guards.push_back(p);
  return p;
}
void guarded_free_all() {for (auto p : guards) {free(p);} guards.clear();}

// ---------------------------------------------------------------- world
void reset_world_seams();
void reset_world()
{
  for (auto & b : L) {free((void *)b.first);}
  L.clear();
  freed.clear();
  taken.clear();
  L_seq = 0;
  memset(L_calls, 0, sizeof L_calls);
  guarded_free_all();
  sealed.clear();
  for (int i = 0; i < 8; ++i) {astate[i] = AState{0x5151515151515151ull, i};}
  g_zero_null = false;
  g_no_memory = false;
  g_realloc0_block = false;
  g_on_seam = nullptr;
  g_on_getenv = nullptr;
  g_steps = 0;
  R.ops = 0;
  R.seq = 0;
  R.switches = 0;
  R.since_switch = 0;
  memset(R.fault_fired, 0, sizeof R.fault_fired);
  R.hash = 0xcbf29ce484222325ull;
  R.mutex_owner.clear();
  R.probes.clear();
  reset_world_seams();
}
void collect_run_stats(RunStats & s)
{
  s.ops += R.ops;
  s.switches += R.switches;
  uint64_t any = 0;
  for (int k = 0; k < F_NUM; ++k) {s.faults[k] += R.fault_fired[k]; any += R.fault_fired[k];}
  s.last_faults = any;
  s.last_switches = R.switches;
  s.last_ops = R.ops;
  s.simtime += (uint64_t)g_clock.covered;
}
extern "C" void sim_atomic_point(void) {yield(Y_MEM);}
void step_tick()
{
  ++g_steps;
  SThread * t = t_self;
  if (t && t->op && g_steps - t->steps0 > 40000000ull) {
    violate("hang", "operation does not finish: more than 40000000 basic blocks executed");
  }
}
}  // namespace sim
