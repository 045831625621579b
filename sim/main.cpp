// Driver: batches of runs over forked workers, replay, minimisation, determinism hashes.
#include "core.h"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <sstream>
#include <unordered_set>

#include "internal.h"

extern "C" {
extern char __start_repo_data[], __stop_repo_data[], __start_repo_bss[], __stop_repo_bss[];
void rcutils_fault_injection_set_count(int_least64_t count);
}

namespace sim {
constexpr int MAXW = 64;
constexpr uint64_t SIGCAP = 1u << 22;
constexpr int NPROBE = 128;
struct Viol { char cls[160]; char detail[4000]; uint64_t hash; int set; };
struct WorkerShm {
  volatile uint64_t cur;         // index of the run in progress
  volatile int64_t started_ms;
  volatile int active;
  Viol v;
};
struct Shm {
  volatile uint64_t next;        // next index to hand out
  volatile int stop;
  uint64_t runs, nontrivial, ops, switches, yields, simtime, runs_fault, runs_switch;
  uint64_t faults[F_NUM];
  uint64_t nsig_path, nsig_log;
  char probe[NPROBE][64];
  uint64_t probe_n[NPROBE];
  char known[32][64];
  char known_text[32][200];
  uint64_t known_n[32];
  int64_t slow_ms[MAXW];         // the slowest run of each worker
  uint64_t slow_idx[MAXW];
  WorkerShm w[MAXW];
  uint64_t sig_path[SIGCAP];
  uint64_t sig_log[SIGCAP];
};
static Shm * S = nullptr;
static int W = 0;                // this worker
static std::vector<std::string> known_ids;

static int64_t now_ms()
{
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec * 1000ll + t.tv_nsec / 1000000;
}
bool known_listed(const char * id)
{
  return std::find(known_ids.begin(), known_ids.end(), id) != known_ids.end();
}
void stat_probe(const char * n)
{
  for (int i = 0; i < NPROBE; ++i) {
    if (S->probe[i][0] == 0) {
      // benign race between workers: worst case a name takes two slots, merged on output
      snprintf(S->probe[i], 64, "%s", n);
    }
    if (strncmp(S->probe[i], n, 63) == 0) {__sync_fetch_and_add(&S->probe_n[i], 1); return;}
  }
}
void stat_known(const char * id, const char * text)
{
  for (int i = 0; i < 32; ++i) {
    if (S->known[i][0] == 0) {
      snprintf(S->known[i], 64, "%s", id);
      snprintf(S->known_text[i], 200, "%s", text);
    }
    if (strncmp(S->known[i], id, 63) == 0) {__sync_fetch_and_add(&S->known_n[i], 1); return;}
  }
}
void record_violation(const char * cls, const char * detail, uint64_t hash)
{
  Viol & v = S->w[W].v;
  snprintf(v.cls, sizeof v.cls, "%s", cls);
  snprintf(v.detail, sizeof v.detail, "%s", detail);
  v.hash = hash;
  v.set = 1;
}

// ---------------------------------------------------------------- coverage
static uint32_t n_guards = 0;
static std::vector<uint8_t> cnt;
static std::vector<uint32_t> touched;
static std::vector<uint8_t> ever;

// library globals as they were at start: every run begins from them
static std::string snap_data, snap_bss;
__attribute__((noinline)) static void raw_copy(volatile char * d, const volatile char * s, size_t n)
{
  for (size_t i = 0; i < n; ++i) {if (d[i] != s[i]) {d[i] = s[i];}}
}
static void snapshot()
{
  snap_data.resize((size_t)(__stop_repo_data - __start_repo_data));
  snap_bss.resize((size_t)(__stop_repo_bss - __start_repo_bss));
  raw_copy(&snap_data[0], __start_repo_data, snap_data.size());
  raw_copy(&snap_bss[0], __start_repo_bss, snap_bss.size());
}

bool sim::library_static(const void * p)
{
  const char * c = (const char *)p;
  return (c >= __start_repo_data && c < __stop_repo_data) || (c >= __start_repo_bss && c < __stop_repo_bss);
}
static void restore()
{
  raw_copy(__start_repo_data, snap_data.data(), snap_data.size());
  raw_copy(__start_repo_bss, snap_bss.data(), snap_bss.size());
}

// library globals back to their state at the start, in the middle of a run (the library must hold nothing then)
void sim::restore_globals() {restore(); rcutils_fault_injection_set_count(-1);}

static uint64_t run_seed(uint64_t base, const std::string & prop, uint64_t idx)
{
  Rng r(base ^ hash64(prop.data(), prop.size()));
  uint64_t a = r.next();
  Rng q(a + idx * 0x9E3779B97F4A7C15ull);
  return q.next() >> 1;
}
static Plan make_plan(const Workload * w, uint64_t seed, bool thorough)
{
  Plan p;
  p.prop = w->prop;
  p.seed = seed;
  Rng r(seed);
  w->gen(r, p, thorough);
  return p;
}
// What the minimiser may turn a plan into. Every such plan must be as valid as a generated one: "run --mutate 1" looks for
// plans that fail only after this.
static void mutate_plan(Plan & p)
{
  Rng r(p.seed ^ 0x6d757461746521ull);
  if (r.chance(1, 2)) {for (auto & c : p.cfg) {if (r.chance(1, 4)) {c.second = 0;}}}
  unsigned drop = (unsigned)r.below(4);
  std::vector<Op> v;
  for (auto & o : p.ops) {if (!r.chance(drop, 6)) {v.push_back(o);}}
  p.ops = v;
  for (auto & o : p.ops) {
    for (auto & a : o.a) {if (r.chance(1, 8)) {a = r.chance(1, 2) ? 0 : r.chance(1, 2) ? a / 2 : a > 0 ? a - 1 : a + 1;}}
    for (auto & s : o.s) {
      if (r.chance(1, 8) && !s.empty()) {
        size_t x = (size_t)r.below(s.size());
        s.erase(x, 1 + (size_t)r.below(s.size()));
      }
    }
    if (!o.f.empty() && r.chance(1, 4)) {o.f.pop_back();}
    for (auto & f : o.f) {
      if (r.chance(1, 6)) {f.len = 1;}
      if (r.chance(1, 6)) {f.arg = 0;}
      if (r.chance(1, 6)) {f.nth = 1;}
    }
  }
  if (r.chance(1, 2)) {
    std::vector<Preempt> w;
    for (auto & q : p.pre) {if (r.chance(1, 2)) {w.push_back(q);}}
    p.pre = w;
  }
}
static void exec_plan(const Workload * w, const Plan & p)
{
  for (auto i : touched) {cnt[i] = 0;}
  touched.clear();
  restore();
  reset_world();
  rcutils_fault_injection_set_count(-1);
  if (p.cfg.count("threads") && p.cfg.at("threads") < 1) {      // a minimised plan
    Plan q = p;
    q.cfg["threads"] = 1;
    w->exec(q);
    return;
  }
  w->exec(p);
}
static uint64_t path_sig()
{
  std::sort(touched.begin(), touched.end());
  uint64_t h = 0xcbf29ce484222325ull;
  for (auto i : touched) {
    uint8_t c = cnt[i];
    uint32_t b = c < 4 ? c : c < 8 ? 4 : c < 16 ? 5 : c < 64 ? 6 : 7;
    uint32_t x = i * 8 + b;
    h = hash64(&x, sizeof x, h);
  }
  return h;
}

static std::unordered_set<uint64_t> seen_path, seen_log;
static void account(bool ok)
{
  (void)ok;
  RunStats rs;
  collect_run_stats(rs);
  __sync_fetch_and_add(&S->runs, 1);
  __sync_fetch_and_add(&S->ops, rs.ops);
  __sync_fetch_and_add(&S->switches, rs.switches);
  __sync_fetch_and_add(&S->yields, g_stats.yields);
  g_stats.yields = 0;
  __sync_fetch_and_add(&S->simtime, rs.simtime);
  for (int k = 0; k < F_NUM; ++k) {if (rs.faults[k]) {__sync_fetch_and_add(&S->faults[k], rs.faults[k]);}}
  if (rs.last_faults) {__sync_fetch_and_add(&S->runs_fault, 1);}
  if (rs.last_switches) {__sync_fetch_and_add(&S->runs_switch, 1);}
  uint64_t ps = path_sig();
  if (seen_path.insert(ps).second) {
    uint64_t k = __sync_fetch_and_add(&S->nsig_path, 1);
    if (k < SIGCAP) {S->sig_path[k] = ps;}
  }
  if (rs.last_faults || rs.last_switches || rs.last_ops >= 3) {
    __sync_fetch_and_add(&S->nontrivial, 1);
    uint64_t h = run_hash();
    if (seen_log.insert(h).second) {
      uint64_t k = __sync_fetch_and_add(&S->nsig_log, 1);
      if (k < SIGCAP) {S->sig_log[k] = h;}
    }
  }
}

// a known finding after which the run cannot go on: it counts as run, and a new worker takes over
void end_run_early(uint64_t hash)
{
  account(true);
  S->w[W].v.hash = hash;
  _exit(65);
}

// ---------------------------------------------------------------- crash classification
static std::string slurp_fd(int fd)
{
  std::string o;
  char b[4096];
  lseek(fd, 0, SEEK_SET);
  ssize_t n;
  while ((n = read(fd, b, sizeof b)) > 0 && o.size() < 200000) {o.append(b, (size_t)n);}
  return o;
}
static std::string crash_class(int st, const std::string & err, std::string & detail)
{
  std::string kind, fn;
  size_t p = err.find("ERROR: AddressSanitizer: ");
  if (p != std::string::npos) {
    p += 25;
    size_t e = err.find_first_of(" \n", p);
    kind = "asan:" + err.substr(p, e - p);
    size_t q = p;
    for (int k = 0; k < 12; ++k) {
      q = err.find(" in ", q);
      if (q == std::string::npos) {break;}
      q += 4;
      size_t z = err.find_first_of(" (\n", q);
      std::string f = err.substr(q, z - q);
      size_t eol = err.find('\n', q);
      std::string ln = err.substr(q, eol - q);
      if (ln.find("/repo/") != std::string::npos || f.find("rcutils") != std::string::npos) {fn = f; break;}
    }
    size_t eol = err.find('\n', p);
    detail = err.substr(p, eol - p) + (fn.empty() ? "" : " in " + fn);
    // addresses differ between processes
    size_t x;
    while ((x = detail.find("0x")) != std::string::npos) {
      size_t y = x + 2;
      while (y < detail.size() && isxdigit((unsigned char)detail[y])) {++y;}
      detail.replace(x, y - x, "<addr>");
    }
    size_t b = detail.find("(pc ");
    if (b != std::string::npos) {detail.erase(b);}
  } else if ((p = err.find("runtime error: ")) != std::string::npos) {
    kind = "ubsan";
    size_t eol = err.find('\n', p);
    detail = err.substr(p, eol - p);
  } else if (WIFSIGNALED(st)) {
    kind = "signal:" + std::to_string(WTERMSIG(st));
    detail = err.substr(0, 300);
  } else {
    kind = "exit:" + std::to_string(WEXITSTATUS(st));
    detail = err.substr(0, 300);
  }
  return kind + (fn.empty() ? "" : ":" + fn);
}

// real time after which a run counts as hung; C24 has runs over half a gigabyte
// far above the slowest run (a few seconds on a loaded machine: texts of 66 000 tokens, 66 000 entries)
static int wall_limit(const Workload * w)
{
  const std::string p = w->prop;
  return p == "C24" ? 240000 : p == "C01" || p == "C02" || p == "C07" ? 120000 : 60000;
}

// Runs one plan in a forked child. Returns the class ("" = passed), fills detail and hash.
static std::string run_forked(const Workload * w, const Plan & p, std::string & detail, uint64_t & hash, const char * evlog,
  int timeout_ms = 0)
{
  if (!timeout_ms) {timeout_ms = wall_limit(w);}
  int fd = memfd_create("err", 0);
  S->w[0].v.set = 0;
  pid_t pid = fork();
  if (pid == 0) {
    dup2(fd, 2);
    dup2(fd, 1);
    if (evlog) {g_evlog = fopen(evlog, "w"); if (g_evlog) {setvbuf(g_evlog, nullptr, _IOLBF, 4096);}}
    W = 0;
    exec_plan(w, p);
    Viol & v = S->w[0].v;
    v.hash = run_hash();
    if (g_evlog) {fclose(g_evlog);}
    _exit(0);
  }
  int st = 0;
  int64_t t0 = now_ms();
  bool killed = false;
  int spins = 0;
  while (true) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) {break;}
    if (now_ms() - t0 > timeout_ms) {kill(pid, SIGKILL); waitpid(pid, &st, 0); killed = true; break;}
    usleep(spins++ < 200 ? 100 : 1000);
  }
  std::string err = slurp_fd(fd);
  close(fd);
  hash = S->w[0].v.hash;
  if (killed) {detail = "no end in real time"; hash = 0; return "hang:wall";}
  if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 65)) {return "";}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 66 && S->w[0].v.set) {detail = S->w[0].v.detail; return S->w[0].v.cls;}
  hash = 0;
  return crash_class(st, err, detail);
}

static std::string jesc(const std::string & s)
{
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {o += '\\'; o += (char)c;}
    else if (c == '\n') {o += "\\n";}
    else if (c < 32 || c > 126) {char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b;}
    else {o += (char)c;}
  }
  return o;
}

struct Found { uint64_t idx, seed; std::string cls, detail; };

static int cmd_run(std::map<std::string, std::string> & o)
{
  const Workload * w = find_workload(o["prop"]);
  if (!w) {fprintf(stderr, "no workload %s\n", o["prop"].c_str()); return 2;}
  uint64_t base = strtoull(o["seed"].c_str(), nullptr, 10);
  uint64_t maxruns = o.count("runs") ? strtoull(o["runs"].c_str(), nullptr, 10) : UINT64_MAX;
  uint64_t from = o.count("from") ? strtoull(o["from"].c_str(), nullptr, 10) : 0;
  double secs = o.count("secs") ? atof(o["secs"].c_str()) : 20;
  int jobs = o.count("jobs") ? atoi(o["jobs"].c_str()) : 8;
  bool thorough = o["tier"] == "thorough";
  size_t maxfound = o.count("maxfound") ? (size_t)atoi(o["maxfound"].c_str()) : 1;
  if (maxruns != UINT64_MAX) {maxruns += from;}
  S->next = from;
  int64_t t0 = now_ms();
  std::vector<Found> found;
  std::set<std::string> classes;
  struct WK { pid_t pid; int fd; };
  std::vector<WK> wk((size_t)jobs);
  auto spawn = [&](int i) {
      int fd = memfd_create("err", 0);
      S->w[i].active = 0;
      S->w[i].v.set = 0;
      pid_t pid = fork();
      if (pid == 0) {
        dup2(fd, 2);
        dup2(fd, 1);
        W = i;
        while (!S->stop) {
          uint64_t idx = __sync_fetch_and_add(&S->next, 1);
          if (idx >= maxruns) {break;}
          S->w[i].cur = idx;
          S->w[i].started_ms = now_ms();
          S->w[i].active = 1;
          Plan p = make_plan(w, run_seed(base, w->prop, idx), thorough);
          if (o.count("mutate")) {mutate_plan(p);}
          exec_plan(w, p);
          account(true);
          S->w[i].active = 0;
          int64_t took = now_ms() - S->w[i].started_ms;
          if (took > S->slow_ms[i]) {S->slow_ms[i] = took; S->slow_idx[i] = idx;}
        }
        _exit(0);
      }
      wk[(size_t)i] = WK{pid, fd};
    };
  for (int i = 0; i < jobs; ++i) {spawn(i);}
  int live = jobs;
  while (live > 0) {
    if ((double)(now_ms() - t0) / 1000.0 > secs) {S->stop = 1;}
    bool any = false;
    for (int i = 0; i < jobs; ++i) {
      if (wk[(size_t)i].pid <= 0) {continue;}
      int st;
      pid_t r = waitpid(wk[(size_t)i].pid, &st, WNOHANG);
      bool hung = false;
      if (r == 0) {
        if (S->w[i].active && now_ms() - S->w[i].started_ms > wall_limit(w)) {
          kill(wk[(size_t)i].pid, SIGKILL);
          waitpid(wk[(size_t)i].pid, &st, 0);
          hung = true;
        } else {continue;}
      }
      any = true;
      std::string err = slurp_fd(wk[(size_t)i].fd);
      close(wk[(size_t)i].fd);
      wk[(size_t)i].pid = 0;
      if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) {--live; continue;}
      if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 65) {if (S->stop) {--live;} else {spawn(i);} continue;}
      Found f;
      f.idx = S->w[i].cur;
      f.seed = run_seed(base, w->prop, f.idx);
      if (hung) {f.cls = "hang:wall"; f.detail = "no end in real time";}
      else if (WIFEXITED(st) && WEXITSTATUS(st) == 66 && S->w[i].v.set) {
        f.cls = S->w[i].v.cls;
        f.detail = S->w[i].v.detail;
      } else if (WIFEXITED(st) && WEXITSTATUS(st) == 70) {fprintf(stderr, "%s", err.c_str()); return 3;}
      else {f.cls = crash_class(st, err, f.detail);}
      if (classes.insert(f.cls).second) {found.push_back(f);}
      if (found.size() >= maxfound) {S->stop = 1;}
      if (S->stop) {--live;} else {spawn(i);}
    }
    if (!any) {usleep(2000);}
  }
  double wall = (double)(now_ms() - t0) / 1000.0;
  std::set<uint64_t> up(S->sig_path, S->sig_path + std::min(S->nsig_path, SIGCAP));
  std::set<uint64_t> ul(S->sig_log, S->sig_log + std::min(S->nsig_log, SIGCAP));
  std::string j = "{";
  auto num = [&](const char * k, uint64_t v) {j += std::string("\"") + k + "\": " + std::to_string(v) + ", ";};
  num("runs", S->runs);
  num("nontrivial", S->nontrivial);
  num("runs_with_fault", S->runs_fault);
  num("runs_with_switch", S->runs_switch);
  num("ops", S->ops);
  num("switches", S->switches);
  num("yields", S->yields);
  num("simtime_ns", S->simtime);
  num("distinct_paths", up.size());
  num("distinct_histories", ul.size());
  num("guards", n_guards);
  int sl = 0;
  for (int i = 0; i < jobs && i < MAXW; ++i) {if (S->slow_ms[i] > S->slow_ms[sl]) {sl = i;}}
  num("slowest_ms", (uint64_t)S->slow_ms[sl]);
  num("slowest_seed", run_seed(base, w->prop, S->slow_idx[sl]));
  j += "\"wall_s\": " + std::to_string(wall) + ", \"jobs\": " + std::to_string(jobs) + ", ";
  j += "\"faults\": {";
  for (int k = 0; k < F_NUM; ++k) {
    j += std::string(k ? ", " : "") + "\"" + kFaultName[k] + "\": " + std::to_string(S->faults[k]);
  }
  j += "}, \"probes\": {";
  std::map<std::string, uint64_t> pr;
  for (int i = 0; i < NPROBE && S->probe[i][0]; ++i) {pr[S->probe[i]] += S->probe_n[i];}
  bool first = true;
  for (auto & x : pr) {j += (first ? "" : ", ") + ("\"" + jesc(x.first) + "\": ") + std::to_string(x.second); first = false;}
  j += "}, \"known\": [";
  first = true;
  for (int i = 0; i < 32 && S->known[i][0]; ++i) {
    j += std::string(first ? "" : ", ") + "{\"id\": \"" + jesc(S->known[i]) + "\", \"text\": \"" + jesc(S->known_text[i]) +
      "\", \"n\": " + std::to_string(S->known_n[i]) + "}";
    first = false;
  }
  j += "], \"samples\": [";
  for (int i = 0; i < 2; ++i) {
    Plan p = make_plan(w, run_seed(base, w->prop, from + (uint64_t)i), thorough);
    std::string t = plan_to_text(p);
    if (t.size() > 1500) {t = t.substr(0, 1500) + "...";}
    j += std::string(i ? ", " : "") + "\"" + jesc(t) + "\"";
  }
  j += "], \"found\": [";
  first = true;
  for (auto & f : found) {
    j += std::string(first ? "" : ", ") + "{\"index\": " + std::to_string(f.idx) + ", \"seed\": " + std::to_string(f.seed) +
      ", \"class\": \"" + jesc(f.cls) + "\", \"detail\": \"" + jesc(f.detail) + "\"}";
    first = false;
  }
  j += "]}\n";
  std::ofstream(o["out"]) << j;
  return 0;
}

static bool load_plan(const std::string & f, Plan & p)
{
  std::ifstream in(f);
  std::stringstream ss;
  ss << in.rdbuf();
  return in && plan_from_text(ss.str(), p);
}

static int cmd_replay(const std::string & file, std::map<std::string, std::string> & o)
{
  Plan p;
  if (!load_plan(file, p)) {fprintf(stderr, "bad plan file\n"); return 2;}
  const Workload * w = find_workload(p.prop);
  if (!w) {return 2;}
  std::string d;
  uint64_t h = 0;
  std::string c = run_forked(w, p, d, h, o.count("log") ? o["log"].c_str() : nullptr);
  printf("RESULT hash=%016llx class=%s\n", (unsigned long long)h, c.empty() ? "-" : c.c_str());
  if (!c.empty()) {printf("DETAIL %s\n", d.c_str());}
  return 0;
}

static int cmd_min(const std::string & file, std::map<std::string, std::string> & o)
{
  Plan p;
  if (!load_plan(file, p)) {return 2;}
  const Workload * w = find_workload(p.prop);
  if (!w) {return 2;}
  double secs = o.count("secs") ? atof(o["secs"].c_str()) : 40;
  int64_t end = now_ms() + (int64_t)(secs * 1000);
  std::string d;
  uint64_t h;
  std::string cls = run_forked(w, p, d, h, nullptr);
  if (cls.empty()) {fprintf(stderr, "plan passes\n"); return 3;}
  int tries = 0;
  int tmo = cls == "hang:wall" ? 60000 : std::max(30000, wall_limit(w) / 4);
  auto same = [&](const Plan & q) {
      if (now_ms() > end) {return false;}
      ++tries;
      std::string d2;
      uint64_t h2;
      return run_forked(w, q, d2, h2, nullptr, tmo) == cls;
    };
  // generic list reduction
  auto ddmin = [&](auto get, auto set) {
      auto v = get(p);
      if (v.empty()) {return;}
      {Plan q = p; decltype(v) e; set(q, e); if (same(q)) {p = q; return;}}
      for (size_t chunk = std::max<size_t>(1, v.size() / 2); chunk >= 1; chunk /= 2) {
        for (size_t i = 0; i < v.size() && now_ms() < end; ) {
          decltype(v) c(v.begin(), v.begin() + (long)i);
          c.insert(c.end(), v.begin() + (long)std::min(v.size(), i + chunk), v.end());
          Plan q = p;
          set(q, c);
          if (same(q)) {p = q; v = c;} else {i += chunk;}
        }
        if (chunk == 1) {break;}
      }
    };
  for (int round = 0; round < 3 && now_ms() < end; ++round) {
    std::string before = plan_to_text(p);
    ddmin([](Plan & q) {return q.pre;}, [](Plan & q, std::vector<Preempt> & v) {q.pre = v;});
    ddmin([](Plan & q) {return q.ops;}, [](Plan & q, std::vector<Op> & v) {q.ops = v;});
    for (size_t i = 0; i < p.ops.size(); ++i) {
      while (!p.ops[i].f.empty()) {
        bool done = true;
        for (size_t k = 0; k < p.ops[i].f.size(); ++k) {
          Plan q = p;
          q.ops[i].f.erase(q.ops[i].f.begin() + (long)k);
          if (same(q)) {p = q; done = false; break;}
        }
        if (done) {break;}
      }
      for (size_t k = 0; k < p.ops[i].f.size(); ++k) {
        for (int step = 0; step < 3; ++step) {
          Plan q = p;
          Fault & f = q.ops[i].f[k];
          if (step == 0 && f.len != 1) {f.len = 1;}
          else if (step == 1 && f.arg != 0) {f.arg = 0;}
          else if (step == 2 && f.nth > 1) {f.nth = 1;}
          else {continue;}
          if (same(q)) {p = q;}
        }
      }
      for (size_t k = 0; k < p.ops[i].a.size(); ++k) {
        for (int z = 0; z < 12 && p.ops[i].a[k] != 0; ++z) {
          Plan q = p;
          int64_t v = p.ops[i].a[k];
          q.ops[i].a[k] = 0;
          if (same(q)) {p = q; break;}
          q.ops[i].a[k] = v / 2;
          if (same(q)) {p = q; continue;}
          q.ops[i].a[k] = v > 0 ? v - 1 : v + 1;
          if (same(q)) {p = q; continue;}
          break;
        }
      }
      for (size_t k = 0; k < p.ops[i].s.size(); ++k) {
        for (size_t chunk = std::max<size_t>(1, p.ops[i].s[k].size() / 2); ; chunk /= 2) {
          for (size_t x = 0; x < p.ops[i].s[k].size() && now_ms() < end; ) {
            Plan q = p;
            q.ops[i].s[k].erase(x, chunk);
            if (same(q)) {p = q;} else {x += chunk;}
          }
          if (chunk <= 1) {break;}
        }
      }
    }
    for (auto & c : std::map<std::string, int64_t>(p.cfg)) {
      if (c.second == 0) {continue;}
      Plan q = p;
      q.cfg[c.first] = 0;
      if (same(q)) {p = q;}
    }
    if (plan_to_text(p) == before) {break;}
  }
  std::string c2 = run_forked(w, p, d, h, nullptr);
  std::string t = plan_to_text(p);
  std::string dd = d;
  for (auto & ch : dd) {if (ch == '\n') {ch = ' ';}}
  t = "# violation class: " + c2 + "\n# " + dd + "\n# minimised with " + std::to_string(tries) + " re-executions\n" + t;
  std::ofstream(o["out"]) << t;
  printf("MIN class=%s tries=%d ops=%zu pre=%zu\n", c2.c_str(), tries, p.ops.size(), p.pre.size());
  return 0;
}

static int cmd_hashes(std::map<std::string, std::string> & o)
{
  const Workload * w = find_workload(o["prop"]);
  if (!w) {return 2;}
  uint64_t base = strtoull(o["seed"].c_str(), nullptr, 10);
  uint64_t from = strtoull(o["from"].c_str(), nullptr, 10), n = strtoull(o["runs"].c_str(), nullptr, 10);
  bool thorough = o["tier"] == "thorough";
  for (uint64_t i = from; i < from + n; ) {
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      W = 0;
      for (; i < from + n; ++i) {
        S->w[0].cur = i;
        Plan p = make_plan(w, run_seed(base, w->prop, i), thorough);
        exec_plan(w, p);
        printf("%llu %016llx\n", (unsigned long long)i, (unsigned long long)run_hash());
        fflush(stdout);
      }
      _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 65) {break;}
    i = S->w[0].cur;
    printf("%llu %016llx\n", (unsigned long long)i, (unsigned long long)S->w[0].v.hash);
    ++i;
  }
  return 0;
}
static int cmd_gen(std::map<std::string, std::string> & o)
{
  const Workload * w = find_workload(o["prop"]);
  if (!w) {return 2;}
  uint64_t seed;
  if (o.count("runseed")) {seed = strtoull(o["runseed"].c_str(), nullptr, 10);}
  else {
    seed = run_seed(strtoull(o["seed"].c_str(), nullptr, 10), w->prop, strtoull(o["index"].c_str(), nullptr, 10));
  }
  Plan p = make_plan(w, seed, o["tier"] == "thorough");
  if (o.count("mutate")) {mutate_plan(p);}
  std::ofstream(o["out"]) << plan_to_text(p);
  return 0;
}
}  // namespace sim

extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t * start, uint32_t * stop)
{
  if (start == stop || *start) {return;}
  for (uint32_t * x = start; x < stop; ++x) {*x = ++sim::n_guards;}
}
void __sanitizer_cov_trace_pc_guard(uint32_t * g)
{
  using namespace sim;
  if (!in_thread()) {return;}
  uint32_t i = *g;
  if (i >= cnt.size()) {cnt.resize(n_guards + 1);}
  if (cnt[i] == 0) {touched.push_back(i);}
  if (cnt[i] < 255) {++cnt[i];}
  step_tick();
  yield(Y_MEM);
}
#define COV(n) \
  void __sanitizer_cov_load ## n(void * p) {sim::yield(sim::Y_MEM); if (sim::library_static(p)) {sim::yield(sim::Y_GLOB);}} \
  void __sanitizer_cov_store ## n(void * p) {sim::stored(p, n); sim::yield(sim::Y_MEM); if (sim::library_static(p)) {sim::yield(sim::Y_GLOB);}}
COV(1) COV(2) COV(4) COV(8) COV(16)
const char * __asan_default_options()
{
  return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:"
         "max_malloc_fill_size=0:quarantine_size_mb=8:handle_abort=0:symbolize=1:malloc_context_size=6:detect_odr_violation=0";
}
}

int main(int argc, char ** argv)
{
  using namespace sim;
  std::map<std::string, std::string> o;
  std::vector<std::string> pos;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a.substr(0, 2) == "--" && i + 1 < argc) {o[a.substr(2)] = argv[++i];} else {pos.push_back(a);}
  }
  // same address layout in every process, where the sandbox allows it
  if (!getenv("SIM_REEXEC")) {
    int pe = personality(0xffffffff);
    if (pe != -1 && !(pe & ADDR_NO_RANDOMIZE) && personality((unsigned long)pe | ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  if (pos.empty()) {fprintf(stderr, "usage: sim run|replay|min|hashes|gen ...\n"); return 2;}
  S = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (S == MAP_FAILED) {perror("mmap"); return 2;}
  if (o.count("known")) {
    std::string k = o["known"];
    size_t i = 0;
    while (i < k.size()) {
      size_t e = k.find(',', i);
      if (e == std::string::npos) {e = k.size();}
      known_ids.push_back(k.substr(i, e - i));
      i = e + 1;
    }
  }
  cnt.resize(n_guards + 1);
  snapshot();
  if (pos[0] == "run") {return cmd_run(o);}
  if (pos[0] == "replay" && pos.size() > 1) {return cmd_replay(pos[1], o);}
  if (pos[0] == "min" && pos.size() > 1) {return cmd_min(pos[1], o);}
  if (pos[0] == "hashes") {return cmd_hashes(o);}
  if (pos[0] == "gen") {return cmd_gen(o);}
  return 2;
}
