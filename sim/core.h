// Deterministic simulator core: plans, seeded choices, faults, scheduler, ledgers, event log.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

extern "C" {
#include "rcutils/allocator.h"
}

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  template<class T> const T & pick(const std::vector<T> & v) { return v[below(v.size())]; }
};
uint64_t hash64(const void * p, size_t n, uint64_t h = 0xcbf29ce484222325ull);

// ---------------------------------------------------------------- faults
enum FaultKind {
  F_ALLOC, F_FI, F_FMT, F_CLOCK, F_GETENV, F_SETENV, F_SETVBUF, F_WRITE, F_STAT, F_MKDIR, F_OPENDIR,
  F_READDIR, F_CLOSEDIR, F_GETCWD, F_DLOPEN, F_DLINFO, F_DLSYM, F_DLCLOSE, F_LOCALTIME, F_STRFTIME,
  F_USER, F_NUM
};
extern const char * const kFaultName[F_NUM];

struct Fault {
  int kind = 0;
  int nth = 1;        // 1-based among the calls of that kind inside the operation
  int len = 1;        // how many consecutive ones fail; 0 = all the rest of the operation
  int64_t arg = 0;    // errno or kind-specific detail
};
struct Op {
  int tid = 0;
  int code = 0;
  std::vector<int64_t> a;
  std::vector<std::string> s;
  std::vector<Fault> f;
  int64_t A(size_t i) const { return i < a.size() ? a[i] : 0; }
  const std::string & S(size_t i) const { static const std::string e; return i < s.size() ? s[i] : e; }
};
struct Preempt { int cls; uint64_t at; int to; };
// a switch point: a call that leaves the library, any memory access or basic block, an access to the library's static data
enum { Y_CALL = 0, Y_MEM = 1, Y_GLOB = 2, Y_NUM = 3 };
bool library_static(const void * p);

struct Plan {
  std::string prop;
  uint64_t seed = 0;
  std::map<std::string, int64_t> cfg;
  std::vector<Op> ops;
  std::vector<Preempt> pre;
  int64_t C(const char * k, int64_t d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
};
std::string plan_to_text(const Plan &);
bool plan_from_text(const std::string &, Plan &);

struct Workload {
  const char * prop;
  const char * const * opnames;
  int nops;
  void (* gen)(Rng &, Plan &, bool thorough);
  void (* exec)(const Plan &);
};
const Workload * find_workload(const std::string & prop);
void register_workload(const Workload *);
struct Reg { explicit Reg(const Workload * w) { register_workload(w); } };

// ---------------------------------------------------------------- reporting
// Records the violation (class = stable name, detail = text) and ends the process.
[[noreturn]] void violate(const char * cls, const char * fmt, ...) __attribute__((format(printf, 2, 3)));
#define CHECK(cond, cls, ...) do { if (!(cond)) { ::sim::violate(cls, __VA_ARGS__); } } while (0)
void ev(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
void probe(const char * name);           // "this rare condition was reached"
void known(const char * id, const char * fmt, ...) __attribute__((format(printf, 2, 3)));
// the same where the run cannot go on afterwards: it ends here
[[noreturn]] void known_stop(const char * id, const char * fmt, ...) __attribute__((format(printf, 2, 3)));

// ---------------------------------------------------------------- run state
void begin_op(const Op & op, const char * name);   // on a simulated thread
void op_step();                                     // one of many calls within the operation: each has to end
int end_op(const char * fmt = nullptr, ...) __attribute__((format(printf, 1, 2)));  // -> faults fired in the operation
int fired();                              // faults fired so far in this thread's current operation
int fired_kind(int kind);
void fi_off();                            // no further failure from the library's own fault injection in this operation
int64_t calls_in_op(int kind);            // seam calls of that kind so far in this operation
bool should_fail(int kind, int64_t * arg = nullptr);  // used by the seams
struct NoFaults { NoFaults(); ~NoFaults(); bool old; };  // oracle code calling the API: nothing fails meanwhile
struct Quiet { Quiet(); ~Quiet(); };      // seam calls of oracle code are not events and not yield points
bool in_thread();
int my_tid();

// ---------------------------------------------------------------- scheduler
// Runs body(tid) on fresh threads 0..n-1 under the plan's schedule; returns when all finished.
void run_threads(const Plan & plan, int n, const std::function<void(int)> & body);
inline void run_single(const Plan & plan, const std::function<void()> & body) {
  run_threads(plan, 1, [&](int) { body(); });
}
void yield(int cls);
uint64_t event_seq();                     // global sequence number, stamps history events
uint64_t switches();
bool sched_mutex_lock(void * m);
void sched_mutex_unlock(void * m);
bool sched_mutex_trylock(void * m);
// generation helper: random preemptions for nthreads threads
void gen_schedule(Rng & r, Plan & p, int nthreads, uint64_t mem_points = 1000);
// generation helper: with some probability attach a fault of one of the kinds to the operation
void gen_faults(Rng & r, Op & op, const std::vector<int> & kinds, unsigned num, unsigned den);

// ---------------------------------------------------------------- memory ledger
constexpr int HEAP = 0;                   // default heap (malloc & co. of the library)
rcutils_allocator_t allocator(int id);    // id 1..7, each with its own state
void errno_noise();
void * ledger_alloc(int id, size_t size, bool zero);
void * ledger_realloc(int id, void * p, size_t size);
void ledger_free(int id, void * p);
size_t live_blocks(int id);               // blocks outstanding
size_t live_bytes(int id);
uint64_t alloc_calls(int id);
bool is_live(const void * p, int * id = nullptr, size_t * size = nullptr);
void check_no_leaks(const char * where);  // all ids
void check_no_leaks_id(int id, const char * where);
extern bool g_no_memory;                  // from now on every allocation of the library fails
extern bool g_zero_null;                  // malloc(0) gives NULL in this run
extern bool g_realloc0_block;             // reallocate(p, 0) of an allocator gives a (zero-sized) block instead of NULL
uint64_t alloc_mark();                    // sequence number of the next block
uint64_t blocks_since(int id, uint64_t mark);  // blocks ever taken from id with seq >= mark
// memory of the run that is not the library's (borrowed buffers); ASan-guarded
char * guarded(size_t n);            // an argument: on a simulated thread it is gone when the thread starts its next operation
char * guarded_keep(size_t n);       // lives until the run ends
void seal(const void * p, size_t n); // from now on the code under test only reads it (p comes from guarded or guarded_keep)
void stored(const void * p, size_t n);  // the code under test writes there
void guarded_free_all();

// ---------------------------------------------------------------- clocks
struct Clock {
  int64_t wall_s, wall_ns, mono_s, mono_ns;
  int64_t last_wall = 0, last_mono = 0;   // last values handed out, in ns
  int64_t got[2][16] = {};                // the same for each simulated thread: [0] monotonic, [1] wall
  uint64_t reads = 0, wall_reads = 0, mono_reads = 0;
  int64_t tick = 0;                       // both clocks advance by this per read
  int64_t covered = 0;                    // simulated time covered in this run (mono), ns
  void set(int64_t wall, int64_t mono);
  void advance(int64_t ns);               // both
  void jump_wall(int64_t ns);
  int64_t wall() const { return wall_s * 1000000000ll + wall_ns; }
  int64_t mono() const { return mono_s * 1000000000ll + mono_ns; }
};
extern Clock g_clock;
extern int64_t g_tz_offset;               // seconds east of UTC of the simulated zone

// ---------------------------------------------------------------- stdio
struct Stream {
  std::string data;                        // everything written
  struct Write { int tid; uint64_t seq; std::string text; };
  std::vector<Write> writes;               // one per stdio call
  int bufmode = -1;                        // last setvbuf mode, -1 untouched
  uint64_t flushes = 0;
  uint64_t errors = 0;
  bool err_sticky = false;
};
extern Stream g_out, g_err;
extern bool g_isatty[3];

// ---------------------------------------------------------------- environment
extern std::map<std::string, std::string> g_env;
extern std::string g_exe_path;
extern int64_t g_pid;                      // the process id
void set_exe(const std::string & path);

// ---------------------------------------------------------------- file system
struct Node {
  enum Type { DIR_, FILE_, FIFO_, LINK_ } type = FILE_;
  unsigned mode = 0644;
  int64_t size = 0;
  std::string target;
  std::map<std::string, int> kids;
  bool linked = true;
};
struct Disk {
  std::vector<Node> n;                     // 0 = root
  std::string cwd = "/";
  uint64_t order_seed = 0;                 // decides listing order
  bool live = false;                       // listings see what was added or removed after they were opened
  bool nodots = false;                     // listings leave out . and ..
  int open_dirs = 0;
  uint64_t opened = 0, closed = 0;
  uint64_t mutations = 0;                  // changes made by the library
  void reset();
  int resolve(const std::string & path, bool follow = true, int * err = nullptr) const;
  int mk(const std::string & path, Node::Type t, unsigned mode, int64_t size);
  bool rm(const std::string & path);       // unlinks (a directory with everything below)
  std::string dump() const;                // canonical text of the whole tree
};
extern Disk g_disk;
extern unsigned g_disk_uid_root;           // 1: permission bits do not restrict
extern bool g_dtype_unknown;               // readdir reports DT_UNKNOWN

// ---------------------------------------------------------------- dynamic loader
struct Lib { std::string name, path; std::map<std::string, void *> syms; int refs = 0; bool linkmap_empty = false, resident = false; };
struct Loader {
  std::vector<Lib> libs;
  uint64_t opens = 0, closes = 0, bad_close = 0;
  std::map<int, std::string> pending;         // per thread
  bool clears = false;                        // every call forgets the error before it, as in the GNU library
  void reset();
  int total_refs() const;
};
extern Loader g_dl;

void reset_world();                        // before each run: everything above back to initial

// hooks other simulator parts use
extern std::function<void(const char *)> g_on_getenv; // called when a simulated thread reads the environment (may be empty)
extern std::function<void(void)> g_on_seam; // called at every seam call of a simulated thread (may be empty)
}  // namespace sim
