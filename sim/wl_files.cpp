// C18: directory size.  C19: directory iteration.  C20: path queries and mkdir.
#include "wl.h"
#include <algorithm>
extern "C" {
#include "rcutils/filesystem.h"
}
using namespace sim;
namespace {
enum { MKDIR_, MKFILE, MKLINK, MKFIFO, CHMOD, RM, RESIZE, CHDIR, ORDER, MANY, DTYPE, SIZE, SIZE1, START, NEXT, END, QUERY, FSIZE, MKDIR, CWD, NULLS, NOPS };
const char * const names[] = {"w:mkdir", "w:mkfile", "w:mklink", "w:mkfifo", "w:chmod", "w:rm", "w:resize", "w:chdir", "w:order", "w:many", "w:dtype",
  "calculate_directory_size_with_recursion", "calculate_directory_size", "dir_iter_start", "dir_iter_next", "dir_iter_end", "query", "get_file_size",
  "mkdir", "get_cwd", "null_arguments"};
const int SLOTS = 3;
// ---------------------------------------------------------------- generation
struct Tree {
  std::vector<std::string> dirs{"/w"}, files, links;
  std::string any(Rng & r) const
  {
    std::vector<std::string> v = dirs;
    v.insert(v.end(), files.begin(), files.end());
    v.insert(v.end(), links.begin(), links.end());
    return r.pick(v);
  }
};
std::string gen_name(Rng & r)
{
  static const std::vector<std::string> pool{"a", "b", "c", "a.txt", ".hidden", "..x", "...", "..", ".", "sp ace", "%s%n", "d\xc3\xa9", "lib", "x\\y", "~", "*"};
  if (r.chance(1, 40)) {return std::string((size_t)r.range(200, 255), 'n');}
  std::string s = r.pick(pool);
  return s == "." || s == ".." ? s + std::to_string(r.below(3)) : s;
}
int64_t gen_size(Rng & r)
{
  return r.pick(std::vector<int64_t>{0, 1, 4096, 4097, 65535, (int64_t)r.below(100000), (int64_t)r.below(100000), 2147483647, 2147483648ll, 4294967295ll,
    4294967296ll, 5000000000ll, 1ll << 50});
}
// one change of the file system: code, path, argument (also used for changes in the middle of a call)
Op gen_world(Rng & r, Tree & t, bool links)
{
  switch (r.below(links ? 12 : 10)) {
    case 0: case 1: case 2: {
        std::string d = r.pick(t.dirs) + "/" + gen_name(r);
        if (r.chance(1, 60)) {for (int i = 0; i < 18; ++i) {d += "/" + std::string(230, (char)('a' + i));}}
        t.dirs.push_back(d);
        return mkop(0, MKDIR_, {}, {d});
      }
    case 3: case 4: case 5: case 6: {
        std::string f = r.pick(t.dirs) + "/" + gen_name(r);
        t.files.push_back(f);
        return mkop(0, MKFILE, {gen_size(r)}, {f});
      }
    case 7: return mkop(0, RESIZE, {gen_size(r)}, {t.any(r)});
    case 8: return r.chance(1, 2) ? mkop(0, RM, {}, {t.any(r)}) :
        mkop(0, CHMOD, {r.pick(std::vector<int64_t>{0755, 0700, 0500, 0300, 0400, 0200, 0100, 0, 0644, 0444, 0222, 0077})}, {t.any(r)});
    case 9: {
        std::string f = r.pick(t.dirs) + "/" + gen_name(r);
        t.files.push_back(f);
        return mkop(0, MKFIFO, {}, {f});
      }
    default: {
        std::string l = r.pick(t.dirs) + "/" + gen_name(r);
        t.links.push_back(l);
        static const std::vector<std::string> rel{".", "..", "../..", "missing", "a", "/", "/w", "loop"};
        return mkop(0, MKLINK, {}, {l, r.chance(1, 2) ? t.any(r) : r.pick(rel)});
      }
  }
}
std::string gen_path(Rng & r, const Tree & t)
{
  std::string p = r.chance(1, 8) ? r.pick(std::vector<std::string>{"/", "", ".", "w", "w/a", "missing", "/missing/x", "relative/x", "..", "/w/.", "/w/../w"}) : t.any(r);
  if (r.chance(1, 4)) {p += "/" + gen_name(r);}
  if (r.chance(1, 14)) {p += "/";}
  if (r.chance(1, 20)) {p += "/.";}
  if (r.chance(1, 60)) {while (p.size() < 4090) {p += "/.";} p.resize((size_t)r.range(4080, 4100), '/');}
  return p;
}
void mid_changes(Rng & r, Op & o, Tree & t, unsigned num, unsigned den, uint64_t within)
{
  while (r.chance(num, den) && o.s.size() < 8) {       // a change by another process: at seam call n, code, argument; path, target
    Op w = gen_world(r, t, true);
    o.a.push_back((int64_t)r.below(within) + 1);
    o.a.push_back(w.code);
    o.a.push_back(w.A(0));
    o.s.push_back(w.S(0));
    o.s.push_back(w.S(1));
  }
}
// what the call is about is removed, or replaced by something of another type, at one of its looks at it
void replaced(Rng & r, Op & o)
{
  int64_t call = (int64_t)r.below(3) + 1;
  auto add = [&](int code) {
      o.a.push_back(call);
      o.a.push_back(code);
      o.a.push_back(r.chance(1, 2) ? 77 : gen_size(r));
      o.s.push_back(o.s[0]);
      o.s.push_back("");
    };
  add(RM);
  if (r.chance(3, 4)) {add(r.pick(std::vector<int>{MKDIR_, MKDIR_, MKFILE, MKFIFO}));}
}
void gen(Rng & r, Plan & p, bool th, int what)
{
  p.cfg["root"] = r.chance(1, 4);
  p.cfg["order"] = r.chance(1, 5) ? 0 : (int64_t)r.below(1000000) + 1;
  p.cfg["dtype"] = r.chance(1, 4);
  p.cfg["prelude"] = 0;
  p.cfg["live"] = r.chance(1, 2);            // listings see changes made after they were opened
  p.cfg["nodots"] = r.chance(1, 8);          // file systems that do not list . and ..
  Tree t;
  size_t pre = r.below(r.chance(1, 5) ? (th ? 90 : 40) : 14);
  bool links = what == 20 || r.chance(1, 2);
  for (size_t i = 0; i < pre; ++i) {
    Op o = gen_world(r, t, links);
    if (o.code == RM && r.chance(2, 3)) {continue;}
    if (o.code == CHMOD && what == 18 && r.chance(1, 2)) {continue;}
    p.ops.push_back(o);
  }
  unsigned fn = (unsigned)r.pick(std::vector<int>{0, 0, 1, 2, 3}), mid = (unsigned)r.pick(std::vector<int>{0, 0, 1, 3});
  size_t n = what == 18 ? 1 + r.below(6) : 3 + r.below(th ? 60 : 30);
  const std::vector<int> faults{F_STAT, F_OPENDIR, F_READDIR, F_CLOSEDIR, F_ALLOC, F_FMT};
  for (size_t i = 0; i < n; ++i) {
    int64_t er = r.pick(std::vector<int64_t>{0, 0, 17, 2, 5, 12});
    if (r.chance(1, what == 20 ? 100000 : 400)) {
      int64_t k = r.chance(1, 2) ? (int64_t)r.below(500) : r.pick(std::vector<int64_t>{64, 128, 255, 256, 257, 300, 400});
      bool deep = r.chance(1, 3);
      const std::string base = r.pick(t.dirs);
      p.ops.push_back(mkop(0, MANY, {deep ? -1 - k : k}, {base, r.chance(1, 3) ? "" : "d"}));
      if (deep && what == 18 && r.chance(2, 3)) {      // limits next to the length of the chain and to where a byte ends
        Op o = mkop(0, SIZE, {er, (int64_t)r.range(1, 3), r.chance(1, 2) ? r.range(250, 262) : std::max<int64_t>(0, k + r.range(-60, 4))}, {r.chance(1, 2) ? base : "/w"});
        gen_faults(r, o, faults, fn / 2, 5);
        p.ops.push_back(o);
      }
    }
    if (r.chance(1, what == 18 ? 4 : 5)) {
      Op w = gen_world(r, t, links);
      if (r.chance(1, 10)) {w = mkop(0, CHDIR, {}, {r.pick(t.dirs)});}
      if (r.chance(1, 10)) {w = mkop(0, ORDER, {(int64_t)r.below(1000)});}
      p.ops.push_back(w);
      continue;
    }
    if (what == 18) {
      Op o = r.chance(1, 5) ? mkop(0, SIZE1, {er, (int64_t)r.range(1, 3), 1}) :
        mkop(0, SIZE, {er, (int64_t)r.range(1, 3), r.pick(std::vector<int64_t>{0, 0, 0, 1, 2, 3, 4, 7, 4294967296ll, -1})});
      o.s = {r.chance(1, 2) ? "/w" : r.chance(5, 6) ? r.pick(t.dirs) : gen_path(r, t)};
      gen_faults(r, o, faults, fn, 5);
      for (auto & f : o.f) {if (r.chance(1, 2)) {f.nth = (int)r.below(40) + 1;}}
      mid_changes(r, o, t, mid, 4, 60);
      p.ops.push_back(o);
    } else if (what == 19) {
      int64_t slot = (int64_t)r.below(SLOTS);
      switch (r.below(12)) {
        case 0: case 1: case 2: {
            Op o = mkop(0, START, {er, slot, (int64_t)r.range(1, 3)}, {r.chance(4, 5) ? r.pick(t.dirs) : gen_path(r, t)});
            gen_faults(r, o, {F_OPENDIR, F_READDIR, F_ALLOC, F_ALLOC, F_CLOSEDIR, F_FMT}, fn, 5);
            if (r.chance(mid, 12)) {             // it is removed at that moment
              o.a.push_back((int64_t)r.below(6) + 1);
              o.a.push_back(RM);
              o.a.push_back(0);
              o.s.push_back(o.s[0]);
              o.s.push_back("");
            }
            mid_changes(r, o, t, mid, 8, 6);
            p.ops.push_back(o);
            break;
          }
        case 3: {
            Op o = mkop(0, END, {er, slot});
            gen_faults(r, o, {F_CLOSEDIR}, fn, 5);
            p.ops.push_back(o);
            break;
          }
        case 4: p.ops.push_back(mkop(0, NULLS, {er, (int64_t)r.below(4)})); break;
        default: {
            Op o = mkop(0, NEXT, {er, slot, r.chance(1, 4) ? 40 : 1});
            gen_faults(r, o, {F_READDIR}, fn, 8);
            p.ops.push_back(o);
          }
      }
    } else {
      switch (r.below(9)) {
        case 0: case 1: case 2: {
            Op o = mkop(0, MKDIR, {er, 0, 0}, {gen_path(r, t)});
            if (r.chance(1, 3)) {o.s[0] = r.pick(t.dirs) + "/" + gen_name(r);}
            if (r.chance(1, 2)) {t.dirs.push_back(o.s[0]);}
            gen_faults(r, o, {F_MKDIR, F_STAT}, fn, 5);
            if (r.chance(mid, 6)) {            // somebody creates or removes the same path at the same moment
              o.a.push_back((int64_t)r.below(3) + 1);
              o.a.push_back(r.pick(std::vector<int64_t>{MKDIR_, MKFILE, RM, MKLINK}));
              o.a.push_back(3);
              o.s.push_back(o.s[0]);
              o.s.push_back("/w");
            }
            mid_changes(r, o, t, mid, 8, 3);
            p.ops.push_back(o);
            break;
          }
        case 3: {
            Op o = mkop(0, FSIZE, {er, 0, 0}, {gen_path(r, t)});
            gen_faults(r, o, {F_STAT}, fn, 5);
            if (r.chance(mid, 6)) {replaced(r, o);}
            mid_changes(r, o, t, mid, 6, 3);
            p.ops.push_back(o);
            break;
          }
        case 4: {
            Op o = mkop(0, CWD, {er, r.chance(1, 2) ? (int64_t)r.below(30) : 4096});
            gen_faults(r, o, {F_GETCWD}, fn, 5);
            p.ops.push_back(o);
            break;
          }
        case 5:
          if (r.chance(1, 3)) {p.ops.push_back(mkop(0, NULLS, {er, 4 + (int64_t)r.below(12)})); break;}
          // fall through
        default: {
            Op o = mkop(0, QUERY, {er, (int64_t)r.below(6), 0}, {gen_path(r, t)});
            gen_faults(r, o, {F_STAT}, fn, 5);
            if (r.chance(mid, 12)) {replaced(r, o);}
            mid_changes(r, o, t, mid, 6, 3);
            p.ops.push_back(o);
          }
      }
    }
  }
}
void gen18(Rng & r, Plan & p, bool th) {gen(r, p, th, 18);}
void gen19(Rng & r, Plan & p, bool th) {gen(r, p, th, 19);}
void gen20(Rng & r, Plan & p, bool th) {gen(r, p, th, 20);}
// ---------------------------------------------------------------- the world
void world(int code, const std::string & path, int64_t arg, const std::string & target)
{
  switch (code) {
    case MKDIR_: {
        std::string q = path;
        size_t k = 1;
        while ((k = q.find('/', k)) != std::string::npos) {g_disk.mk(q.substr(0, k), Node::DIR_, 0755, 0); ++k;}
        g_disk.mk(q, Node::DIR_, 0755, 0);
        break;
      }
    case MKFILE: g_disk.mk(path, Node::FILE_, 0644, arg); break;
    case MKFIFO: g_disk.mk(path, Node::FIFO_, 0644, 0); break;
    case MKLINK: {int i = g_disk.mk(path, Node::LINK_, 0777, 0); if (i > 0) {g_disk.n[(size_t)i].target = target;} break;}
    case CHMOD: {int i = g_disk.resolve(path, false); if (i >= 0 && g_disk.n[(size_t)i].type != Node::LINK_) {g_disk.n[(size_t)i].mode = (unsigned)arg & 0777;} break;}
    case RM: if (path.size() > 1 && path.find_first_not_of("/.") != std::string::npos) {g_disk.rm(path);} break;
    case RESIZE: {int i = g_disk.resolve(path, false); if (i >= 0 && g_disk.n[(size_t)i].type == Node::FILE_) {g_disk.n[(size_t)i].size = arg;} break;}
    case CHDIR: {int i = g_disk.resolve(path, true); if (i >= 0 && g_disk.n[(size_t)i].type == Node::DIR_) {g_disk.cwd = path;} break;}
    case MANY: {                              // a wide (positive) or a deep (negative) tree
        std::string q = path;
        int64_t n = std::min<int64_t>(arg < 0 ? -(arg + 1) : arg, 500);
        if (q.empty() || n > 500) {break;}
        for (int64_t i = 0; i < n; ++i) {
          if (arg < 0) {
            q += i % 7 ? "/d" : "/dd";
            if (q.size() > 1500) {break;}
            g_disk.mk(q, Node::DIR_, 0755, 0);
            if (i % 3 == 0) {g_disk.mk(q + "/f", Node::FILE_, 0644, i + 1);}
          } else if (target.empty()) {g_disk.mk(q + "/f" + std::to_string(i), Node::FILE_, 0644, i + 1);
          } else {
            g_disk.mk(q + "/d" + std::to_string(i), Node::DIR_, 0755, 0);
            g_disk.mk(q + "/d" + std::to_string(i) + "/f", Node::FILE_, 0644, i + 1);
          }
        }
        break;
      }
    case ORDER: g_disk.order_seed = (uint64_t)arg; break;
    case DTYPE: g_dtype_unknown = arg & 1; break;
    default: break;
  }
}
// changes in the middle of operation o; `after` runs after each
struct Mid {
  int64_t calls = 0;
  int done = 0;
  Mid(const Op & o, size_t from, std::function<void()> after)
  {
    size_t n = o.a.size() > from ? (o.a.size() - from) / 3 : 0;
    if (!n) {return;}
    g_on_seam = [this, &o, from, n, after] {
        ++calls;
        for (size_t i = 0; i < n; ++i) {
          if (o.A(from + 3 * i) == calls) {
            world((int)o.A(from + 3 * i + 1), o.S(1 + 2 * i), o.A(from + 3 * i + 2), o.S(2 + 2 * i));
            ev("meanwhile %s %s", names[umod(o.A(from + 3 * i + 1), NOPS)], o.S(1 + 2 * i).c_str());
            ++done;
            probe("changed-meanwhile");
            if (after) {after();}
          }
        }
      };
  }
  ~Mid() {g_on_seam = nullptr;}
};
// ---------------------------------------------------------------- reference
// regular files in scope by node; hard: even a walk that never joins names to a long path meets the error
struct Ref { bool err = false, hard = false; std::map<int, int64_t> files; std::map<std::string, int> dirs; };
void walk(const std::string & path, int i, size_t depth, size_t max, Ref & r)
{
  const auto kids = g_disk.n[(size_t)i].kids;
  r.dirs[path] = i;
  if (!g_disk_uid_root && !(g_disk.n[(size_t)i].mode & 0400)) {r.err = r.hard = true;}
  for (auto & k : kids) {
    std::string q = path + "/" + k.first;
    int e = 0;
    if (g_disk.resolve(q, false, &e) < 0) {r.err = true; r.hard = r.hard || e != ENAMETOOLONG;}
    const Node & n = g_disk.n[(size_t)k.second];
    if (n.type == Node::FILE_) {r.files[k.second] = n.size;
    } else if (n.type == Node::DIR_ && (max == 0 || depth + 1 <= max)) {walk(q, k.second, depth + 1, max, r);}
  }
}
void walk(const std::string & path, size_t max, Ref & r)
{
  int i = g_disk.resolve(path, true);
  if (i < 0 || g_disk.n[(size_t)i].type != Node::DIR_) {r.err = r.hard = true; return;}
  walk(path, i, 1, max, r);
}
uint64_t total(const Ref & r) {uint64_t s = 0; for (auto & f : r.files) {s += (uint64_t)f.second;} return s;}
// answers of the six queries
bool truth(int q, const std::string & path)
{
  int i = g_disk.resolve(path, true);
  if (i < 0) {return false;}
  const Node & n = g_disk.n[(size_t)i];
  switch (q) {
    case 0: return true;
    case 1: return n.type == Node::FILE_;
    case 2: return n.type == Node::DIR_;
    case 3: return n.mode & 0400;
    case 4: return n.mode & 0200;
    default: return (n.mode & 0600) == 0600;
  }
}
bool ask(int q, const char * p)
{
  switch (q) {
    case 0: return rcutils_exists(p);
    case 1: return rcutils_is_file(p);
    case 2: return rcutils_is_directory(p);
    case 3: return rcutils_is_readable(p);
    case 4: return rcutils_is_writable(p);
    default: return rcutils_is_readable_and_writable(p);
  }
}
struct Slot {
  rcutils_dir_iter_t * it = nullptr;
  int id = 1, node = 0;
  bool done = false, failed = false;
  std::string cur;
  std::multiset<std::string> seen;
  std::set<std::string> always;     // present since the start
};
void exec(const Plan & p)
{
  run_single(p, [&] {
    g_disk_uid_root = (unsigned)p.C("root");
    g_disk.order_seed = (uint64_t)p.C("order");
    g_dtype_unknown = p.C("dtype");
    g_disk.live = p.C("live");
    g_disk.nodots = p.C("nodots");
    g_disk.mk("/w", Node::DIR_, 0755, 0);
    std::vector<Slot> sl(SLOTS);
    // which names each open iterator must still be able to yield
    auto prune = [&] {
        for (auto & s : sl) {
          if (!s.it) {continue;}
          const auto & kids = g_disk.n[(size_t)s.node].kids;
          for (auto i = s.always.begin(); i != s.always.end(); ) {if (kids.count(*i)) {++i;} else {i = s.always.erase(i);}}
        }
      };
    auto took = [&](Slot & s) {         // the iterator shows an entry
        CHECK(s.it->entry_name != nullptr, "no-name", "the iterator reports an entry without a name");
        s.cur = s.it->entry_name;
        CHECK(s.seen.count(s.cur) == 0, "twice", "entry '%s' was listed twice", s.cur.c_str());
        s.seen.insert(s.cur);
      };
    auto ended = [&](Slot & s) {
        s.done = true;
        if (s.failed) {return;}
        for (auto & n : s.always) {CHECK(s.seen.count(n), "missed", "entry '%s' was there throughout but was not listed", n.c_str());}
      };
    int expect_open = 0;
    for (auto & o : p.ops) {
      if (o.code <= DTYPE) {
        std::string before = g_disk.dump();
        world(o.code, o.S(0), o.A(0), o.S(1));
        prune();
        continue;
      }
      begin_op(o, names[o.code]);
      std::string before = g_disk.dump();
      uint64_t mut0 = g_disk.mutations;
      int id = (int)o.A(1);
      errno = (int)o.A(0);
      switch (o.code) {
        case SIZE: case SIZE1: {
            size_t max = o.code == SIZE1 ? 1 : (size_t)o.A(2);
            if (id < 1 || id > 3) {id = 1;}
            std::vector<Ref> refs;
            auto snap = [&] {Ref r; walk(o.S(0), max, r); refs.push_back(r);};
            snap();
            const char * path = guarded_str(o.S(0));
            uint64_t size = 0xdeadbeef;
            rcutils_ret_t ret;
            {
              Mid mid(o, 3, snap);
              ret = o.code == SIZE1 ? rcutils_calculate_directory_size(path, &size, allocator(id)) :
                rcutils_calculate_directory_size_with_recursion(path, max, &size, allocator(id));
            }
            int f = fired(), fs = fired_kind(F_STAT);
            end_op("%d %llu", ret, (unsigned long long)size);
            rcutils_reset_error();
            bool missing = false;             // a file reported as missing may be left out
            for (auto & x : o.f) {if (x.kind == F_STAT && (x.arg & 3) == 3) {missing = true;}}
            missing = missing && fs;
            CHECK(g_disk.open_dirs == expect_open, "handle-leak", "%d directory handles were left open", g_disk.open_dirs - expect_open);
            CHECK(live_blocks(id) == 0, "leak", "%zu blocks were not released", live_blocks(id));
            if (refs.size() == 1) {
              bool err = refs[0].err;
              uint64_t want = total(refs[0]);
              if (ret == RCUTILS_RET_OK) {
                CHECK(!refs[0].hard || missing, "unreported", "part of '%s' cannot be examined but the call succeeded with %llu", o.S(0).c_str(), (unsigned long long)size);
                CHECK(size == want || (missing && size <= want), f ? "partial" : "wrong-size", "'%s' down to %zu: %llu bytes, but the call said %llu", o.S(0).c_str(), max,
                  (unsigned long long)want, (unsigned long long)size);
                if (want) {probe("size-ok");}
              } else {
                CHECK(err || f, "spurious-error", "'%s': %d although nothing failed", o.S(0).c_str(), ret);
                CHECK(f == 0 || err || fired_kind(F_ALLOC) == 0 || ret == RCUTILS_RET_BAD_ALLOC || ret == RCUTILS_RET_ERROR, "code", "%d", ret);
                probe(f ? "size-fault-reported" : "size-error-reported");
              }
            } else if (ret == RCUTILS_RET_OK) {
              uint64_t lo = 0, hi = 0;
              std::map<int, int64_t> most;
              for (auto & r : refs) {for (auto & k : r.files) {int64_t & m = most[k.first]; m = std::max(m, k.second);}}
              for (auto & k : most) {
                hi += (uint64_t)k.second;
                bool same = true;
                for (auto & r : refs) {auto i = r.files.find(k.first); same = same && i != r.files.end() && i->second == k.second;}
                if (same) {lo += (uint64_t)k.second;}
              }
              CHECK(size <= hi && (size >= lo || missing), "wrong-size", "'%s': between %llu and %llu bytes at any time, but the call said %llu", o.S(0).c_str(),
                (unsigned long long)lo, (unsigned long long)hi, (unsigned long long)size);
              probe("size-during-change");
            } else if (!f) {
              bool files_only = true;
              for (auto & r : refs) {files_only = files_only && !r.err && r.dirs == refs[0].dirs;}
              CHECK(!files_only, "spurious-error", "'%s': %d although only files have come, gone or changed meanwhile", o.S(0).c_str(), ret);
              probe("size-error-during-change");
            }
            break;
          }
        case START: {
            Slot & s = sl[umod(o.A(1), SLOTS)];
            if (s.it) {end_op(); break;}
            s = Slot();
            s.id = 1 + (int)umod(o.A(2) - 1, 3);
            s.node = g_disk.resolve(o.S(0), true);
            bool ok = s.node >= 0 && g_disk.n[(size_t)s.node].type == Node::DIR_ && (g_disk_uid_root || (g_disk.n[(size_t)s.node].mode & 0400));
            if (ok) {for (auto & k : g_disk.n[(size_t)s.node].kids) {s.always.insert(k.first);} if (!g_disk.nodots) {s.always.insert("."); s.always.insert("..");}}
            size_t l0 = live_blocks(s.id);
            std::vector<std::string> gone;
            int node = s.node, done;
            {
              Mid mid(o, 3, [&] {
                  prune();
                  if (node < 0) {return;}
                  for (auto i = s.always.begin(); i != s.always.end(); ) {
                    if (g_disk.n[(size_t)node].linked && (*i == "." || *i == ".." || g_disk.n[(size_t)node].kids.count(*i))) {++i;} else {i = s.always.erase(i);}
                  }
                });
              s.it = rcutils_dir_iter_start(guarded_str(o.S(0)), allocator(s.id));
              done = mid.done;
            }
            int f = fired();
            end_op("%d", s.it != nullptr);
            rcutils_reset_error();
            if (!s.it) {
              CHECK(!ok || f || done, "spurious-error", "'%s' can be listed but the iteration did not start", o.S(0).c_str());
              CHECK(live_blocks(s.id) == l0, "leak", "%zu blocks were kept by an iteration that did not start", live_blocks(s.id) - l0);
              CHECK(g_disk.open_dirs == expect_open, "handle-leak", "an iteration that did not start left a handle open");
              probe(f ? "start-fault" : "start-error");
              break;
            }
            CHECK(ok || done, "unreported", "'%s' cannot be listed but an iteration was started", o.S(0).c_str());
            CHECK(fired_kind(F_READDIR) == 0 && fired_kind(F_OPENDIR) == 0 && fired_kind(F_ALLOC) == 0, "unreported", "the start failed inside but gave an iterator");
            ++expect_open;
            if (done) {
              int now = g_disk.resolve(o.S(0), true);
              if (now != s.node) {s.always.clear(); s.failed = true; s.node = now < 0 ? 0 : now;}       // which directory was opened is not known
            }
            if (s.it->entry_name) {took(s);} else {
              CHECK(s.always.empty() || s.failed, "missed", "an iteration over '%s' starts without an entry", o.S(0).c_str());
              probe("empty-start");
            }
            prune();
            s.always.insert(s.seen.begin(), s.seen.end());
            break;
          }
        case NEXT: {
            Slot & s = sl[umod(o.A(1), SLOTS)];
            if (!s.it) {end_op(); break;}
            int64_t n = o.A(2);
            for (int64_t i = 0; i < n && n < 100; ++i) {
              if (!s.cur.empty()) {
                CHECK(s.it->entry_name != nullptr && s.cur == s.it->entry_name, "name-changed", "the current entry was '%s' but now reads '%s'", s.cur.c_str(),
                  s.it->entry_name ? s.it->entry_name : "(null)");
              }
              int f0 = fired_kind(F_READDIR);
              bool more = rcutils_dir_iter_next(s.it);
              int f = fired_kind(F_READDIR) - f0;
              ev("next %d", more);
              if (more) {
                CHECK(!f, "unreported", "listing failed but another entry was reported");
                CHECK(!s.done, "after-end", "an entry was reported after the last");
                took(s);
              } else {
                s.cur.clear();
                if (f) {s.failed = true; s.done = false; probe("listing-failed"); break;}
                CHECK(!rcutils_error_is_set(), "spurious-error", "the end of a listing reads '%.100s'", rcutils_get_error_string().str);
                if (!s.done) {ended(s);}
                if (s.done && n > 3) {break;}
              }
            }
            end_op();
            rcutils_reset_error();
            break;
          }
        case END: {
            Slot & s = sl[umod(o.A(1), SLOTS)];
            if (!s.it) {end_op(); break;}
            if (!s.cur.empty()) {CHECK(s.it->entry_name && s.cur == s.it->entry_name, "name-changed", "the current entry is no longer '%s'", s.cur.c_str());}
            probe(s.done ? "ended-after-last" : "ended-half-way");
            rcutils_dir_iter_end(s.it);
            end_op();
            rcutils_reset_error();
            s.it = nullptr;
            --expect_open;
            size_t open = 0;
            for (auto & x : sl) {if (x.it && x.id == s.id) {++open;}}
            CHECK(g_disk.open_dirs == expect_open, "handle-leak", "%d handles open, %d iterations under way", g_disk.open_dirs, expect_open);
            if (!open) {CHECK(live_blocks(s.id) == 0, "leak", "%zu blocks left after ending the iteration", live_blocks(s.id));}
            break;
          }
        case QUERY: case FSIZE: {
            int q = (int)umod(o.A(1), 6);
            std::vector<uint64_t> may;
            auto snap = [&] {
                int i = g_disk.resolve(o.S(0), true);
                may.push_back(o.code == QUERY ? truth(q, o.S(0)) : i >= 0 && g_disk.n[(size_t)i].type == Node::FILE_ ? (uint64_t)g_disk.n[(size_t)i].size : 0);
              };
            snap();
            const char * path = guarded_str(o.S(0));
            uint64_t got;
            {
              Mid mid(o, 3, snap);
              got = o.code == QUERY ? ask(q, path) : rcutils_get_file_size(path);
            }
            int f = fired();
            end_op("%llu", (unsigned long long)got);
            if (f || (o.code == FSIZE && may.size() > 1)) {may.push_back(0);}
            CHECK(std::find(may.begin(), may.end(), got) != may.end(), f ? "untrue-after-failure" : "untrue", "%s %d of '%s' gave %llu, not %llu", names[o.code], q,
              o.S(0).c_str(), (unsigned long long)got, (unsigned long long)may[0]);
            if (f) {
              bool all = true;
              for (auto & x : o.f) {all = all && x.kind == F_STAT && x.nth == 1;}
              CHECK(!all || got == 0, "untrue-after-failure", "%s %d of '%s' could not be examined but gave %llu", names[o.code], q, o.S(0).c_str(), (unsigned long long)got);
              probe("query-failed");
            }
            if (got) {probe("query-true");}
            CHECK(g_disk.mutations == mut0 && (may.size() > 1 || g_disk.dump() == before), "modified", "a query changed the file system");
            break;
          }
        case MKDIR: {
            bool wasdir = truth(2, o.S(0)), ever = wasdir, always = wasdir;
            const char * path = guarded_str(o.S(0));
            // what the file system would answer to a creation
            std::string s = o.S(0);
            while (s.size() > 1 && s.back() == '/') {s.pop_back();}
            auto creatable = [&] {
                if (s.size() < 2 || s[0] != '/' || o.S(0).size() >= 4096 || g_disk.resolve(o.S(0), false) >= 0 || g_disk.resolve(s, false) >= 0) {return false;}
                size_t k = s.rfind('/');
                int d = g_disk.resolve(k ? s.substr(0, k) : "/");
                return d >= 0 && g_disk.n[(size_t)d].type == Node::DIR_ && (g_disk_uid_root || (g_disk.n[(size_t)d].mode & 0300) == 0300) &&
                       s.size() - k - 1 <= 255;
              };
            bool can = creatable();
            // at every moment either free to be created or a directory, and never taken away again
            bool open_way = can || wasdir, was = wasdir;
            auto snap = [&] {
                bool d = truth(2, o.S(0));
                ever = ever || d;
                always = always && d;
                open_way = open_way && (d || (!was && creatable()));
                was = d;
              };
            bool ret;
            int done;
            {
              Mid mid(o, 3, snap);
              ret = rcutils_mkdir(path);
              done = mid.done;
            }
            int f = fired();
            end_op("%d", ret);
            bool isdir = truth(2, o.S(0));
            bool abs = !o.S(0).empty() && o.S(0)[0] == '/';
            CHECK(abs || !ret, "relative", "creating '%s' succeeded", o.S(0).c_str());
            if (!abs) {CHECK(g_disk.mutations == mut0, "modified", "a relative path was created"); break;}
            if (ret) {
              CHECK(ever || isdir, "no-directory", "creating '%s' succeeded but no directory is there", o.S(0).c_str());
              if (!done) {CHECK(isdir, "no-directory", "creating '%s' succeeded but no directory is there", o.S(0).c_str());}
              probe(wasdir ? "mkdir-existed" : done && ever ? "mkdir-race" : "mkdir-created");
              if (!done && !wasdir) {
                int i = g_disk.resolve(o.S(0), true);
                CHECK((g_disk.n[(size_t)i].mode & 0700) == 0700, "mode", "the new directory has mode %o", g_disk.n[(size_t)i].mode);
              }
            } else {
              if (!done) {
                CHECK(f || !wasdir, "existing-refused", "'%s' is a directory but creating it failed", o.S(0).c_str());
                CHECK(f || !can, "spurious-failure", "'%s' can be created but creating it failed", o.S(0).c_str());
                CHECK(g_disk.dump() == before, "modified", "a failed creation changed the file system");
              } else {
                CHECK(f || !open_way || !isdir, "lost-race", "another process created '%s' at the same moment and creating it failed", o.S(0).c_str());
                // a directory there from start to end is always reported as one
                CHECK(f || !(always && wasdir && isdir), "existing-refused", "'%s' was a directory throughout but creating it failed", o.S(0).c_str());
                CHECK(g_disk.mutations == mut0, "modified", "a failed creation changed the file system");
              }
              probe(f ? "mkdir-fault" : "mkdir-refused");
            }
            CHECK(g_disk.mutations <= mut0 + 1, "modified", "more than one change was made");
            if (!done && ret && !wasdir) {
              std::string after = g_disk.dump();
              CHECK(g_disk.rm(s), "modified", "cannot take the new directory away");
              CHECK(g_disk.dump() == before, "modified", "creating '%s' changed something else", o.S(0).c_str());
              if (p.C("keep", 1)) {g_disk.mk(s, Node::DIR_, 0775, 0);}
            } else if (!done) {CHECK(g_disk.dump() == before, "modified", "creating '%s' changed something else", o.S(0).c_str());}
            break;
          }
        case CWD: {
            size_t n = umod(o.A(1), 5000);
            char * b = guarded(n);
            bool r = rcutils_get_cwd(b, n);
            int f = fired();
            end_op("%d", r);
            bool want = !f && n > g_disk.cwd.size();
            CHECK(r == want, "cwd", "the current directory '%s' into %zu bytes gave %d", g_disk.cwd.c_str(), n, r);
            if (r) {CHECK(g_disk.cwd == b, "cwd", "the current directory is '%s', not '%s'", g_disk.cwd.c_str(), b); probe("cwd");}
            break;
          }
        case NULLS: {
            bool r = false;
            uint64_t sz;
            switch (umod(o.A(1), 16)) {
              case 0: r = rcutils_dir_iter_start(NULL, allocator(1)) != NULL; break;
              case 1: r = rcutils_dir_iter_next(NULL); break;
              case 2: rcutils_dir_iter_end(NULL); break;
              case 3: {rcutils_allocator_t z = rcutils_get_zero_initialized_allocator(); r = rcutils_dir_iter_start("/w", z) != NULL; break;}
              case 4: r = rcutils_exists(NULL); break;
              case 5: r = rcutils_is_file(NULL); break;
              case 6: r = rcutils_is_directory(NULL); break;
              case 7: r = rcutils_is_readable(NULL); break;
              case 8: r = rcutils_is_writable(NULL); break;
              case 9: r = rcutils_is_readable_and_writable(NULL); break;
              case 10: r = rcutils_mkdir(NULL); break;
              case 11: r = rcutils_get_cwd(NULL, 100); break;
              case 12: r = rcutils_get_file_size(NULL) != 0; break;
              case 13: r = rcutils_calculate_directory_size(NULL, &sz, allocator(1)) != RCUTILS_RET_INVALID_ARGUMENT; break;
              case 14: r = rcutils_calculate_directory_size("/w", NULL, allocator(1)) != RCUTILS_RET_INVALID_ARGUMENT; break;
              default: {rcutils_allocator_t z = rcutils_get_zero_initialized_allocator();
                r = rcutils_calculate_directory_size("/w", &sz, z) == RCUTILS_RET_OK; break;}
            }
            end_op("%d", r);
            rcutils_reset_error();
            CHECK(!r, "null-argument", "variant %lld: a NULL argument was accepted", (long long)o.A(1));
            CHECK(g_disk.dump() == before, "modified", "a NULL argument changed the file system");
            break;
          }
        default: end_op(); break;
      }
      if (o.code != MKDIR) {CHECK(g_disk.mutations == mut0, "modified", "%s changed the file system", names[o.code]);}
    }
    for (auto & s : sl) {if (s.it) {rcutils_dir_iter_end(s.it); --expect_open;}}
    CHECK(g_disk.open_dirs == 0, "handle-leak", "%d directory handles left open", g_disk.open_dirs);
    finish_run("at the end");
  });
}
const Workload W18{"C18", names, NOPS, gen18, exec};
const Workload W19{"C19", names, NOPS, gen19, exec};
const Workload W20{"C20", names, NOPS, gen20, exec};
Reg r18(&W18), r19(&W19), r20(&W20);
}  // namespace
