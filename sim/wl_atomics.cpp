// C28: atomic helpers are indivisible.
#include <algorithm>
#include "user_atomic.h"
#include "wl.h"
using namespace sim;
namespace {
const char * const names[] = {"load", "store", "exchange", "compare_exchange", "fetch_add"};
void gen(Rng & r, Plan & p, bool th)
{
  int nt = (int)r.pick(std::vector<int>{1, 2, 2, 3, 3, 4});
  p.cfg["threads"] = nt;
  gen_schedule(r, p, nt, 150);
  auto val = [&]() -> int64_t {
      return r.chance(1, 2) ? (int64_t)r.below(5) : r.pick(std::vector<int64_t>{-1, 255, 256, 127, 128, 32767, 32768, 65535, INT32_MAX, INT32_MIN,
        (int64_t)1 << 32, ((int64_t)1 << 32) + 1, INT64_MAX, INT64_MIN, (int64_t)r.next()});
    };
  p.cfg["init"] = val();
  int n = (int)r.range(2, th ? 60 : 30);
  std::vector<int> objs;
  for (int i = 0, k = (int)r.range(1, 3); i < k; ++i) {objs.push_back((int)r.below(U_OBJECTS));}
  unsigned focus = (unsigned)r.below(A_NOPS + 2);       // many runs are about one kind of operation
  for (int i = 0; i < n; ++i) {
    int obj = r.pick(objs), op = focus < A_NOPS && r.chance(2, 3) ? (int)focus : (int)r.below(A_NOPS);
    if (!u_atomic_has(obj, op)) {op = A_EXCHANGE;}
    // expected: the value last seen by the thread, or any
    p.ops.push_back(mkop((int)r.below((uint64_t)nt), op, {obj, val(), r.chance(3, 4) ? 0 : 1, val(), r.chance(1, 3)}));
  }
}
struct H { int op; int64_t a, exp, res, got; uint64_t from, to; };
struct Lin {
  int obj = 0;
  std::vector<std::vector<H>> h;
  std::set<std::vector<int64_t>> seen;
  size_t steps = 0;
  bool step(const H & o, int64_t & v)
  {
    int64_t a = u_atomic_narrow(obj, o.a);
    switch (o.op) {
      case A_LOAD: return o.res == v;
      case A_STORE: v = a; return true;
      case A_EXCHANGE: {bool ok = o.res == v; v = a; return ok;}
      case A_ADD: {bool ok = o.res == v; v = u_atomic_narrow(obj, (int64_t)((uint64_t)v + (uint64_t)a)); return ok;}
      default: {
          int64_t e = u_atomic_narrow(obj, o.exp);
          if (e == v) {v = a; return o.res == 1 && o.got == e;}
          return o.res == 0 && o.got == v;
        }
    }
  }
  bool search(const std::vector<size_t> & at, int64_t v)
  {
    bool done = true;
    for (size_t t = 0; t < h.size(); ++t) {done = done && at[t] == h[t].size();}
    if (done) {return true;}
    std::vector<int64_t> key(at.begin(), at.end());
    key.push_back(v);
    if (!seen.insert(key).second) {return false;}
    if (++steps > 200000) {probe("linearization-search-gave-up"); return true;}
    uint64_t minto = ~0ull;
    for (size_t t = 0; t < h.size(); ++t) {if (at[t] < h[t].size()) {minto = std::min(minto, h[t][at[t]].to);}}
    for (size_t t = 0; t < h.size(); ++t) {
      if (at[t] == h[t].size() || h[t][at[t]].from > minto) {continue;}
      int64_t v2 = v;
      if (!step(h[t][at[t]], v2)) {continue;}
      auto at2 = at;
      at2[t]++;
      if (search(at2, v2)) {return true;}
    }
    return false;
  }
};
void exec(const Plan & p)
{
  int nt = (int)p.C("threads", 1);
  static Lin lin[U_OBJECTS];
  for (int i = 0; i < U_OBJECTS; ++i) {lin[i] = Lin(); lin[i].obj = i; lin[i].h.resize((size_t)nt);}
  u_atomic_init(p.C("init"));
  run_threads(p, nt, [&](int tid) {
    int64_t last[U_OBJECTS];
    for (int i = 0; i < U_OBJECTS; ++i) {last[i] = u_atomic_narrow(i, p.C("init"));}
    for (auto & o : p.ops) {
      if (o.tid != tid) {continue;}
      int obj = (int)umod(o.A(0), U_OBJECTS);
      int op = u_atomic_has(obj, o.code) ? o.code : A_EXCHANGE;
      H h{op, o.A(1), op == A_CAS && !o.A(4) ? last[obj] : o.A(3), 0, 0, 0, 0};
      begin_op(o, names[op]);
      h.from = event_seq();
      h.got = h.exp;
      h.res = u_atomic(obj, op, (int)o.A(2), h.a, &h.got);
      h.to = event_seq();
      end_op("%lld", (long long)h.res);
      if (op == A_CAS) {probe(h.res ? "exchanged" : "not-exchanged");}
      last[obj] = op == A_CAS ? (h.res ? u_atomic_narrow(obj, h.a) : h.got) : op == A_STORE || op == A_EXCHANGE ? u_atomic_narrow(obj, h.a) : h.res;
      lin[obj].h[(size_t)tid].push_back(h);
    }
  });
  run_single(p, [&] {
    // what is left, seen after everything
    for (int i = 0; i < U_OBJECTS; ++i) {
      if (!lin[i].h[0].empty() || nt > 1) {
        int64_t e = 0;
        H h{A_LOAD, 0, 0, u_atomic(i, A_LOAD, 0, 0, &e), 0, event_seq(), ~0ull};
        lin[i].h[0].push_back(h);
      }
    }
    Oracle q;
    for (int i = 0; i < U_OBJECTS; ++i) {
      CHECK(lin[i].search(std::vector<size_t>((size_t)nt, 0), u_atomic_narrow(i, p.C("init"))), "not-indivisible",
        "no order of the operations on object %d explains what they returned and left", i);
    }
  });
}
const Workload W{"C28", names, A_NOPS, gen, exec};
Reg reg(&W);
}  // namespace
