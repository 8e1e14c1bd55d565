// symx: a symbolic executor for LLVM IR.
//  * memory is native memory of this process (so libraries without IR can be called natively),
//    with a per-byte shadow that marks symbolic bytes and an ASan-like validity map;
//  * integers are z3 bit-vectors, doubles are exact reals (poly.hpp);
//  * both sides of a feasible symbolic branch are explored by fork()ing the process.
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <atomic>
#include <chrono>
#include <csetjmp>
#include <cstdarg>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <execinfo.h>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <sys/time.h>
#include <signal.h>
#include <map>
#include <new>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <poll.h>
#include <unordered_set>
#include <typeinfo>
#include <unistd.h>

#include "poly.hpp"
#include <poll.h>
#include <unordered_set>

using namespace llvm;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
using sx::Reals;
using sx::Unsupported;

// ------------------------------------------------------------------ values
struct Val { u64 b; u32 s; };
static inline bool is_real(u32 s) { return s & 1; }
static inline double dbl(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static inline u64 bits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline int64_t sext(u64 v, unsigned w) { return w >= 64 ? int64_t(v) : int64_t(v << (64 - w)) >> (64 - w); }

// ------------------------------------------------------------------ shared state between forked processes
struct Shared {
  std::atomic<long> running, paths, forks, queries, qsat, qunsat, qunk, solver_us, instrs, asserts, near_asserts, proved, violations, unsupported, deadline, crashes, concretised, interval_decided, assumed_dead, done, exceptions, depth_max, limit, linear_proved, nra_proved, numer_proved, natives, witnessed, div_assumed;
};
static Shared* sh;
static int log_fd = -1;
static double t_start, deadline_s = 600;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static std::string jstr(const std::string& s)
{
  std::string r = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; }
    else r += ch;
  }
  return r + "\"";
}
static void logline(const std::string& s)
{
  std::string t = s + "\n";
  if (write(log_fd, t.data(), t.size()) < 0) {}
}

// ------------------------------------------------------------------ memory
static u8* AR; static u64 AR_SZ = 24ull << 30; // arena
static u8* AV;                                  // validity per 8-byte granule
static u64 heap_top, stack_top, glob_top, stack_lo;
static inline bool in_arena(u64 a) { return a - u64(AR) < AR_SZ; }
static void set_valid(u64 a, u64 n)
{
  u64 g = (a - u64(AR)) >> 3;
  memset(AV + g, 8, n >> 3);
  if (n & 7) AV[g + (n >> 3)] = n & 7;
}
static void set_invalid(u64 a, u64 n) { memset(AV + ((a - u64(AR)) >> 3), 0, (n + 7) >> 3); }
static inline bool valid(u64 a, u64 n)
{
  if (!in_arena(a)) return a >= 4096;
  u64 o = a - u64(AR);
  if (n == 0) return true;
  for (u64 g = o >> 3; g <= (o + n - 1) >> 3; ++g) {
    u64 end = std::min<u64>(o + n, (g << 3) + 8) - (g << 3);
    if (AV[g] < end) return false;
  }
  return true;
}
static std::map<u64, u64>* heap_objs; // live heap objects: address -> size
static u8 fill_byte = 0xCB;
static u64 heap_alloc(u64 n, u64 align = 16)
{
  if (n > (4ull << 30)) return 0;
  u64 a = (heap_top + 16 + align - 1)/align*align;
  heap_top = a + n + 8;
  heap_top = (heap_top + 15)/16*16;
  if (heap_top > u64(AR) + AR_SZ*3/4) { logline("{\"k\":\"unsupported\",\"what\":\"arena exhausted\"}"); ++sh->unsupported; _exit(3); }
  set_valid(a, n);
  memset((void*) a, fill_byte, n);
  (*heap_objs)[a] = n;
  return a;
}

// shadow
static const u64 PG = 4096;
struct ShadowMap {
  std::unordered_map<u64, u32*> m;
  u64 cp = ~0ull; u32* cv = nullptr;
  bool any = false;
  u32* find(u64 a)
  {
    u64 p = a >> 12;
    if (p == cp) return cv;
    auto it = m.find(p);
    u32* r = it == m.end() ? nullptr : it->second;
    cp = p; cv = r;
    return r;
  }
  u32* get(u64 a)
  {
    u32* r = find(a);
    if (!r) { r = (u32*) calloc(PG, 4); m[a >> 12] = r; cv = r; }
    any = true;
    return r;
  }
  u32 at(u64 a) { if (!any) return 0; u32* p = find(a); return p ? p[a & (PG - 1)] : 0; }
  void set(u64 a, u32 v) { if (!v) { if (!any) return; u32* p = find(a); if (p) p[a & (PG - 1)] = 0; } else get(a)[a & (PG - 1)] = v; }
  void clear(u64 a, u64 n)
  {
    if (!any) return;
    while (n) {
      u64 k = std::min(n, PG - (a & (PG - 1)));
      u32* p = find(a);
      if (p) memset(p + (a & (PG - 1)), 0, 4*k);
      a += k; n -= k;
    }
  }
  bool has(u64 a, u64 n)
  {
    if (!any) return false;
    while (n) {
      u64 k = std::min(n, PG - (a & (PG - 1)));
      u32* p = find(a);
      if (p) for (u64 i = 0; i < k; ++i) if (p[(a & (PG - 1)) + i]) return true;
      a += k; n -= k;
    }
    return false;
  }
} shadow;

// engine-process operator new/delete: natively run library code may delete arena memory
static bool heap_free_quiet(u64 a)
{
  auto it = heap_objs->find(a);
  if (it == heap_objs->end()) return false;
  set_invalid(a, it->second); shadow.clear(a, it->second); heap_objs->erase(it);
  return true;
}
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (AR && in_arena(u64(p))) heap_free_quiet(u64(p)); else free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

// ------------------------------------------------------------------ symbolic state
static z3::context* Z;
static Reals* R;
static std::vector<z3::expr>* IX;                  // integer / boolean expressions
static std::unordered_map<unsigned, u32>* IXmap;
static std::vector<z3::expr>* CONDS;
static std::vector<z3::expr>* PC;
struct Input { std::string name; char kind; z3::expr c; double lo, hi; u32 atom = 0; };
static std::vector<Input>* INPUTS;
static std::vector<std::string>* DECISIONS;
static long path_id = 0, n_instr = 0, max_instr = 2000000000;
static bool fork_select = false, want_traces = true, uncertain = false;
static long trace_limit = 40;
static std::vector<std::pair<std::string, Val>>* OBS;
static unsigned rl_branch = 3000000, rl_assert = 40000000;
static std::string cur_loc();

static u32 ix(const z3::expr& e)
{
  unsigned id = Z3_get_ast_id(*Z, e);
  auto it = IXmap->find(id);
  if (it != IXmap->end()) return it->second << 1;
  u32 n = IX->size(); IX->push_back(e); (*IXmap)[id] = n;
  return n << 1;
}
static z3::expr ie(Val v, unsigned w)
{
  if (v.s) {
    if (is_real(v.s)) throw Unsupported{"real expression used as an integer"};
    return (*IX)[v.s >> 1];
  }
  if (w == 1) return Z->bool_val(v.b & 1);
  return Z->bv_val((uint64_t) (v.b & mask(w)), w);
}
static Val mkint(z3::expr e, unsigned w)
{
  e = e.simplify();
  if (w == 1) {
    if (e.is_true()) return {1, 0};
    if (e.is_false()) return {0, 0};
  } else { uint64_t n; if (e.is_numeral_u64(n)) return {n, 0}; }
  return {0x7ff8dead00000000ull & mask(w), ix(e)};
}
static Val mkreal(u32 p)
{
  if (R->is_const(p)) return {bits(Reals::to_double(R->const_val(p))), 0};
  return {0x7ff8dead0000beefull, (p << 1) | 1};
}
static u32 poly(Val v)
{
  if (v.s) { if (!is_real(v.s)) throw Unsupported{"integer expression used as a real"}; return v.s >> 1; }
  double d = dbl(v.b);
  if (!std::isfinite(d)) throw Unsupported{"non-finite constant in symbolic arithmetic"};
  return R->constant(d);
}

// ------------------------------------------------------------------ solver
struct Consts { std::vector<unsigned> ids; bool nonlin, bv; };
static std::unordered_map<unsigned, Consts>* CC;
static std::vector<z3::expr>* keep;
static std::unordered_set<unsigned>* real_consts;
static const Consts& consts(const z3::expr& e)
{
  unsigned id = Z3_get_ast_id(*Z, e);
  auto it = CC->find(id);
  if (it != CC->end()) return it->second;
  keep->push_back(e);
  Consts r; r.nonlin = false; r.bv = false;
  if (e.is_app()) {
    unsigned n = e.num_args();
    if (n == 0) { if (e.decl().decl_kind() == Z3_OP_UNINTERPRETED) { r.ids.push_back(id); if (e.is_real()) real_consts->insert(id); } if (e.is_bv()) r.bv = true; }
    int nn = 0;
    for (unsigned i = 0; i < n; ++i) {
      z3::expr a = e.arg(i);
      const Consts& k = consts(a);
      r.ids.insert(r.ids.end(), k.ids.begin(), k.ids.end());
      r.nonlin = r.nonlin || k.nonlin; r.bv = r.bv || k.bv;
      if (!a.is_numeral()) ++nn;
    }
    if (e.is_arith()) {
      auto k = e.decl().decl_kind();
      if ((k == Z3_OP_MUL && nn > 1) || k == Z3_OP_DIV || k == Z3_OP_POWER) r.nonlin = true;
    }
    std::sort(r.ids.begin(), r.ids.end()); r.ids.erase(std::unique(r.ids.begin(), r.ids.end()), r.ids.end());
  }
  return (*CC)[id] = r;
}
enum Res { UNSAT_, SAT_, UNK_ };
static int query_s = 40; // wall-clock limit of one query; a query that hits it is reported as undecided
static void on_alarm(int) { Z3_interrupt(*Z); }
struct Query_timer { Query_timer() { struct sigaction sa {}; sa.sa_handler = on_alarm; sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, nullptr); itimerval t {}; t.it_value.tv_sec = query_s; t.it_interval.tv_sec = 1; setitimer(ITIMER_REAL, &t, nullptr); } ~Query_timer() { itimerval t {}; setitimer(ITIMER_REAL, &t, nullptr); } };
struct QCache { std::map<std::vector<unsigned>, Res> m; } *qcache;
typedef std::vector<std::pair<unsigned, std::string>> Raw_model; // constant -> "r <rational>" or "b <number>"
static Res solve_here(const std::vector<z3::expr>& cs, bool nl, bool bv, unsigned rlimit, Raw_model* model)
{
  Res res = UNK_;
  for (int attempt = 0; attempt < 2 && res == UNK_; ++attempt) {
    try {
      z3::solver s = (nl && !bv && attempt == 0) ? z3::tactic(*Z, "qfnra-nlsat").mk_solver() : z3::solver(*Z, z3::solver::simple());
      z3::params p(*Z); p.set("rlimit", nl ? rlimit : rlimit*4);
      s.set(p);
      for (auto& e : cs) s.add(e);
      z3::check_result r; { Query_timer qt; r = s.check(); }
      if (r == z3::sat) {
        res = SAT_;
        if (model) {
          z3::model m = s.get_model();
          for (unsigned i = 0; i < m.num_consts(); ++i) {
            z3::func_decl d = m.get_const_decl(i);
            z3::expr k = d(); z3::expr v = m.get_const_interp(d);
            keep->push_back(k);
            std::string t;
            if (v.is_real()) {
              if (v.is_numeral()) t = std::string("r") + Z3_get_numeral_string(*Z, v);
              else if (v.is_algebraic()) { t = v.get_decimal_string(40); if (t.size() && t.back() == '?') t.pop_back(); t = "r" + t; }
            } else { uint64_t n = 0; if (v.is_bv() && v.is_numeral_u64(n)) t = "b" + std::to_string(n); }
            if (t.size()) model->push_back({Z3_get_ast_id(*Z, k), t});
          }
        }
      } else if (r == z3::unsat) res = UNSAT_;
    } catch (z3::exception& ex) { res = UNK_; }
    if (!(nl && !bv)) break;
  }
  return res;
}
// nonlinear queries run in a process of their own, since they cannot always be interrupted
static Res solve_apart(const std::vector<z3::expr>& cs, bool nl, bool bv, unsigned rlimit, Raw_model* model)
{
  int fd[2]; if (pipe(fd)) return UNK_;
  pid_t p = fork();
  if (p < 0) { close(fd[0]); close(fd[1]); return UNK_; }
  if (p == 0) {
    close(fd[0]); signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL);
    Raw_model m; Res r = solve_here(cs, nl, bv, rlimit, model ? &m : nullptr);
    std::string o(1, char('0' + r));
    for (auto& x : m) o += std::to_string(x.first) + " " + x.second + "\n";
    for (size_t i = 0; i < o.size();) { ssize_t n = write(fd[1], o.data() + i, o.size() - i); if (n <= 0) break; i += n; }
    _exit(0);
  }
  close(fd[1]);
  std::string o; double lim = now() + query_s + 1; char buf[65536];
  for (;;) {
    struct pollfd pf {fd[0], POLLIN, 0}; int t = int((lim - now())*1000);
    if (t <= 0) break;
    int k = poll(&pf, 1, t); if (k < 0 && errno == EINTR) continue; if (k <= 0) break;
    ssize_t n = read(fd[0], buf, sizeof buf); if (n < 0 && errno == EINTR) continue; if (n <= 0) break;
    o.append(buf, n);
  }
  close(fd[0]); kill(p, SIGKILL); int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (o.empty()) return UNK_;
  if (model) { size_t i = 1; while (i < o.size()) { size_t e = o.find('\n', i); if (e == std::string::npos) break; std::string l = o.substr(i, e - i); size_t sp = l.find(' '); model->push_back({(unsigned) std::stoul(l.substr(0, sp)), l.substr(sp + 1)}); i = e + 1; } }
  return Res(o[0] - '0');
}
static Res solve(const std::vector<z3::expr>& cs, unsigned rlimit, std::map<unsigned, z3::expr>* model = nullptr)
{
  std::vector<unsigned> key;
  for (auto& e : cs) key.push_back(Z3_get_ast_id(*Z, e));
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  if (!model) { auto it = qcache->m.find(key); if (it != qcache->m.end()) return it->second; }
  bool nl = false, bv = false;
  for (auto& e : cs) { auto& k = consts(e); nl = nl || k.nonlin; bv = bv || k.bv; }
  double t0 = now();
  ++sh->queries;
  Raw_model raw;
  Res res = nl ? solve_apart(cs, nl, bv, rlimit, model ? &raw : nullptr) : solve_here(cs, nl, bv, rlimit, model ? &raw : nullptr);
  if (model) {
    std::map<unsigned, unsigned> width; for (auto& e : cs) for (auto i : consts(e).ids) width[i] = 0;
    for (auto& x : raw) {
      z3::expr v = x.second[0] == 'r' ? Z->real_val(x.second.c_str() + 1) : Z->bv_val((uint64_t) std::stoull(x.second.substr(1)), 64);
      keep->push_back(v); model->insert({x.first, v});
    }
  }
  sh->solver_us += long((now() - t0)*1e6);
  if (res == SAT_) ++sh->qsat; else if (res == UNSAT_) ++sh->qunsat; else ++sh->qunk;
  if (res == UNK_ && getenv("SX_DEBUG")) fprintf(stderr, "unknown after %.1f s at %s\n", now() - t0, cur_loc().c_str());
  if (res != UNK_) { if (qcache->m.size() > 200000) qcache->m.clear(); qcache->m[key] = res; for (auto& e : cs) keep->push_back(e); }
  return res;
}
// constraints (path condition and definitions) relevant to `extra`
static std::vector<z3::expr> slice(const std::vector<z3::expr>& extra)
{
  std::vector<z3::expr> out; std::set<unsigned> vars, done; std::vector<unsigned> work; std::vector<char> used(PC->size(), 0);
  auto addc = [&](const z3::expr& e) {
    if (!done.insert(Z3_get_ast_id(*Z, e)).second) return;
    out.push_back(e);
    for (auto v : consts(e).ids) if (vars.insert(v).second) work.push_back(v);
  };
  for (auto& e : extra) addc(e);
  bool ch = true;
  while (ch) {
    ch = false;
    while (work.size()) {
      unsigned v = work.back(); work.pop_back();
      auto it = R->side.find(v);
      if (it != R->side.end()) for (auto& e : std::vector<z3::expr>(it->second)) addc(e);
    }
    for (size_t i = 0; i < PC->size(); ++i) if (!used[i]) {
      for (auto v : consts((*PC)[i]).ids) if (vars.count(v)) { used[i] = 1; ch = true; addc((*PC)[i]); break; }
    }
  }
  return out;
}
static Res feasible(const z3::expr& e, unsigned rl, std::map<unsigned, z3::expr>* m = nullptr)
{
  if (e.is_true() && !m) return SAT_;
  if (e.is_false()) return UNSAT_;
  return solve(slice({e}), rl, m);
}
static double zdouble(const z3::expr& v)
{
  try {
    if (v.is_numeral()) { std::string s = v.get_decimal_string(40); if (s.size() && s.back() == '?') s.pop_back(); return strtod(s.c_str(), nullptr); }
    if (v.is_algebraic()) { std::string s = v.get_decimal_string(40); if (s.size() && s.back() == '?') s.pop_back(); return strtod(s.c_str(), nullptr); }
  } catch (z3::exception&) {}
  return 0;
}
static bool is_real_const(unsigned id) { return real_consts->count(id); }
#include "witness.hpp"
static void add_pc(const z3::expr& e0) { z3::expr e = e0.simplify(); if (!e.is_true()) PC->push_back(e); }

// assignment of all inputs satisfying the path condition (and extra); component by component
static bool full_model(const std::vector<z3::expr>& extra, std::map<unsigned, z3::expr>& m)
{
  std::set<unsigned> covered;
  bool ok = true;
  if (extra.size()) {
    auto cs = slice(extra);
    if (solve(cs, rl_assert, &m) != SAT_) ok = false;
    for (auto& e : cs) for (auto v : consts(e).ids) covered.insert(v);
  }
  for (auto& in : *INPUTS) {
    unsigned id = Z3_get_ast_id(*Z, in.c);
    if (covered.count(id)) continue;
    // any constraint on this input
    z3::expr t = in.kind == 'r' ? (in.c == in.c) : (in.c == in.c);
    std::vector<z3::expr> out; std::set<unsigned> vars {id}; 
    bool ch = true; std::vector<char> used(PC->size(), 0);
    auto addside = [&](unsigned v){ auto it = R->side.find(v); if (it != R->side.end()) for (auto& e : it->second) { bool have = false; for (auto& o : out) have = have || z3::eq(o, e); if (!have) { out.push_back(e); for (auto w : consts(e).ids) if (vars.insert(w).second) ch = true; } } };
    while (ch) {
      ch = false;
      for (auto v : std::set<unsigned>(vars)) addside(v);
      for (size_t i = 0; i < PC->size(); ++i) if (!used[i]) for (auto v : consts((*PC)[i]).ids) if (vars.count(v)) { used[i] = 1; ch = true; out.push_back((*PC)[i]); for (auto w : consts((*PC)[i]).ids) vars.insert(w); break; }
    }
    for (auto v : vars) covered.insert(v);
    if (out.size() && solve(out, rl_assert, &m) != SAT_) ok = false;
  }
  return ok;
}
static std::string inputs_json(std::map<unsigned, z3::expr>& m)
{
  std::string s = "[";
  for (auto& in : *INPUTS) {
    auto it = m.find(Z3_get_ast_id(*Z, in.c));
    char buf[64];
    if (in.kind == 'r') {
      double v = std::isfinite(in.lo) ? in.lo : 0;
      if (std::isfinite(in.lo) && std::isfinite(in.hi)) v = .5*(in.lo + in.hi);
      if (it != m.end()) v = zdouble(it->second);
      snprintf(buf, 64, "%.17g", v);
    } else {
      int64_t v = (int64_t) in.lo;
      if (it != m.end()) { uint64_t n = 0; if (it->second.is_numeral_u64(n)) v = sext(n, in.c.get_sort().bv_size()); }
      if (in.kind == 'b') v &= 255;
      snprintf(buf, 64, "%ld", (long) v);
    }
    if (s.size() > 1) s += ",";
    s += "[" + jstr(in.name) + ",\"" + std::string(1, in.kind) + "\"," + buf + "]";
  }
  return s + "]";
}

// ------------------------------------------------------------------ forking
static std::vector<pid_t> kids; static bool own_slot = true; static int max_jobs = 8; static long depth = 0;
static void finish();
static void end_path(const char* kind, const std::string& msg)
{
  std::string extra;
  logline("{\"k\":\"end\",\"path\":" + std::to_string(path_id) + ",\"how\":" + jstr(kind) + ",\"msg\":" + jstr(msg) + "}");
  finish();
}
static void finish()
{
  sh->instrs += n_instr;
  ++sh->done;
  if (own_slot) --sh->running;
  for (auto p : kids) {
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(st)) { ++sh->crashes; --sh->running; logline("{\"k\":\"crash\",\"what\":\"engine process died, status " + std::to_string(st) + "\"}"); }
  }
  _exit(0);
}
static void check_deadline()
{
  if (now() - t_start > deadline_s) { ++sh->deadline; end_path("deadline", ""); }
}
// returns true in the child
static bool do_fork()
{
  check_deadline();
  ++sh->forks;
  bool conc = false;
  if (sh->running.fetch_add(1) < max_jobs) conc = true; else --sh->running;
  pid_t p = fork();
  if (p < 0) { logline("{\"k\":\"unsupported\",\"what\":\"fork failed\"}"); ++sh->unsupported; _exit(3); }
  if (p == 0) {
    kids.clear(); own_slot = conc;
    path_id = ++sh->paths; n_instr = 0; ++depth;
    long d = sh->depth_max; while (depth > d && !sh->depth_max.compare_exchange_weak(d, depth)) {}
    return true;
  }
  if (conc) kids.push_back(p);
  else {
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(st)) { ++sh->crashes; logline("{\"k\":\"crash\",\"what\":\"engine process died, status " + std::to_string(st) + "\"}"); }
  }
  return false;
}
static bool branch(const z3::expr& c0)
{
  z3::expr c = c0.simplify();
  if (c.is_true()) return true;
  if (c.is_false()) return false;
  z3::expr n = (!c).simplify();
  bool wt = false, wf = false; bool real = has_reals(c);
  if (real) for (auto w : witnesses()) { int b = w_bool(*w, c); wt = wt || b == 1; wf = wf || b == 0; if (wt && wf) break; }
  if (wt) ++sh->witnessed; if (wf) ++sh->witnessed;
  auto ask = [&](const z3::expr& e) {
    if (!real || WIT->size() > 40) return feasible(e, rl_branch);
    std::map<unsigned, z3::expr> m; Res r = feasible(e, rl_branch, &m);
    if (r == SAT_) { // keep the model as a witness
      Witness w; w.id = WIT->size();
      for (auto& in : *INPUTS) if (in.kind == 'r') { auto it = m.find(Z3_get_ast_id(*Z, in.c)); if (it != m.end()) w.given[in.atom] = zdouble(it->second); }
      WIT->push_back(w);
    }
    return r;
  };
  Res t = wt ? SAT_ : ask(c);
  if (t == UNSAT_) return false;
  Res f = wf ? SAT_ : ask(n);
  if (f == UNSAT_) return true;
  if (t == UNK_ || f == UNK_) uncertain = true;
  if (do_fork()) { PC->push_back(c); return true; }
  PC->push_back(n); return false;
}
static bool truth(Val v) { if (!v.s) return v.b & 1; return branch(ie(v, 1)); }
static u64 concretize(Val v, unsigned w, int limit = 300)
{
  if (!v.s) return v.b & mask(w);
  z3::expr e = ie(v, w);
  if (w == 1) return branch(e);
  for (int i = 0; i < limit; ++i) {
    std::map<unsigned, z3::expr> m;
    // introduce a probe constant to read the value from the model
    z3::expr probe = Z->bv_const("probe!", w);
    z3::expr pe = (probe == e);
    Res r = solve(slice({pe}), rl_branch, &m);
    if (r != SAT_) throw Unsupported{"cannot enumerate the values of an address"};
    u64 k = 0; auto it = m.find(Z3_get_ast_id(*Z, probe)); uint64_t n;
    if (it != m.end() && it->second.is_numeral_u64(n)) k = n;
    z3::expr eq = (e == Z->bv_val((uint64_t) k, w));
    ++sh->concretised;
    if (branch(eq)) return k;
  }
  throw Unsupported{"too many values for an address or size"};
}
static int64_t real_floor(u32 p, const char* what)
{
  // enumerate the integers k with k <= p < k + 1
  for (int i = 0; i < 200; ++i) {
    std::map<unsigned, z3::expr> m;
    z3::expr probe = Z->real_const("rprobe!");
    Res r = solve(slice({probe == R->z(p)}), rl_branch, &m);
    if (r != SAT_) throw Unsupported{std::string("cannot enumerate ") + what};
    auto it = m.find(Z3_get_ast_id(*Z, probe));
    double d = it == m.end() ? 0 : zdouble(it->second);
    int64_t k = (int64_t) std::floor(d);
    z3::expr z = R->z(p);
    z3::expr c = (z >= R->num(mpq_class((long) k)) && z < R->num(mpq_class((long) k + 1)));
    if (feasible(c, rl_branch) == UNSAT_) { k = k + (d - k > .5 ? 1 : -1); c = (z >= R->num(mpq_class((long) k)) && z < R->num(mpq_class((long) k + 1))); }
    if (branch(c)) return k;
  }
  throw Unsupported{std::string("too many values for ") + what};
}

// ------------------------------------------------------------------ reporting
static void violation(const std::string& kind, const std::string& msg, std::map<unsigned, z3::expr>* m, bool have)
{
  ++sh->violations;
  std::map<unsigned, z3::expr> mm;
  if (!m) { have = full_model({}, mm); m = &mm; }
  std::string dec;
  for (auto& d : *DECISIONS) dec += (dec.size() ? "," : "") + jstr(d);
  logline("{\"k\":\"candidate\",\"kind\":" + jstr(kind) + ",\"msg\":" + jstr(msg) + ",\"path\":" + std::to_string(path_id) + ",\"loc\":" + jstr(cur_loc())
    + ",\"model\":" + (have ? "true" : "false") + ",\"inputs\":" + inputs_json(*m) + "}");
}
static void check_true(const z3::expr& c0, const std::string& msg)
{
  ++sh->asserts;
  z3::expr c = c0.simplify();
  if (c.is_true()) { ++sh->proved; return; }
  std::map<unsigned, z3::expr> m;
  z3::expr n = (!c).simplify();
  Res r = feasible(n, rl_assert);
  if (r == UNSAT_) { ++sh->proved; ++sh->nra_proved; return; }
  bool have = r == SAT_ && full_model({n}, m);
  violation(r == SAT_ ? "assert" : "undecided", msg, &m, have);
  add_pc(c);
  if (feasible(c, rl_branch) == UNSAT_) end_path("assert-false", msg);
}
// is |p| <= tol for all values?
static void check_near(u32 p, double tol, const std::string& msg)
{
  ++sh->asserts; ++sh->near_asserts;
  z3::expr T = R->num(mpq_class(tol));
  auto by_monomials = [&](u32 q, double t) -> bool {
    // each term as an independent real within its bounds (exact interval of coefficient times monomial, rounded outwards to a
    // multiple of 2^-60; terms are gathered into at most 16 groups): linear arithmetic
    std::vector<std::pair<mpq_class, mpq_class>> g(16, {0, 0}); size_t k = 0;
    for (auto& term : R->polys[q].t) {
      if (term.first == 0) { g[0].first += term.second; g[0].second += term.second; continue; }
      auto iv = R->mono_ival(term.first);
      if (!std::isfinite(iv.lo) || !std::isfinite(iv.hi)) return false;
      mpq_class l = term.second*mpq_class(iv.lo), h = term.second*mpq_class(iv.hi);
      auto& e = g[k++%16]; e.first += l < h ? l : h; e.second += l < h ? h : l;
    }
    std::vector<z3::expr> cs; z3::expr_vector sum(*Z); mpz_class one; mpz_ui_pow_ui(one.get_mpz_t(), 2, 60);
    for (size_t i = 0; i < 16; ++i) {
      mpq_class l = g[i].first*one, h = g[i].second*one; if (l == 0 && h == 0) continue;
      mpz_class fl, ch; mpz_fdiv_q(fl.get_mpz_t(), l.get_num_mpz_t(), l.get_den_mpz_t()); mpz_cdiv_q(ch.get_mpz_t(), h.get_num_mpz_t(), h.get_den_mpz_t());
      mpq_class ql(fl, one), qh(ch, one); ql.canonicalize(); qh.canonicalize();
      z3::expr v = Z->real_const(("mono!" + std::to_string(i)).c_str());
      cs.push_back(v >= R->num(ql)); cs.push_back(v <= R->num(qh)); sum.push_back(v);
    }
    z3::expr s = sum.size() ? z3::sum(sum) : R->num(0);
    z3::expr b = R->num(mpq_class(t));
    cs.push_back(s > b || s < -b);
    return solve(cs, rl_assert) == UNSAT_;
  };
  if (R->polys[p].t.size() < 3000 && by_monomials(p, tol)) { ++sh->proved; ++sh->linear_proved; return; }
  // rational normal form
  std::vector<u32> den; u32 n;
  if (R->numerator(p, n, 20000, &den)) {
    double dlo = 1;
    for (auto a : den) { auto& A = R->atoms[a]; double l = A.lo > 0 ? A.lo : A.hi < 0 ? -A.hi : 0; dlo *= l; }
    bool zero = R->polys[n].t.empty();
    if (zero || (dlo > 0 && std::isfinite(dlo) && R->polys[n].t.size() < 3000 && by_monomials(n, tol*dlo*(1 - 1e-10)))) {
      if (zero) { std::vector<z3::expr> cs {R->num(0) > T}; solve(cs, rl_assert); }
      ++sh->proved; ++sh->numer_proved; return;
    }
  }
  std::map<unsigned, z3::expr> m;
  Res r = UNK_;
  for (auto w : witnesses()) {
    double v; try { v = w_poly(*w, p); } catch (Wit_unknown&) { continue; }
    if (std::abs(v) > std::max(1e-3, 10*tol)) { // a concrete point of this path: the solver gets it as an equation
      bool have = full_model({}, m);
      for (auto& in : *INPUTS) if (in.kind == 'r') { unsigned id = Z3_get_ast_id(*Z, in.c); m.erase(id); z3::expr q = R->num(mpq_class(w_atom(*w, in.atom))); keep->push_back(q); m.insert({id, q}); }
      violation("near", msg, &m, have); return;
    }
  }
  z3::expr z = R->z(p);
  if (R->polys[p].t.size() < 400) {
    z3::expr big = R->num(mpq_class(std::max(1e-3, 10*tol)));
    z3::expr c1 = (z > big || z < -big);
    r = feasible(c1, rl_branch);
    bool have = false;
    if (r == SAT_) { have = full_model({c1}, m); violation("near", msg, &m, have); return; }
    z3::expr c2 = (z > T || z < -T);
    r = feasible(c2, rl_assert);
    if (r == UNSAT_) { ++sh->proved; ++sh->nra_proved; return; }
    have = r == SAT_ && full_model({c2}, m);
    violation(r == SAT_ ? "near" : "undecided", msg + " : " + R->str(p, 6), &m, have);
    return;
  }
  violation("undecided", msg + " : " + R->str(p, 6), nullptr, false);
}

// ------------------------------------------------------------------ bytecode
enum Op : uint16_t {
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FNEG,
  O_ICMP, O_FCMP, O_TRUNC_, O_ZEXT, O_SEXT, O_FPTOSI, O_FPTOUI, O_SITOFP, O_UITOFP, O_FPMOVE32, O_FPTO32, O_FPTO64,
  O_MOV, O_SELECT, O_LOAD, O_STORE, O_GEP, O_ALLOCA, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_UNREACH, O_LPAD, O_RESUME, O_INTRIN, O_BITF2I,
};
struct Ins { uint16_t op; uint16_t w, w2; u8 fp; int32_t d, a, b, c; u64 imm; void* p; const Instruction* src; };
struct Edge { u32 target; std::vector<std::pair<int, int>> moves; };
struct SwitchInfo { std::vector<std::pair<u64, u32>> cases; u32 def; };
struct GepInfo { std::vector<std::tuple<int, unsigned, int64_t>> idx; };
struct Arg { int slot; unsigned n; u8 fp; u8 w; u64 byval; std::vector<unsigned> ws; std::vector<u8> fps; };
struct FInfo;
struct CallInfo {
  const Function* f = nullptr; FInfo* fi = nullptr; int callee = 0; std::vector<Arg> args; std::vector<unsigned> retw; std::vector<u8> retfp;
  bool invoke = false, variadic = false; unsigned nfixed = 0; u32 norm = 0, unw = 0; std::string name; void* native = nullptr; int builtin = -1; unsigned intrin = 0; int d = 0;
};
struct LpadInfo { bool cleanup; std::vector<std::pair<bool, std::vector<u64>>> clauses; }; // (is_catch, type infos)
struct FInfo {
  const Function* f; std::vector<Ins> code; std::vector<Edge> edges; unsigned nregs = 0, nargs = 0; std::vector<unsigned> arg_slot, arg_n; bool ready = false; bool entered = false;
};
struct Frame { FInfo* f; Val* r; u32 pc; u64 stack_mark; CallInfo* call; u64 va_area; };

static Module* M; static const DataLayout* DL;
static std::unordered_map<const Function*, FInfo*> finfos;
static std::unordered_map<u64, const Function*> addr2fn;
static std::unordered_map<const GlobalValue*, u64> gaddr;
static std::vector<Val> pool; 
static std::vector<Frame> frames; static Val* regs_base; static Val* regs_top; static Val* regs_end;
static std::set<std::string>* repo_fns;
static Ins* cur_ins = nullptr;

static std::string loc_of(const Instruction* i)
{
  if (!i) return "?";
  std::string s;
  if (auto* d = i->getDebugLoc().get()) s = d->getFilename().str() + ":" + std::to_string(d->getLine());
  return s + " in " + i->getFunction()->getName().str();
}
static std::string cur_loc()
{
  std::string s = cur_ins ? loc_of(cur_ins->src) : "?";
  for (int i = (int) frames.size() - 2, n = 0; i >= 0 && n < 3; --i, ++n) s += " < " + frames[i].f->f->getName().str();
  return s;
}

// flattened layout of a first-class type
struct Leaf { Type* t; u64 off; };
static void flatten(Type* t, std::vector<Leaf>& out, u64 off = 0)
{
  if (auto* s = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); ++i) flatten(s->getElementType(i), out, off + L->getElementOffset(i)); }
  else if (auto* a = dyn_cast<ArrayType>(t)) { u64 sz = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); ++i) flatten(a->getElementType(), out, off + i*sz); }
  else if (auto* v = dyn_cast<FixedVectorType>(t)) { u64 sz = DL->getTypeSizeInBits(v->getElementType())/8; if (!sz) sz = 1; for (u64 i = 0; i < v->getNumElements(); ++i) flatten(v->getElementType(), out, off + i*sz); }
  else if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) {
    // wide integers as little-endian 64 bit limbs
    unsigned w = t->getIntegerBitWidth();
    for (unsigned i = 0; i < (w + 63)/64; ++i) out.push_back({Type::getInt64Ty(t->getContext()), off + 8*i});
  }
  else if (!t->isVoidTy()) out.push_back({t, off});
}
static std::vector<Leaf> leaves(Type* t) { std::vector<Leaf> v; flatten(t, v); return v; }
static unsigned nleaves(Type* t) { return leaves(t).size(); }
static bool isfp(Type* t) { return t->isDoubleTy() || t->isFloatTy(); }
static unsigned width(Type* t)
{
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy() || t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isX86_FP80Ty()) return 80;
  throw Unsupported{"type"};
}

// ---- constants
static u64 global_addr(const GlobalValue* g);
static Val const_scalar(const Constant* c)
{
  if (auto* i = dyn_cast<ConstantInt>(c)) return {i->getValue().getZExtValue(), 0};
  if (auto* f = dyn_cast<ConstantFP>(c)) {
    if (f->getType()->isDoubleTy() ) return {f->getValueAPF().bitcastToAPInt().getZExtValue(), 0};
    if (f->getType()->isFloatTy()) return {bits((double) f->getValueAPF().convertToFloat()), 0}; // floats are kept as doubles in registers
    throw Unsupported{"long double constant"};
  }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return {0, 0};
  if (auto* g = dyn_cast<GlobalValue>(c)) return {global_addr(g), 0};
  if (auto* e = dyn_cast<ConstantExpr>(c)) {
    switch (e->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (!cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off)) throw Unsupported{"constant gep"};
        return {const_scalar(e->getOperand(0)).b + off.getZExtValue(), 0};
      }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::ZExt: {
        Val v = const_scalar(e->getOperand(0)); v.b &= mask(width(e->getType())); return v; }
      case Instruction::Trunc: { Val v = const_scalar(e->getOperand(0)); v.b &= mask(width(e->getType())); return v; }
      case Instruction::Add: return {const_scalar(e->getOperand(0)).b + const_scalar(e->getOperand(1)).b, 0};
      case Instruction::Sub: return {(const_scalar(e->getOperand(0)).b - const_scalar(e->getOperand(1)).b) & mask(width(e->getType())), 0};
      case Instruction::ICmp: { u64 a = const_scalar(e->getOperand(0)).b, b = const_scalar(e->getOperand(1)).b; auto p = e->getPredicate(); if (p == ICmpInst::ICMP_EQ) return {a == b, 0}; if (p == ICmpInst::ICMP_NE) return {a != b, 0}; break; }
      case Instruction::Select: return const_scalar(e->getOperand(const_scalar(e->getOperand(0)).b ? 1 : 2));
      default: break;
    }
  }
  std::string s; raw_string_ostream o(s); c->print(o);
  throw Unsupported{"constant " + o.str()};
}
static void const_leaves(const Constant* c, std::vector<Val>& out)
{
  Type* t = c->getType();
  if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) {
    unsigned n = (t->getIntegerBitWidth() + 63)/64;
    if (auto* i = dyn_cast<ConstantInt>(c)) for (unsigned k = 0; k < n; ++k) out.push_back({i->getValue().extractBits(std::min(64u, t->getIntegerBitWidth() - 64*k), 64*k).getZExtValue(), 0});
    else for (unsigned k = 0; k < n; ++k) out.push_back({0, 0});
    return;
  }
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { unsigned n = nleaves(t); for (unsigned i = 0; i < n; ++i) out.push_back({0, 0}); return; }
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; ++i) const_leaves(c->getAggregateElement(i), out);
    return;
  }
  out.push_back(const_scalar(c));
}
static void write_const(u64 a, const Constant* c)
{
  Type* t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { memset((void*) a, 0, DL->getTypeStoreSize(t)); return; }
  if (t->isX86_FP80Ty()) { auto v = cast<ConstantFP>(c)->getValueAPF().bitcastToAPInt(); u64 lo = v.extractBits(64, 0).getZExtValue(), hi = v.extractBits(16, 64).getZExtValue(); memcpy((void*) a, &lo, 8); memcpy((void*) (a + 8), &hi, 2); return; }
  if (auto* d = dyn_cast<ConstantDataSequential>(c)) { memcpy((void*) a, d->getRawDataValues().data(), d->getRawDataValues().size()); return; }
  std::vector<Leaf> ls = leaves(t); std::vector<Val> vs; const_leaves(c, vs);
  for (size_t i = 0; i < ls.size(); ++i) {
    if (ls[i].t->isFloatTy()) { float f = dbl(vs[i].b); memcpy((void*) (a + ls[i].off), &f, 4); }
    else memcpy((void*) (a + ls[i].off), &vs[i].b, (width(ls[i].t) + 7)/8);
  }
}
static std::vector<const GlobalVariable*> pending_init;
static u64 global_addr(const GlobalValue* g)
{
  auto it = gaddr.find(g);
  if (it != gaddr.end()) return it->second;
  u64 a = 0;
  if (auto* al = dyn_cast<GlobalAlias>(g)) { a = const_scalar(al->getAliasee()).b; gaddr[g] = a; if (auto* f = dyn_cast<Function>(al->getAliaseeObject())) addr2fn[a] = f; return a; }
  if (auto* f = dyn_cast<Function>(g)) {
    if (f->isDeclaration()) {
      a = u64(dlsym(RTLD_DEFAULT, f->getName().str().c_str()));
      if (!a) a = heap_alloc(16);
    } else a = heap_alloc(16);
    if (!f->isDeclaration()) set_invalid(a, 16);
    addr2fn[a] = f;
  } else {
    auto* v = cast<GlobalVariable>(g);
    u64 sz = DL->getTypeAllocSize(v->getValueType());
    if (v->isDeclaration()) {
      a = u64(dlsym(RTLD_DEFAULT, v->getName().str().c_str()));
      if (!a) { if (v->getName() == "__dso_handle" || v->hasExternalWeakLinkage()) a = heap_alloc(8); else throw Unsupported{"unresolved global " + v->getName().str()}; }
    } else {
      u64 al = std::max<u64>(16, v->getAlign() ? v->getAlign()->value() : 16);
      a = (glob_top + 32 + al - 1)/al*al; glob_top = (a + sz + 15)/16*16;
      set_valid(a, sz); memset((void*) a, 0, sz);
      pending_init.push_back(v);
    }
  }
  gaddr[g] = a;
  return a;
}

// ---- decoding
struct Decoder {
  FInfo* fi; const Function* f;
  std::unordered_map<const Value*, int> slot; std::unordered_map<const BasicBlock*, u32> start;
  std::vector<std::pair<u32, const BasicBlock*>> fix; // edge index -> target block
  int ns = 0;
  int constant(const Constant* c)
  {
    std::vector<Val> v; const_leaves(c, v);
    int base = pool.size();
    for (auto& x : v) pool.push_back(x);
    if (v.empty()) pool.push_back({0, 0});
    return ~base;
  }
  int op(const Value* v)
  {
    if (auto* c = dyn_cast<Constant>(v)) return constant(c);
    auto it = slot.find(v);
    if (it == slot.end()) { if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return ~0; throw Unsupported{"operand"}; }
    return it->second;
  }
  static int nth(int s, int k) { return s >= 0 ? s + k : s - k; }
  Ins& emit(Op o, const Instruction* src) { Ins i {}; i.op = o; i.src = src; fi->code.push_back(i); return fi->code.back(); }
  u32 edge(const BasicBlock* from, const BasicBlock* to)
  {
    Edge e; e.target = 0;
    for (auto& phi : to->phis()) {
      int idx = phi.getBasicBlockIndex(from); int s = op(phi.getIncomingValue(idx)); unsigned n = nleaves(phi.getType());
      for (unsigned k = 0; k < n; ++k) e.moves.push_back({slot[&phi] + k, nth(s, k)});
    }
    fi->edges.push_back(e); fix.push_back({(u32) fi->edges.size() - 1, to});
    return fi->edges.size() - 1;
  }
  void call(const CallBase& cb)
  {
    if (cb.isInlineAsm()) {
      auto* ia = cast<InlineAsm>(cb.getCalledOperand());
      if (ia->getAsmString().empty() && cb.getType()->isVoidTy()) return;
      if (ia->getAsmString().empty() || ia->getAsmString()[0] == '#') { // compiler barriers: pass operands through
        unsigned n = nleaves(cb.getType());
        if (n && cb.arg_size()) for (unsigned k = 0; k < n; ++k) { auto& i = emit(O_MOV, &cb); i.d = slot[&cb] + k; i.a = nth(op(cb.getArgOperand(0)), k); }
        return;
      }
      throw Unsupported{"inline asm " + std::string(ia->getAsmString())};
    }
    const Function* callee = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts());
    if (auto* ga = dyn_cast<GlobalAlias>(cb.getCalledOperand())) callee = dyn_cast<Function>(ga->getAliaseeObject());
    if (callee && callee->isIntrinsic()) {
      switch (callee->getIntrinsicID()) {
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
        case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::vaend: case Intrinsic::dbg_assign: case Intrinsic::stackrestore:
          if (isa<InvokeInst>(cb)) { auto& i = emit(O_BR, &cb); u32 e = edge(cb.getParent(), cast<InvokeInst>(cb).getNormalDest()); fi->code.back().imm = e; (void) i; }
          return;
        default: break;
      }
    }
    auto* ci = new CallInfo;
    ci->f = callee; ci->callee = callee ? 0 : op(cb.getCalledOperand()); ci->variadic = cb.getFunctionType()->isVarArg(); ci->nfixed = cb.getFunctionType()->getNumParams();
    if (callee) { ci->name = callee->getName().str(); if (callee->isIntrinsic()) ci->intrin = callee->getIntrinsicID(); }
    for (unsigned i = 0; i < cb.arg_size(); ++i) {
      Type* t = cb.getArgOperand(i)->getType();
      Arg a {};
      if (t->isMetadataTy()) { ci->args.push_back(a); continue; }
      a.slot = op(cb.getArgOperand(i));
      for (auto& l : leaves(t)) { if (l.t->isX86_FP80Ty()) throw Unsupported{"long double argument"}; a.ws.push_back(width(l.t)); a.fps.push_back(isfp(l.t) ? (l.t->isFloatTy() ? 2 : 1) : 0); }
      a.n = a.ws.size(); a.fp = a.n ? a.fps[0] : 0; a.w = a.n ? a.ws[0] : 0;
      if (cb.isByValArgument(i)) a.byval = DL->getTypeAllocSize(cb.getParamByValType(i));
      ci->args.push_back(a);
    }
    for (auto& l : leaves(cb.getType())) { ci->retw.push_back(width(l.t)); ci->retfp.push_back(isfp(l.t) ? (l.t->isFloatTy() ? 2 : 1) : 0); }
    ci->d = ci->retw.size() ? slot[&cb] : 0;
    if (auto* inv = dyn_cast<InvokeInst>(&cb)) { ci->invoke = true; ci->norm = edge(cb.getParent(), inv->getNormalDest()); ci->unw = edge(cb.getParent(), inv->getUnwindDest()); }
    auto& i = emit(ci->intrin ? O_INTRIN : O_CALL, &cb);
    i.p = ci;
  }
  void run()
  {
    for (auto& a : f->args()) { slot[&a] = ns; fi->arg_slot.push_back(ns); unsigned n = nleaves(a.getType()); fi->arg_n.push_back(n); ns += n; }
    for (auto& b : *f) for (auto& i : b) if (!i.getType()->isVoidTy()) { slot[&i] = ns; ns += std::max(1u, nleaves(i.getType())); }
    for (auto& b : *f) { start[&b] = fi->code.size(); for (auto& i : b) ins(i); }
    for (auto& p : fix) fi->edges[p.first].target = start[p.second];
    fi->nregs = ns;
  }
  void ins(const Instruction& I)
  {
    int d = I.getType()->isVoidTy() ? 0 : slot[&I];
    auto scalar_type = [](Type* t){ return t->isVectorTy() ? cast<VectorType>(t)->getElementType() : t; };
    if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
      Type* t = scalar_type(I.getType()); unsigned n = nleaves(I.getType());
      if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) {
        // limited support for wide integers: bitwise operations, and shifts by multiples of 64
        int x = op(bo->getOperand(0)), y = op(bo->getOperand(1));
        Op o; bool bit = true;
        switch (bo->getOpcode()) { case Instruction::And: o = O_AND; break; case Instruction::Or: o = O_OR; break; case Instruction::Xor: o = O_XOR; break; default: bit = false; o = O_MOV; }
        if (bit) { for (unsigned k = 0; k < n; ++k) { auto& i = emit(o, &I); i.w = 64; i.d = d + k; i.a = nth(x, k); i.b = nth(y, k); } return; }
        if (auto* c = dyn_cast<ConstantInt>(bo->getOperand(1))) if (c->getZExtValue()%64 == 0) {
          int s = c->getZExtValue()/64; 
          for (unsigned k = 0; k < n; ++k) {
            int src = bo->getOpcode() == Instruction::Shl ? int(k) - s : int(k) + s;
            auto& i = emit(O_MOV, &I); i.d = d + k;
            if (src >= 0 && src < int(n)) i.a = nth(x, src); else { pool.push_back({0, 0}); fi->code.back().a = ~int(pool.size() - 1); }
          }
          return;
        }
        if (bo->getOpcode() == Instruction::Mul && n == 2) { auto& i = emit(O_MUL, &I); i.w = 128; i.d = d; i.a = x; i.b = y; return; }
        throw Unsupported{"wide integer arithmetic"};
      }
      Op o;
      switch (bo->getOpcode()) {
        case Instruction::Add: o = O_ADD; break; case Instruction::Sub: o = O_SUB; break; case Instruction::Mul: o = O_MUL; break;
        case Instruction::UDiv: o = O_UDIV; break; case Instruction::SDiv: o = O_SDIV; break; case Instruction::URem: o = O_UREM; break; case Instruction::SRem: o = O_SREM; break;
        case Instruction::Shl: o = O_SHL; break; case Instruction::LShr: o = O_LSHR; break; case Instruction::AShr: o = O_ASHR; break;
        case Instruction::And: o = O_AND; break; case Instruction::Or: o = O_OR; break; case Instruction::Xor: o = O_XOR; break;
        case Instruction::FAdd: o = O_FADD; break; case Instruction::FSub: o = O_FSUB; break; case Instruction::FMul: o = O_FMUL; break; case Instruction::FDiv: o = O_FDIV; break; case Instruction::FRem: o = O_FREM; break;
        default: throw Unsupported{"binary operator"};
      }
      int x = op(bo->getOperand(0)), y = op(bo->getOperand(1)); unsigned w = width(t);
      for (unsigned k = 0; k < n; ++k) { auto& i = emit(o, &I); i.w = w; i.d = d + k; i.a = nth(x, k); i.b = nth(y, k); }
      return;
    }
    switch (I.getOpcode()) {
      case Instruction::FNeg: { unsigned n = nleaves(I.getType()); int x = op(I.getOperand(0)); for (unsigned k = 0; k < n; ++k) { auto& i = emit(O_FNEG, &I); i.d = d + k; i.a = nth(x, k); } return; }
      case Instruction::ICmp: case Instruction::FCmp: {
        auto& c = cast<CmpInst>(I); Type* t = scalar_type(c.getOperand(0)->getType()); unsigned n = nleaves(I.getType());
        if (t->isX86_FP80Ty()) throw Unsupported{"long double"};
        int x = op(c.getOperand(0)), y = op(c.getOperand(1));
        if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) {
          if (c.getPredicate() != CmpInst::ICMP_EQ && c.getPredicate() != CmpInst::ICMP_NE) throw Unsupported{"wide compare"};
          unsigned m = nleaves(c.getOperand(0)->getType()); int tmp = ns; ns += m;
          for (unsigned k = 0; k < m; ++k) { auto& i = emit(O_ICMP, &I); i.w = 64; i.imm = c.getPredicate(); i.d = tmp + k; i.a = nth(x, k); i.b = nth(y, k); }
          for (unsigned k = 0; k < m; ++k) { auto& i = emit(k ? (c.getPredicate() == CmpInst::ICMP_EQ ? O_AND : O_OR) : O_MOV, &I); i.w = 1; i.d = d; i.a = k ? d : tmp; i.b = tmp + k; }
          return;
        }
        for (unsigned k = 0; k < n; ++k) { auto& i = emit(I.getOpcode() == Instruction::ICmp ? O_ICMP : O_FCMP, &I); i.w = width(t); i.imm = c.getPredicate(); i.d = d + k; i.a = nth(x, k); i.b = nth(y, k); }
        return;
      }
      case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPTrunc: case Instruction::FPExt:
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
        Type* st = scalar_type(I.getOperand(0)->getType()); Type* dt = scalar_type(I.getType()); int x = op(I.getOperand(0)); unsigned n = nleaves(I.getType());
        if (st->isX86_FP80Ty() || dt->isX86_FP80Ty()) throw Unsupported{"long double"};
        bool wide = (st->isIntegerTy() && st->getIntegerBitWidth() > 64) || (dt->isIntegerTy() && dt->getIntegerBitWidth() > 64);
        if (wide) {
          unsigned sn = nleaves(I.getOperand(0)->getType());
          if (I.getOpcode() == Instruction::Trunc || I.getOpcode() == Instruction::ZExt || (I.getOpcode() == Instruction::BitCast && n == sn) || I.getOpcode() == Instruction::Freeze) {
            for (unsigned k = 0; k < n; ++k) {
              if (k < sn) {
                unsigned sw = st->isIntegerTy() && sn == 1 ? width(st) : 64, dw = n == 1 ? width(dt) : 64;
                auto& i = emit(dw < 64 ? O_TRUNC_ : sw < 64 ? O_ZEXT : O_MOV, &I); i.w = sw; i.w2 = dw; i.d = d + k; i.a = nth(x, k);
              } else { pool.push_back({0, 0}); auto& i = emit(O_MOV, &I); i.d = d + k; i.a = ~int(pool.size() - 1); }
            }
            return;
          }
          throw Unsupported{"wide cast"};
        }
        Op o = O_MOV;
        switch (I.getOpcode()) {
          case Instruction::Trunc: o = O_TRUNC_; break; case Instruction::ZExt: o = O_ZEXT; break; case Instruction::SExt: o = O_SEXT; break;
          case Instruction::FPToSI: o = O_FPTOSI; break; case Instruction::FPToUI: o = O_FPTOUI; break; case Instruction::SIToFP: o = O_SITOFP; break; case Instruction::UIToFP: o = O_UITOFP; break;
          case Instruction::FPTrunc: o = O_FPTO32; break;
          case Instruction::FPExt: o = O_MOV; break;
          case Instruction::BitCast:
            if (nleaves(I.getOperand(0)->getType()) != n) throw Unsupported{"bitcast of different shape"};
            if (st->isFloatTy() != dt->isFloatTy()) { o = st->isFloatTy() ? O_FPTO32 : O_FPMOVE32; if (st->isFloatTy()) o = O_BITF2I; }
            break;
          default: break;
        }
        for (unsigned k = 0; k < n; ++k) { auto& i = emit(o, &I); i.w = width(st); i.w2 = width(dt); i.d = d + k; i.a = nth(x, k); }
        return;
      }
      case Instruction::Select: {
        unsigned n = nleaves(I.getType()); auto& s = cast<SelectInst>(I); int c = op(s.getCondition()), x = op(s.getTrueValue()), y = op(s.getFalseValue()); bool vc = s.getCondition()->getType()->isVectorTy();
        auto ls = leaves(I.getType());
        for (unsigned k = 0; k < n; ++k) { auto& i = emit(O_SELECT, &I); i.w = width(ls[k].t); i.fp = isfp(ls[k].t); i.d = d + k; i.a = vc ? nth(c, k) : c; i.b = nth(x, k); i.c = nth(y, k); }
        return;
      }
      case Instruction::ExtractValue: { auto& e = cast<ExtractValueInst>(I); unsigned off = agg_off(e.getAggregateOperand()->getType(), e.getIndices()); unsigned n = nleaves(I.getType()); int x = op(e.getAggregateOperand()); for (unsigned k = 0; k < n; ++k) { auto& i = emit(O_MOV, &I); i.d = d + k; i.a = nth(x, off + k); } return; }
      case Instruction::InsertValue: {
        auto& e = cast<InsertValueInst>(I); unsigned off = agg_off(e.getType(), e.getIndices()); unsigned n = nleaves(I.getType()), m = nleaves(e.getInsertedValueOperand()->getType()); int x = op(e.getAggregateOperand()), y = op(e.getInsertedValueOperand());
        for (unsigned k = 0; k < n; ++k) { auto& i = emit(O_MOV, &I); i.d = d + k; i.a = k >= off && k < off + m ? nth(y, k - off) : nth(x, k); } return; }
      case Instruction::ExtractElement: { auto* c = dyn_cast<ConstantInt>(I.getOperand(1)); if (!c) throw Unsupported{"variable extractelement"}; auto& i = emit(O_MOV, &I); i.d = d; i.a = nth(op(I.getOperand(0)), c->getZExtValue()); return; }
      case Instruction::InsertElement: { auto* c = dyn_cast<ConstantInt>(I.getOperand(2)); if (!c) throw Unsupported{"variable insertelement"}; unsigned n = nleaves(I.getType()); int x = op(I.getOperand(0)), y = op(I.getOperand(1)); for (unsigned k = 0; k < n; ++k) { auto& i = emit(O_MOV, &I); i.d = d + k; i.a = k == c->getZExtValue() ? y : nth(x, k); } return; }
      case Instruction::ShuffleVector: { auto& s = cast<ShuffleVectorInst>(I); unsigned m = nleaves(s.getOperand(0)->getType()); int x = op(s.getOperand(0)), y = op(s.getOperand(1)); unsigned k = 0; for (int q : s.getShuffleMask()) { auto& i = emit(O_MOV, &I); i.d = d + k++; i.a = q < 0 ? nth(x, 0) : q < int(m) ? nth(x, q) : nth(y, q - m); } return; }
      case Instruction::Load: case Instruction::Store: {
        bool ld = I.getOpcode() == Instruction::Load; Type* t = ld ? I.getType() : I.getOperand(0)->getType(); int ptr = op(ld ? cast<LoadInst>(I).getPointerOperand() : cast<StoreInst>(I).getPointerOperand()); int v = ld ? d : op(I.getOperand(0));
        auto ls = leaves(t);
        for (unsigned k = 0; k < ls.size(); ++k) {
          if (ls[k].t->isX86_FP80Ty()) throw Unsupported{"long double"};
          auto& i = emit(ld ? O_LOAD : O_STORE, &I); i.w = width(ls[k].t); i.fp = ls[k].t->isFloatTy() ? 2 : ls[k].t->isDoubleTy(); i.imm = ls[k].off; i.a = ptr; if (ld) i.d = v + k; else i.b = nth(v, k);
          // the address register may be overwritten by the first leaf only if it is the same slot: impossible in SSA
        }
        return;
      }
      case Instruction::GetElementPtr: {
        auto& g = cast<GetElementPtrInst>(I);
        if (I.getType()->isVectorTy()) throw Unsupported{"vector gep"};
        auto* gi = new GepInfo; int64_t off = 0;
        for (auto it = gep_type_begin(g); it != gep_type_end(g); ++it) {
          Value* ixv = it.getOperand();
          if (auto* s = it.getStructTypeOrNull()) { off += DL->getStructLayout(s)->getElementOffset(cast<ConstantInt>(ixv)->getZExtValue()); continue; }
          int64_t sz = DL->getTypeAllocSize(it.getIndexedType());
          if (auto* c = dyn_cast<ConstantInt>(ixv)) off += sz*c->getSExtValue();
          else gi->idx.push_back({op(ixv), width(ixv->getType()), sz});
        }
        auto& i = emit(O_GEP, &I); i.d = d; i.a = op(g.getPointerOperand()); fi->code.back().imm = off; fi->code.back().p = gi; fi->code.back().d = d; fi->code.back().a = op(g.getPointerOperand()); (void) i;
        return;
      }
      case Instruction::Alloca: { auto& a = cast<AllocaInst>(I); auto& i = emit(O_ALLOCA, &I); i.d = d; i.imm = DL->getTypeAllocSize(a.getAllocatedType()); i.c = a.getAlign().value(); int x = op(a.getArraySize()); fi->code.back().a = x; fi->code.back().w = width(a.getArraySize()->getType()); return; }
      case Instruction::Br: {
        auto& b = cast<BranchInst>(I);
        if (b.isUnconditional()) { u32 e = edge(I.getParent(), b.getSuccessor(0)); emit(O_BR, &I).imm = e; }
        else { u32 e1 = edge(I.getParent(), b.getSuccessor(0)), e2 = edge(I.getParent(), b.getSuccessor(1)); int c = op(b.getCondition()); auto& i = emit(O_CBR, &I); i.a = c; i.imm = e1; i.c = e2; }
        return;
      }
      case Instruction::Switch: { auto& s = cast<SwitchInst>(I); auto* si = new SwitchInfo; for (auto& c : s.cases()) si->cases.push_back({c.getCaseValue()->getZExtValue(), edge(I.getParent(), c.getCaseSuccessor())}); si->def = edge(I.getParent(), s.getDefaultDest()); int c = op(s.getCondition()); auto& i = emit(O_SWITCH, &I); i.a = c; i.w = width(s.getCondition()->getType()); i.p = si; return; }
      case Instruction::Ret: { int v = I.getNumOperands() ? op(I.getOperand(0)) : 0; unsigned n = I.getNumOperands() ? nleaves(I.getOperand(0)->getType()) : 0; auto& i = emit(O_RET, &I); i.a = v; i.w = n; return; }
      case Instruction::Unreachable: emit(O_UNREACH, &I); return;
      case Instruction::PHI: return;
      case Instruction::Call: call(cast<CallBase>(I)); return;
      case Instruction::Invoke: call(cast<CallBase>(I)); return;
      case Instruction::LandingPad: {
        auto& l = cast<LandingPadInst>(I); auto* li = new LpadInfo; li->cleanup = l.isCleanup();
        for (unsigned k = 0; k < l.getNumClauses(); ++k) {
          std::vector<Val> v;
          if (l.isCatch(k)) { v.push_back(const_scalar(l.getClause(k))); } else { if (!isa<ConstantAggregateZero>(l.getClause(k)) && l.getClause(k)->getType()->getArrayNumElements()) const_leaves(l.getClause(k), v); }
          std::vector<u64> t; for (auto& x : v) t.push_back(x.b);
          li->clauses.push_back({l.isCatch(k), t});
        }
        auto& i = emit(O_LPAD, &I); i.d = d; i.p = li; return;
      }
      case Instruction::Resume: { int v = op(I.getOperand(0)); emit(O_RESUME, &I).a = v; return; }
      case Instruction::AtomicRMW: {
        auto& a = cast<AtomicRMWInst>(I); unsigned w = width(I.getType()); int p = op(a.getPointerOperand()), v = op(a.getValOperand());
        int tmp = ns++;
        { auto& i = emit(O_LOAD, &I); i.w = w; i.a = p; i.d = d; }
        Op o = O_MOV; switch (a.getOperation()) { case AtomicRMWInst::Add: o = O_ADD; break; case AtomicRMWInst::Sub: o = O_SUB; break; case AtomicRMWInst::And: o = O_AND; break; case AtomicRMWInst::Or: o = O_OR; break; case AtomicRMWInst::Xchg: o = O_MOV; break; default: throw Unsupported{"atomicrmw"}; }
        { auto& i = emit(o, &I); i.w = w; i.d = tmp; i.a = o == O_MOV ? v : d; i.b = v; }
        { auto& i = emit(O_STORE, &I); i.w = w; i.a = p; i.b = tmp; }
        return;
      }
      case Instruction::AtomicCmpXchg: {
        auto& a = cast<AtomicCmpXchgInst>(I); unsigned w = width(a.getCompareOperand()->getType()); int p = op(a.getPointerOperand()), c = op(a.getCompareOperand()), n = op(a.getNewValOperand()); int tmp = ns++;
        { auto& i = emit(O_LOAD, &I); i.w = w; i.a = p; i.d = d; }
        { auto& i = emit(O_ICMP, &I); i.w = w; i.imm = CmpInst::ICMP_EQ; i.d = d + 1; i.a = d; i.b = c; }
        { auto& i = emit(O_SELECT, &I); i.w = w; i.d = tmp; i.a = d + 1; i.b = n; i.c = d; }
        { auto& i = emit(O_STORE, &I); i.w = w; i.a = p; i.b = tmp; }
        return;
      }
      case Instruction::Fence: return;
      default: throw Unsupported{std::string("instruction ") + I.getOpcodeName()};
    }
  }
  static unsigned agg_off(Type* t, ArrayRef<unsigned> ix)
  {
    unsigned off = 0;
    for (unsigned i : ix) {
      if (auto* s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; ++k) off += nleaves(s->getElementType(k)); t = s->getElementType(i); }
      else { auto* a = cast<ArrayType>(t); off += i*nleaves(a->getElementType()); t = a->getElementType(); }
    }
    return off;
  }
};
static void run_inits() { while (pending_init.size()) { auto* v = pending_init.back(); pending_init.pop_back(); if (v->hasInitializer()) write_const(gaddr[v], v->getInitializer()); } }
static FInfo* finfo(const Function* f)
{
  auto*& fi = finfos[f];
  if (!fi) { fi = new FInfo; fi->f = f; }
  if (!fi->ready) {
    Decoder d; d.fi = fi; d.f = f;
    fi->code.clear(); fi->edges.clear(); fi->arg_slot.clear(); fi->arg_n.clear();
    try { d.run(); } catch (Unsupported& u) { throw Unsupported{u.what + " (decoding " + f->getName().str() + ")"}; }
    run_inits();
    fi->ready = true;
  }
  if (!fi->entered) {
    fi->entered = true;
    if (auto* sp = f->getSubprogram()) {
      std::string fn = sp->getFilename().str();
      std::string nm = sp->getName().str();
      logline("{\"k\":\"fn\",\"file\":" + jstr(fn) + ",\"name\":" + jstr(nm) + ",\"line\":" + std::to_string(sp->getLine()) + "}");
    }
  }
  return fi;
}
#include "interp.hpp"
