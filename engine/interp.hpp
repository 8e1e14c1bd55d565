// interpreter loop, library models and driver (included by symx.cpp)

struct PathEnd { std::string kind, msg; };
[[noreturn]] static void mem_error(const std::string& what, u64 a, u64 n)
{
  violation("memory", what, nullptr, false);
  throw PathEnd{"memory-error", what + " at " + cur_loc()};
}

// ------------------------------------------------------------------ memory access
static Val load(u64 a, unsigned w, int fp)
{
  unsigned n = (w + 7)/8;
  if (!valid(a, n)) mem_error("read of invalid memory", a, n);
  if (shadow.any && shadow.has(a, n)) {
    u32 s0 = shadow.at(a); u32 e = s0 >> 3;
    bool whole = s0 && (s0 & 7) == 0;
    for (unsigned i = 1; i < n && whole; ++i) whole = shadow.at(a + i) == ((e << 3) | i);
    if (whole && is_real(e)) { if (n == 8 || fp == 2) return {0x7ff8dead0000beefull, e}; }
    if (whole && !is_real(e)) {
      z3::expr x = (*IX)[e >> 1];
      unsigned xw = x.is_bool() ? 1 : x.get_sort().bv_size();
      if (xw == w) return {0x7ff8dead00000000ull & mask(w), e};
      if (xw > w && xw == 8*((xw + 7)/8)) { z3::expr t = x.extract(w - 1, 0); if (w == 1) return mkint(t == Z->bv_val(1, 1), 1); return mkint(t, w); }
      if (xw == 1 && w == 8) return mkint(z3::ite(x, Z->bv_val(1, 8), Z->bv_val(0, 8)), 8);
    }
    // assemble byte by byte
    z3::expr acc(*Z); bool first = true;
    for (unsigned i = 0; i < n; ++i) {
      u32 s = shadow.at(a + i);
      z3::expr b(*Z);
      if (!s) b = Z->bv_val((unsigned) *(u8*) (a + i), 8);
      else {
        u32 ee = s >> 3; if (is_real(ee)) throw Unsupported{"partial read of a symbolic real"};
        z3::expr x = (*IX)[ee >> 1]; if (x.is_bool()) x = z3::ite(x, Z->bv_val(1, 8), Z->bv_val(0, 8));
        unsigned o = s & 7; unsigned xw = x.get_sort().bv_size();
        if (8*o + 7 >= xw) { if (8*o >= xw) b = Z->bv_val(0, 8); else b = z3::zext(x.extract(xw - 1, 8*o), 8 - (xw - 8*o)); }
        else b = x.extract(8*o + 7, 8*o);
      }
      acc = first ? b : z3::concat(b, acc); first = false;
    }
    if (w == 1) return mkint(acc.extract(0, 0) == Z->bv_val(1, 1), 1);
    if (w < 8*n) acc = acc.extract(w - 1, 0);
    return mkint(acc, w);
  }
  u64 v = 0;
  if (fp == 2) { float f; memcpy(&f, (void*) a, 4); return {bits((double) f), 0}; }
  memcpy(&v, (void*) a, n);
  return {v & mask(w), 0};
}
static std::set<u64>* readonly_pages = nullptr;
static void store(u64 a, unsigned w, int fp, Val v)
{
  unsigned n = (w + 7)/8;
  if (!valid(a, n)) mem_error("write to invalid memory", a, n);
  if (v.s) {
    for (unsigned i = 0; i < n; ++i) shadow.set(a + i, (v.s << 3) | i);
    u64 p = 0x7ff8dead0000beefull; memcpy((void*) a, &p, n);
  } else {
    shadow.clear(a, n);
    if (fp == 2) { float f = dbl(v.b); memcpy((void*) a, &f, 4); }
    else memcpy((void*) a, &v.b, n);
  }
}
static void mem_move(u64 d, u64 s, u64 n)
{
  if (!n) return;
  if (!valid(s, n)) mem_error("copy from invalid memory", s, n);
  if (!valid(d, n)) mem_error("copy to invalid memory", d, n);
  std::vector<u32> t;
  bool sym = shadow.has(s, n);
  if (sym) { t.resize(n); for (u64 i = 0; i < n; ++i) t[i] = shadow.at(s + i); }
  memmove((void*) d, (void*) s, n);
  if (sym) for (u64 i = 0; i < n; ++i) shadow.set(d + i, t[i]);
  else shadow.clear(d, n);
}

// ------------------------------------------------------------------ reals
static bool nonfinite(Val v) { return !v.s && !std::isfinite(dbl(v.b)); }
static int sign_of(u32 p) // -1, 0, 1 or 2 (unknown), by intervals
{
  auto iv = R->ival(p);
  if (iv.lo > 0) return 1;
  if (iv.hi < 0) return -1;
  return 2;
}
static Val fop(unsigned op, Val x, Val y)
{
  if (!x.s && !y.s) {
    double a = dbl(x.b), b = dbl(y.b), r = 0;
    switch (op) { case O_FADD: r = a + b; break; case O_FSUB: r = a - b; break; case O_FMUL: r = a*b; break; case O_FDIV: r = a/b; break; case O_FREM: r = std::fmod(a, b); break; }
    return {bits(r), 0};
  }
  if (nonfinite(x) || nonfinite(y)) {
    double a = x.s ? 0 : dbl(x.b), b = y.s ? 0 : dbl(y.b);
    if (std::isnan(a) || std::isnan(b)) return {bits(NAN), 0};
    if (op == O_FADD) return nonfinite(x) ? x : y;
    if (op == O_FSUB) return nonfinite(x) ? x : Val{bits(-b), 0};
    if (op == O_FDIV && nonfinite(y)) return {bits(0.), 0};
    double inf = nonfinite(x) ? a : b; u32 p = poly(nonfinite(x) ? y : x);
    int s = sign_of(p);
    if (s == 2) { if (branch(R->z(p) == 0)) return {bits(NAN), 0}; s = branch(R->z(p) > 0) ? 1 : -1; }
    return {bits(inf*s), 0};
  }
  u32 a = poly(x), b = poly(y);
  switch (op) {
    case O_FADD: return mkreal(R->add(a, b));
    case O_FSUB: return mkreal(R->sub(a, b));
    case O_FMUL: return mkreal(R->mul(a, b));
    case O_FDIV:
      if (!y.s && dbl(y.b) == 0) { // x/0 with symbolic x
        int s = sign_of(a);
        if (s == 2) { if (branch(R->z(a) == 0)) return {bits(NAN), 0}; s = branch(R->z(a) > 0) ? 1 : -1; }
        return {bits(std::signbit(dbl(y.b)) ? -s*HUGE_VAL : s*HUGE_VAL), 0};
      }
      if (y.s && sign_of(b) == 2) {
        z3::expr zero = (R->z(b) == 0);
        Res zr = feasible(zero, rl_branch);
        if (zr == UNK_) { ++sh->div_assumed; add_pc(!zero); if (getenv("SX_DEBUG")) fprintf(stderr, "divisor assumed nonzero at %s: %s\n", cur_loc().c_str(), R->str(b).c_str()); }
        else if (zr == SAT_ && branch(zero)) {
          if (!x.s && dbl(x.b) == 0) return {bits(NAN), 0};
          int s = sign_of(a);
          if (s == 2) { if (branch(R->z(a) == 0)) return {bits(NAN), 0}; s = branch(R->z(a) > 0) ? 1 : -1; }
          return {bits(s*HUGE_VAL), 0}; // the sign of zero is taken as positive
        }
      }
      return mkreal(R->div(a, b));
    default: throw Unsupported{"frem on symbolic reals"};
  }
}
static Val fcmp(unsigned pred, Val x, Val y)
{
  if (!x.s && !y.s) return {FCmpInst::compare(APFloat(dbl(x.b)), APFloat(dbl(y.b)), (FCmpInst::Predicate) pred), 0};
  if (pred == FCmpInst::FCMP_ORD || pred == FCmpInst::FCMP_UNO) {
    bool nan = (!x.s && std::isnan(dbl(x.b))) || (!y.s && std::isnan(dbl(y.b)));
    return {u64(nan == (pred == FCmpInst::FCMP_UNO)), 0};
  }
  if (pred == FCmpInst::FCMP_TRUE) return {1, 0};
  if (pred == FCmpInst::FCMP_FALSE) return {0, 0};
  if (nonfinite(x) || nonfinite(y)) {
    double a = x.s ? 0 : dbl(x.b), b = y.s ? 0 : dbl(y.b);
    return {FCmpInst::compare(APFloat(a), APFloat(b), (FCmpInst::Predicate) pred), 0};
  }
  u32 d = R->sub(poly(x), poly(y));
  unsigned k = pred & 7; // EQ=1 GT=2 LT=4
  if (R->is_const(d)) { int s = sgn(R->const_val(d)); return {u64((s == 0 && (k & 1)) || (s > 0 && (k & 2)) || (s < 0 && (k & 4))), 0}; }
  auto iv = R->ival(d);
  bool pos = iv.hi > 0, neg = iv.lo < 0, zero = iv.lo <= 0 && iv.hi >= 0;
  bool can_t = (zero && (k & 1)) || (pos && (k & 2)) || (neg && (k & 4));
  bool can_f = (zero && !(k & 1)) || (pos && !(k & 2)) || (neg && !(k & 4));
  if (!can_f) { ++sh->interval_decided; return {1, 0}; }
  if (!can_t) { ++sh->interval_decided; return {0, 0}; }
  // normalise the sign so equal comparisons are identical expressions
  mpq_class lead = R->polys[d].t.back().second;
  mpq_class inv = 1/abs(lead);
  d = R->scale(d, inv);
  z3::expr z = R->z(d);
  switch (k) {
    case 1: return mkint(z == 0, 1); case 2: return mkint(z > 0, 1); case 3: return mkint(z >= 0, 1);
    case 4: return mkint(z < 0, 1); case 5: return mkint(z <= 0, 1); case 6: return mkint(z != 0, 1);
  }
  throw Unsupported{"fcmp predicate"};
}
static Val fselect(Val c, Val x, Val y)
{
  if (!c.s) return c.b & 1 ? x : y;
  if (x.s == y.s && x.b == y.b) return x;
  if (fork_select || nonfinite(x) || nonfinite(y)) return truth(c) ? x : y;
  z3::expr e = ie(c, 1);
  u32 a = poly(x), b = poly(y);
  CONDS->push_back(e);
  // reuse the index of an identical condition
  u32 idx = CONDS->size() - 1;
  for (u32 i = 0; i < idx; ++i) if (z3::eq((*CONDS)[i], e)) { idx = i; CONDS->pop_back(); break; }
  return mkreal(R->ite(idx, a, b));
}
static Val f1(const char* nm, Val x)
{
  std::string n = nm;
  if (!x.s) {
    double a = dbl(x.b);
    double r = n == "sqrt" ? std::sqrt(a) : n == "fabs" ? std::fabs(a) : n == "exp" ? std::exp(a) : n == "log" ? std::log(a) : n == "sin" ? std::sin(a) : n == "cos" ? std::cos(a) : n == "tan" ? std::tan(a)
      : n == "atan" ? std::atan(a) : n == "asin" ? std::asin(a) : n == "acos" ? std::acos(a) : n == "sinh" ? std::sinh(a) : n == "cosh" ? std::cosh(a) : n == "tanh" ? std::tanh(a) : n == "log10" ? std::log10(a) : n == "log2" ? std::log2(a) : n == "exp2" ? std::exp2(a) : n == "cbrt" ? std::cbrt(a)
      : n == "floor" ? std::floor(a) : n == "ceil" ? std::ceil(a) : n == "trunc" ? std::trunc(a) : n == "round" ? std::round(a) : n == "rint" ? std::rint(a) : n == "erf" ? std::erf(a) : throw Unsupported{"function " + n};
    return {bits(r), 0};
  }
  u32 p = poly(x);
  if (n == "fabs") {
    int s = sign_of(p);
    if (R->ival(p).lo >= 0) return x;
    if (s == -1) return mkreal(R->neg(p));
    return fselect(fcmp(FCmpInst::FCMP_OLT, x, {bits(0.), 0}), mkreal(R->neg(p)), x);
  }
  if (n == "sqrt") {
    if (R->ival(p).lo < 0) { if (branch(R->z(p) < 0)) return {bits(NAN), 0}; }
    return mkreal(R->sqrt(p));
  }
  if (n == "floor") return {bits((double) real_floor(p, "floor")), 0};
  if (n == "ceil") return {bits(-(double) real_floor(R->neg(p), "ceil")), 0};
  if (n == "trunc") { double f; if (truth(fcmp(FCmpInst::FCMP_OLT, x, {bits(0.), 0}))) f = -(double) real_floor(R->neg(p), "trunc"); else f = real_floor(p, "trunc"); return {bits(f), 0}; }
  if (n == "round" || n == "rint") return {bits((double) real_floor(R->add(p, R->constant(.5)), "round")), 0};
  double lo = -HUGE_VAL, hi = HUGE_VAL; auto iv = R->ival(p);
  if (n == "exp" || n == "exp2") { lo = 0; if (std::isfinite(iv.lo)) lo = sx::dn(std::exp(iv.lo)*(1 - 1e-12)); if (std::isfinite(iv.hi)) hi = std::exp(iv.hi)*(1 + 1e-12); if (n == "exp2") { lo = 0; hi = HUGE_VAL; } }
  if (n == "sin" || n == "cos") { lo = -1; hi = 1; }
  if (n == "tanh") { lo = -1; hi = 1; }
  if (n == "atan") { lo = -1.5707963267948968; hi = 1.5707963267948968; }
  if (n == "log") { if (iv.lo <= 0) { if (branch(R->z(p) < 0)) return {bits(NAN), 0}; } if (iv.lo > 0) lo = sx::dn(std::log(iv.lo) - 1e-12); if (iv.hi > 0 && std::isfinite(iv.hi)) hi = sx::up(std::log(iv.hi) + 1e-12); }
  return mkreal(R->func(n, {p}, lo, hi));
}
static Val f2(const std::string& n, Val x, Val y)
{
  if (!x.s && !y.s) {
    double a = dbl(x.b), b = dbl(y.b);
    double r = n == "pow" ? std::pow(a, b) : n == "atan2" ? std::atan2(a, b) : n == "fmod" ? std::fmod(a, b) : n == "fmin" ? std::fmin(a, b) : n == "fmax" ? std::fmax(a, b) : n == "hypot" ? std::hypot(a, b) : n == "copysign" ? std::copysign(a, b) : throw Unsupported{"function " + n};
    return {bits(r), 0};
  }
  if (n == "fmin") { if (nonfinite(y) && std::isnan(dbl(y.b))) return x; return fselect(fcmp(FCmpInst::FCMP_OLT, x, y), x, y); }
  if (n == "fmax") { if (nonfinite(y) && std::isnan(dbl(y.b))) return x; return fselect(fcmp(FCmpInst::FCMP_OGT, x, y), x, y); }
  if (n == "hypot") return f1("sqrt", fop(O_FADD, fop(O_FMUL, x, x), fop(O_FMUL, y, y)));
  if (n == "copysign") { Val a = f1("fabs", x); bool neg = y.s ? truth(fcmp(FCmpInst::FCMP_OLT, y, {bits(0.), 0})) : std::signbit(dbl(y.b)); return neg ? fop(O_FSUB, {bits(0.), 0}, a) : a; }
  if (n == "pow" && !y.s) {
    double e = dbl(y.b);
    if (e == std::floor(e) && std::abs(e) <= 16) { if (e < 0 && sign_of(poly(x)) == 2) return fop(O_FDIV, {bits(1.), 0}, mkreal(R->powi(poly(x), -(int) e))); return mkreal(R->powi(poly(x), (int) e)); }
    if (e == .5) return f1("sqrt", x);
    auto iv = R->ival(poly(x));
    double lo = 0, hi = HUGE_VAL;
    if (iv.lo > 0) { double u = std::pow(iv.lo, e), v = std::pow(iv.hi, e); lo = std::min(u, v)*(1 - 1e-12); hi = std::max(u, v)*(1 + 1e-12); }
    return mkreal(R->func("pow", {poly(x), poly(y)}, lo, hi));
  }
  if (n == "pow") return mkreal(R->func("pow", {poly(x), poly(y)}, 0, HUGE_VAL));
  if (n == "atan2") return mkreal(R->func("atan2", {poly(x), poly(y)}, -3.1415926535897936, 3.1415926535897936));
  throw Unsupported{"function " + n + " on symbolic reals"};
}

// ------------------------------------------------------------------ exceptions
struct Exc { u64 obj; std::type_info* ti; u64 adj; };
static std::vector<Exc> caught; static std::map<u64, Exc> in_flight; static Exc cur_exc;
static u64 typeid_for(u64 ti) { static std::map<u64, u64> m; auto& k = m[ti]; if (!k) k = m.size(); return k; }
static bool unwind(); // transfers control to the handler; false if the path ended

// ------------------------------------------------------------------ calls
static Val getv(Val* r, int o) { return o >= 0 ? r[o] : pool[~o]; }
static void push_frame(FInfo* fi, CallInfo* call, const std::vector<Val>& flat, u64 va)
{
  if (frames.size() > 20000) { violation("stack-overflow", "unbounded recursion", nullptr, false); throw PathEnd{"stack-overflow", cur_loc()}; }
  Frame f; f.f = fi; f.r = regs_top; f.pc = 0; f.stack_mark = stack_top; f.call = call; f.va_area = va;
  regs_top += fi->nregs + 4;
  if (regs_top > regs_end) throw Unsupported{"register stack exhausted"};
  memset((void*) f.r, 0, sizeof(Val)*(fi->nregs + 4));
  for (size_t i = 0; i < flat.size() && i < fi->nregs; ++i) f.r[i] = flat[i];
  frames.push_back(f);
}
static void pop_frame()
{
  Frame& f = frames.back();
  if (stack_top > f.stack_mark) { set_invalid(f.stack_mark, stack_top - f.stack_mark); shadow.clear(f.stack_mark, stack_top - f.stack_mark); }
  stack_top = f.stack_mark; regs_top = f.r;
  frames.pop_back();
}
static u64 stack_alloc(u64 n, u64 al)
{
  al = std::max<u64>(al, 16);
  u64 a = (stack_top + 32 + al - 1)/al*al;
  stack_top = (a + n + 15)/16*16;
  if (stack_top > stack_lo + AR_SZ/8) { violation("stack-overflow", "stack exhausted", nullptr, false); throw PathEnd{"stack-overflow", cur_loc()}; }
  set_valid(a, n);
  memset((void*) a, fill_byte, n);
  return a;
}
static bool take_edge(u32 e)
{
  Frame& f = frames.back(); Edge& E = f.f->edges[e];
  if (E.moves.size() == 1) f.r[E.moves[0].first] = getv(f.r, E.moves[0].second);
  else if (E.moves.size()) {
    Val tmp[256]; size_t n = E.moves.size(); if (n > 256) throw Unsupported{"phi block"};
    for (size_t i = 0; i < n; ++i) tmp[i] = getv(f.r, E.moves[i].second);
    for (size_t i = 0; i < n; ++i) f.r[E.moves[i].first] = tmp[i];
  }
  f.pc = E.target;
  return true;
}
static bool unwind()
{
  while (frames.size()) {
    Frame& f = frames.back();
    // the frame is suspended at a call instruction (pc already advanced) or at the throwing call
    Ins& in = f.f->code[f.pc - 1];
    if (in.op == O_CALL) {
      CallInfo* ci = (CallInfo*) in.p;
      if (ci->invoke) {
        u32 save = f.pc; take_edge(ci->unw);
        // find the landing pad and see whether it handles the exception
        Ins& lp = f.f->code[f.pc];
        if (lp.op != O_LPAD) throw Unsupported{"landing pad not first"};
        LpadInfo* li = (LpadInfo*) lp.p;
        int sel = 0; bool handled = false;
        for (auto& c : li->clauses) {
          if (c.first) {
            u64 ti = c.second[0];
            void* adj = (void*) cur_exc.obj;
            if (!ti) { sel = typeid_for(0); handled = true; cur_exc.adj = cur_exc.obj; }
            else {
              auto* T = (std::type_info*) ti;
              if (cur_exc.ti->__is_pointer_p()) adj = *(void**) adj;
              if (T->__do_catch(cur_exc.ti, &adj, 1)) { sel = typeid_for(ti); handled = true; cur_exc.adj = u64(adj); }
            }
          } else {
            bool match = false;
            for (u64 ti : c.second) { void* adj = (void*) cur_exc.obj; if (((std::type_info*) ti)->__do_catch(cur_exc.ti, &adj, 1)) match = true; }
            if (!match) { sel = -1; handled = true; }
          }
          if (handled) break;
        }
        if (handled || li->cleanup) {
          f.r[lp.d] = {cur_exc.obj, 0}; f.r[lp.d + 1] = {u64(u32(sel)), 0};
          in_flight[cur_exc.obj] = cur_exc;
          ++f.pc;
          return true;
        }
        f.pc = save;
      }
    }
    pop_frame();
  }
  std::string tn = cur_exc.ti ? cur_exc.ti->name() : "?";
  int st; char* dm = abi::__cxa_demangle(tn.c_str(), nullptr, nullptr, &st);
  std::string nm = dm ? dm : tn;
  violation("uncaught", "uncaught exception of type " + nm, nullptr, false);
  throw PathEnd{"uncaught", nm};
}

typedef u64 (*NF)(u64, ...); typedef double (*NFD)(u64, ...);
struct Pair { u64 a, b; }; typedef Pair (*NF2)(u64, ...);
struct PairD { double a, b; }; typedef PairD (*NFDD)(u64, ...);
static std::set<std::string> natives_seen;
static const char* cstr_check(u64 a) { u64 n = 0; while (true) { if (!valid(a + n, 1)) mem_error("string read past the end of memory", a, n); if (shadow.at(a + n)) throw Unsupported{"symbolic C string"}; if (!*(char*) (a + n)) break; ++n; } return (const char*) a; }
static void conc_string(u64 a) // make a C string concrete by enumerating its characters
{
  for (u64 n = 0;; ++n) {
    if (!valid(a + n, 1)) mem_error("string read past the end of memory", a, n);
    if (shadow.at(a + n)) { Val v = load(a + n, 8, 0); u64 k = concretize(v, 8); store(a + n, 8, 0, {k, 0}); }
    if (!*(char*) (a + n)) break;
  }
}

static Val icmp(unsigned pred, unsigned w, Val x, Val y);
#include "builtins.hpp"

// performs a call; returns true if control continues normally in the current frame
static void do_call(CallInfo* ci)
{
  Frame& f = frames.back();
  std::vector<Val> flat;
  const Function* fn = ci->f;
  if (!fn) {
    Val c = getv(f.r, ci->callee);
    u64 a = concretize(c, 64);
    auto it = addr2fn.find(a);
    if (it == addr2fn.end()) {
      if (in_arena(a) || a < 4096) mem_error("call of an invalid function pointer", a, 1);
      fn = nullptr; ci->native = (void*) a; 
      Dl_info di; ci->name = dladdr((void*) a, &di) && di.dli_sname ? di.dli_sname : "native";
      ci->builtin = -1;
    } else { fn = it->second; ci->name = fn->getName().str(); ci->native = nullptr; ci->builtin = -1; ci->fi = nullptr; }
  }
  if (ci->builtin == -1) { auto it = builtin_ids().find(ci->name); ci->builtin = it == builtin_ids().end() ? -2 : it->second; }
  if (ci->builtin >= 0) {
    std::vector<Val> args;
    for (auto& a : ci->args) for (unsigned k = 0; k < a.n; ++k) args.push_back(getv(f.r, Decoder::nth(a.slot, k)));
    Val ret[4] {}; 
    bool ok = builtins()[ci->builtin].second(ci, args, ret);
    if (!ok) return; // threw: control already transferred
    for (size_t k = 0; k < ci->retw.size(); ++k) frames.back().r[ci->d + k] = ret[k];
    if (ci->invoke) take_edge(ci->norm);
    return;
  }
  if (fn && !fn->isDeclaration()) {
    FInfo* fi = (ci->fi && ci->fi->f == fn) ? ci->fi : (ci->fi = finfo(fn));
    // arguments
    u64 va = 0; size_t nfix = fn->arg_size();
    u64 mark = stack_top;
    for (size_t i = 0; i < ci->args.size() && i < nfix; ++i) {
      auto& a = ci->args[i];
      if (a.byval) { u64 p = stack_alloc(a.byval, 16); mem_move(p, getv(f.r, a.slot).b, a.byval); flat.push_back({p, 0}); }
      else for (unsigned k = 0; k < a.n; ++k) flat.push_back(getv(f.r, Decoder::nth(a.slot, k)));
    }
    if (fn->isVarArg()) {
      std::vector<Val> vs; std::vector<u8> fps;
      for (size_t i = nfix; i < ci->args.size(); ++i) for (unsigned k = 0; k < ci->args[i].n; ++k) { vs.push_back(getv(f.r, Decoder::nth(ci->args[i].slot, k))); fps.push_back(ci->args[i].fp); }
      va = stack_alloc(8*vs.size() + 8, 16);
      for (size_t i = 0; i < vs.size(); ++i) store(va + 8*i, 64, 0, vs[i].s && !is_real(vs[i].s) ? Val{concretize(vs[i], 64), 0} : vs[i]);
    }
    push_frame(fi, ci, flat, va);
    frames.back().stack_mark = mark;
    return;
  }
  // native call
  if (!ci->native) {
    ci->native = dlsym(RTLD_DEFAULT, ci->name.c_str());
    if (!ci->native) throw Unsupported{"no definition of " + ci->name};
  }
  if (natives_seen.insert(ci->name).second) logline("{\"k\":\"native\",\"name\":" + jstr(ci->name) + "}");
  ++sh->natives;
  u64 iv[6] {}; double fv[8] {}; u64 sv[24] {}; int ni = 0, nf = 0, ns = 0;
  for (auto& a : ci->args) for (unsigned k = 0; k < a.n; ++k) {
    Val v = getv(f.r, Decoder::nth(a.slot, k));
    if (a.byval) throw Unsupported{"byval argument to native " + ci->name};
    if (v.s) {
      if (is_real(v.s)) { if (native_ignores_values(ci->name)) v = {bits(0.), 0}; else throw Unsupported{"symbolic real passed to native function " + ci->name}; }
      else v = {concretize(v, a.ws[k]), 0};
    }
    if (a.fps[k]) { if (a.fps[k] == 2) { float x = dbl(v.b); u32 y; memcpy(&y, &x, 4); v.b = y; } if (nf < 8) { memcpy(&fv[nf++], &v.b, 8); } else sv[ns++] = v.b; }
    else { if (ni < 6) iv[ni++] = v.b; else sv[ns++] = v.b; }
    if (ns > 16) throw Unsupported{"too many native arguments"};
  }
  u64 r0 = 0, r1 = 0; bool threw = false;
#define SXARGS iv[0], iv[1], iv[2], iv[3], iv[4], iv[5], fv[0], fv[1], fv[2], fv[3], fv[4], fv[5], fv[6], fv[7], sv[0], sv[1], sv[2], sv[3], sv[4], sv[5], sv[6], sv[7], sv[8], sv[9], sv[10], sv[11], sv[12], sv[13], sv[14], sv[15]
  try {
    if (ci->retfp.size() == 2 && ci->retfp[0] && ci->retfp[1]) { PairD r = ((NFDD) ci->native)(SXARGS); r0 = bits(r.a); r1 = bits(r.b); }
    else if (ci->retfp.size() && ci->retfp[0]) r0 = bits(((NFD) ci->native)(SXARGS));
    else if (ci->retw.size() == 2) { Pair r = ((NF2) ci->native)(SXARGS); r0 = r.a; r1 = r.b; }
    else r0 = ((NF) ci->native)(SXARGS);
  } catch (...) {
    threw = true;
    std::exception_ptr* p = new std::exception_ptr(std::current_exception());
    cur_exc.obj = *(u64*) p; cur_exc.ti = const_cast<std::type_info*>(p->__cxa_exception_type()); cur_exc.adj = cur_exc.obj;
  }
  if (threw) { ++sh->exceptions; unwind(); return; }
  for (size_t k = 0; k < ci->retw.size(); ++k) frames.back().r[ci->d + k] = {(k ? r1 : r0) & mask(ci->retw[k]), 0};
  if (ci->invoke) take_edge(ci->norm);
}

static z3::expr shiftamt(z3::expr e) { return e; }
static void int_op(Ins& in, Val x, Val y, Val& out)
{
  unsigned w = in.w;
  if (w == 128) { // full multiply
    if (x.s || y.s) throw Unsupported{"wide symbolic multiply"};
    throw Unsupported{"wide multiply"};
  }
  if (!x.s && !y.s) {
    u64 a = x.b & mask(w), b = y.b & mask(w), r = 0;
    switch (in.op) {
      case O_ADD: r = a + b; break; case O_SUB: r = a - b; break; case O_MUL: r = a*b; break;
      case O_UDIV: case O_SDIV: case O_UREM: case O_SREM:
        if (!b) { violation("div-by-zero", "integer division by zero", nullptr, false); throw PathEnd{"div-by-zero", cur_loc()}; }
        if (in.op == O_UDIV) r = a/b; else if (in.op == O_UREM) r = a%b;
        else {
          int64_t p = sext(a, w), q = sext(b, w);
          if (q == -1 && p == (w >= 64 ? INT64_MIN : -(int64_t(1) << (w - 1)))) { violation("div-overflow", "signed division overflow", nullptr, false); throw PathEnd{"div-overflow", cur_loc()}; }
          r = in.op == O_SDIV ? p/q : p%q;
        }
        break;
      case O_SHL: r = b < w ? a << b : 0; break; case O_LSHR: r = b < w ? a >> b : 0; break; case O_ASHR: r = sext(a, w) >> std::min<u64>(b, w - 1); break;
      case O_AND: r = a & b; break; case O_OR: r = a | b; break; case O_XOR: r = a ^ b; break;
    }
    out = {r & mask(w), 0}; return;
  }
  if ((x.s && is_real(x.s)) || (y.s && is_real(y.s))) {
    // sign manipulation of reals through integer registers
    Val r = is_real(x.s) ? x : y, k = is_real(x.s) ? y : x;
    if (!k.s && in.op == O_AND && k.b == 0x7fffffffffffffffull) { out = f1("fabs", r); return; }
    if (!k.s && in.op == O_XOR && k.b == 0x8000000000000000ull) { out = mkreal(R->neg(poly(r))); return; }
    throw Unsupported{"integer operation on the bits of a symbolic real"};
  }
  if (w == 1) {
    z3::expr a = ie(x, 1), b = ie(y, 1);
    switch (in.op) {
      case O_AND: case O_MUL: out = mkint(a && b, 1); return; case O_OR: out = mkint(a || b, 1); return; case O_XOR: case O_ADD: case O_SUB: out = mkint(a != b, 1); return;
      default: throw Unsupported{"i1 arithmetic"};
    }
  }
  z3::expr a = ie(x, w), b = ie(y, w);
  switch (in.op) {
    case O_ADD: out = mkint(a + b, w); break; case O_SUB: out = mkint(a - b, w); break; case O_MUL: out = mkint(a*b, w); break;
    case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: {
      if (y.s || !y.b) {
        z3::expr zero = b == Z->bv_val(0, w);
        if (branch(zero)) { violation("div-by-zero", "integer division by zero", nullptr, false); throw PathEnd{"div-by-zero", cur_loc()}; }
      }
      if (in.op == O_SDIV || in.op == O_SREM) {
        z3::expr ov = b == Z->bv_val((int64_t) -1, w) && a == (Z->bv_val(1, w) << 0) * Z->bv_val((uint64_t) (1ull << (w - 1)), w);
        if (branch(ov)) { violation("div-overflow", "signed division overflow", nullptr, false); throw PathEnd{"div-overflow", cur_loc()}; }
      }
      out = mkint(in.op == O_UDIV ? z3::udiv(a, b) : in.op == O_SDIV ? a/b : in.op == O_UREM ? z3::urem(a, b) : z3::srem(a, b), w); break; }
    case O_SHL: out = mkint(z3::shl(a, b), w); break; case O_LSHR: out = mkint(z3::lshr(a, b), w); break; case O_ASHR: out = mkint(z3::ashr(a, b), w); break;
    case O_AND: out = mkint(a & b, w); break; case O_OR: out = mkint(a | b, w); break; case O_XOR: out = mkint(a ^ b, w); break;
  }
}
static Val icmp(unsigned pred, unsigned w, Val x, Val y)
{
  if (!x.s && !y.s) {
    u64 a = x.b & mask(w), b = y.b & mask(w); int64_t p = sext(a, w), q = sext(b, w); bool r = false;
    switch (pred) {
      case CmpInst::ICMP_EQ: r = a == b; break; case CmpInst::ICMP_NE: r = a != b; break;
      case CmpInst::ICMP_UGT: r = a > b; break; case CmpInst::ICMP_UGE: r = a >= b; break; case CmpInst::ICMP_ULT: r = a < b; break; case CmpInst::ICMP_ULE: r = a <= b; break;
      case CmpInst::ICMP_SGT: r = p > q; break; case CmpInst::ICMP_SGE: r = p >= q; break; case CmpInst::ICMP_SLT: r = p < q; break; case CmpInst::ICMP_SLE: r = p <= q; break;
    }
    return {u64(r), 0};
  }
  if ((x.s && is_real(x.s)) || (y.s && is_real(y.s))) {
    Val r = is_real(x.s) ? x : y, k = is_real(x.s) ? y : x;
    if (is_real(x.s) && !k.s && pred == CmpInst::ICMP_SLT && k.b == 0) return fcmp(FCmpInst::FCMP_OLT, r, {bits(0.), 0});
    if (is_real(x.s) && !k.s && pred == CmpInst::ICMP_SGT && k.b == ~0ull) return fcmp(FCmpInst::FCMP_OGE, r, {bits(0.), 0});
    throw Unsupported{"integer comparison of the bits of a symbolic real"};
  }
  z3::expr a = ie(x, w), b = ie(y, w);
  if (w == 1) {
    if (pred == CmpInst::ICMP_EQ) return mkint(a == b, 1);
    if (pred == CmpInst::ICMP_NE) return mkint(a != b, 1);
    z3::expr o = Z->bv_val(1, 1), z = Z->bv_val(0, 1); a = z3::ite(a, o, z); b = z3::ite(b, o, z);
  }
  switch (pred) {
    case CmpInst::ICMP_EQ: return mkint(a == b, 1); case CmpInst::ICMP_NE: return mkint(a != b, 1);
    case CmpInst::ICMP_UGT: return mkint(z3::ugt(a, b), 1); case CmpInst::ICMP_UGE: return mkint(z3::uge(a, b), 1); case CmpInst::ICMP_ULT: return mkint(z3::ult(a, b), 1); case CmpInst::ICMP_ULE: return mkint(z3::ule(a, b), 1);
    case CmpInst::ICMP_SGT: return mkint(a > b, 1); case CmpInst::ICMP_SGE: return mkint(a >= b, 1); case CmpInst::ICMP_SLT: return mkint(a < b, 1); case CmpInst::ICMP_SLE: return mkint(a <= b, 1);
  }
  throw Unsupported{"icmp"};
}

static void intrinsic(CallInfo* ci, Ins& in)
{
  Frame& f = frames.back(); Val* r = f.r;
  auto A = [&](int i, unsigned k = 0) { return getv(r, Decoder::nth(ci->args[i].slot, k)); };
  unsigned n = ci->retw.size(), w = n ? ci->retw[0] : 0; int d = ci->d;
  auto lanes1 = [&](const char* nm) { for (unsigned k = 0; k < n; ++k) r[d + k] = f1(nm, A(0, k)); };
  auto lanes2 = [&](const char* nm) { for (unsigned k = 0; k < n; ++k) r[d + k] = f2(nm, A(0, k), A(1, k)); };
  auto minmax = [&](unsigned pred) { for (unsigned k = 0; k < n; ++k) { Val x = A(0, k), y = A(1, k); Val c = icmp(pred, ci->retw[k], x, y); if (!c.s) r[d + k] = c.b ? x : y; else r[d + k] = mkint(z3::ite(ie(c, 1), ie(x, ci->retw[k]), ie(y, ci->retw[k])), ci->retw[k]); } };
  switch (ci->intrin) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: mem_move(concretize(A(0), 64), concretize(A(1), 64), concretize(A(2), ci->args[2].w)); break;
    case Intrinsic::memset: { u64 a = concretize(A(0), 64), len = concretize(A(2), ci->args[2].w); Val v = A(1); if (len) { if (!valid(a, len)) mem_error("memset of invalid memory", a, len); if (v.s) for (u64 i = 0; i < len; ++i) store(a + i, 8, 0, v); else { memset((void*) a, v.b, len); shadow.clear(a, len); } } break; }
    case Intrinsic::sqrt: lanes1("sqrt"); break; case Intrinsic::fabs: lanes1("fabs"); break; case Intrinsic::floor: lanes1("floor"); break; case Intrinsic::ceil: lanes1("ceil"); break; case Intrinsic::trunc: lanes1("trunc"); break; case Intrinsic::round: lanes1("round"); break; case Intrinsic::rint: case Intrinsic::nearbyint: lanes1("rint"); break;
    case Intrinsic::exp: lanes1("exp"); break; case Intrinsic::log: lanes1("log"); break; case Intrinsic::sin: lanes1("sin"); break; case Intrinsic::cos: lanes1("cos"); break; case Intrinsic::exp2: lanes1("exp2"); break; case Intrinsic::log10: lanes1("log10"); break; case Intrinsic::log2: lanes1("log2"); break;
    case Intrinsic::pow: lanes2("pow"); break; case Intrinsic::minnum: case Intrinsic::minimum: lanes2("fmin"); break; case Intrinsic::maxnum: case Intrinsic::maximum: lanes2("fmax"); break; case Intrinsic::copysign: lanes2("copysign"); break;
    case Intrinsic::powi: { Val e = A(1); int k = (int) sext(concretize(e, 32), 32); Val x = A(0); if (!x.s) r[d] = {bits(std::pow(dbl(x.b), k)), 0}; else r[d] = f2("pow", x, {bits((double) k), 0}); break; }
    case Intrinsic::fmuladd: case Intrinsic::fma: for (unsigned k = 0; k < n; ++k) r[d + k] = fop(O_FADD, fop(O_FMUL, A(0, k), A(1, k)), A(2, k)); break;
    case Intrinsic::smax: minmax(CmpInst::ICMP_SGT); break; case Intrinsic::smin: minmax(CmpInst::ICMP_SLT); break; case Intrinsic::umax: minmax(CmpInst::ICMP_UGT); break; case Intrinsic::umin: minmax(CmpInst::ICMP_ULT); break;
    case Intrinsic::abs: { Val x = A(0); if (!x.s) { int64_t v = sext(x.b, w); r[d] = {u64(v < 0 ? -v : v) & mask(w), 0}; } else { z3::expr e = ie(x, w); r[d] = mkint(z3::ite(e < 0, -e, e), w); } break; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
      Val x = A(0), y = A(1); 
      if (x.s || y.s) {
        unsigned e = w; z3::expr a = ie(x, w), b = ie(y, w); bool sg = ci->intrin == Intrinsic::sadd_with_overflow || ci->intrin == Intrinsic::ssub_with_overflow || ci->intrin == Intrinsic::smul_with_overflow;
        z3::expr ea = sg ? z3::sext(a, e) : z3::zext(a, e), eb = sg ? z3::sext(b, e) : z3::zext(b, e);
        bool mulk = ci->intrin == Intrinsic::smul_with_overflow || ci->intrin == Intrinsic::umul_with_overflow, addk = ci->intrin == Intrinsic::sadd_with_overflow || ci->intrin == Intrinsic::uadd_with_overflow;
        z3::expr res = mulk ? ea*eb : addk ? ea + eb : ea - eb; z3::expr lo = res.extract(w - 1, 0);
        r[d] = mkint(lo, w); r[d + 1] = mkint((sg ? z3::sext(lo, e) : z3::zext(lo, e)) != res, 1);
      } else {
        __int128 a = 0, b = 0, res; bool sg = ci->intrin == Intrinsic::sadd_with_overflow || ci->intrin == Intrinsic::ssub_with_overflow || ci->intrin == Intrinsic::smul_with_overflow;
        if (sg) { a = sext(x.b, w); b = sext(y.b, w); } else { a = x.b & mask(w); b = y.b & mask(w); }
        bool mulk = ci->intrin == Intrinsic::smul_with_overflow || ci->intrin == Intrinsic::umul_with_overflow, addk = ci->intrin == Intrinsic::sadd_with_overflow || ci->intrin == Intrinsic::uadd_with_overflow;
        bool ovf;
        if (mulk && !sg) { unsigned __int128 u = (unsigned __int128) (u64) a*(u64) b; res = (__int128) u; ovf = (u64) (u >> (w >= 64 ? 64 : w)) != 0; }
        else { res = mulk ? a*b : addk ? a + b : a - b; ovf = sg ? res != (__int128) sext(u64(res) & mask(w), w) : (res < 0 || res > (__int128) mask(w)); }
        r[d] = {u64(res) & mask(w), 0}; r[d + 1] = {u64(ovf), 0};
      }
      break; }
    case Intrinsic::uadd_sat: case Intrinsic::usub_sat: { Val x = A(0), y = A(1); if (x.s || y.s) throw Unsupported{"saturating arithmetic"}; u64 a = x.b, b = y.b; r[d] = {ci->intrin == Intrinsic::uadd_sat ? ((a + b) & mask(w)) < a ? mask(w) : (a + b) & mask(w) : a > b ? a - b : 0, 0}; break; }
    case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: case Intrinsic::bswap: {
      u64 x = concretize(A(0), w); u64 v = 0;
      if (ci->intrin == Intrinsic::ctpop) v = __builtin_popcountll(x);
      else if (ci->intrin == Intrinsic::ctlz) v = x ? __builtin_clzll(x) - (64 - w) : w;
      else if (ci->intrin == Intrinsic::cttz) v = x ? __builtin_ctzll(x) : w;
      else v = __builtin_bswap64(x) >> (64 - w);
      r[d] = {v, 0}; break; }
    case Intrinsic::fshl: case Intrinsic::fshr: { Val x = A(0), y = A(1), s = A(2); if (x.s || y.s || s.s) { u64 k = concretize(s, w)%w; z3::expr a = ie(x, w), b = ie(y, w); if (!k) r[d] = ci->intrin == Intrinsic::fshl ? x : y; else { unsigned kk = ci->intrin == Intrinsic::fshl ? k : w - k; r[d] = mkint(z3::shl(a, Z->bv_val((uint64_t) kk, w)) | z3::lshr(b, Z->bv_val((uint64_t) (w - kk), w)), w); } break; } u64 a = x.b & mask(w), b = y.b & mask(w), k = s.b%w; r[d] = {(ci->intrin == Intrinsic::fshl ? (k ? (a << k) | (b >> (w - k)) : a) : (k ? (a << (w - k)) | (b >> k) : b)) & mask(w), 0}; break; }
    case Intrinsic::eh_typeid_for: r[d] = {typeid_for(A(0).b), 0}; break;
    case Intrinsic::stacksave: r[d] = {0, 0}; break;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: r[d] = A(0); break;
    case Intrinsic::invariant_start: r[d] = {0, 0}; break;
    case Intrinsic::is_constant: r[d] = {0, 0}; break;
    case Intrinsic::objectsize: r[d] = {~0ull & mask(w), 0}; break;
    case Intrinsic::is_fpclass: { Val x = A(0); u64 m = A(1).b; if (x.s) { // reals are finite: nan/inf classes are false
        if (!(m & ~0x207ull)) { if ((m & 3) || true) { r[d] = {0, 0}; if (m & 0x204) r[d] = {0, 0}; } } else if ((m & 0x1f8) == 0x1f8) r[d] = {1, 0}; else throw Unsupported{"is.fpclass"}; }
      else { double v = dbl(x.b); bool t = false; if (std::isnan(v)) t = m & 3; else if (v == HUGE_VAL) t = m & 0x200; else if (v == -HUGE_VAL) t = m & 4; else if (v == 0) t = std::signbit(v) ? m & 0x20 : m & 0x40; else if (std::fpclassify(v) == FP_SUBNORMAL) t = v < 0 ? m & 0x10 : m & 0x80; else t = v < 0 ? m & 8 : m & 0x100; r[d] = {u64(t), 0}; } break; }
    case Intrinsic::vastart: { u64 p = A(0).b; u32 a = 48, b = 176; store(p, 32, 0, {a, 0}); store(p + 4, 32, 0, {b, 0}); store(p + 8, 64, 0, {f.va_area, 0}); store(p + 16, 64, 0, {0, 0}); break; }
    case Intrinsic::vacopy: mem_move(A(0).b, A(1).b, 24); break;
    case Intrinsic::trap: case Intrinsic::debugtrap: violation("trap", "trap", nullptr, false); throw PathEnd{"trap", cur_loc()};
    case Intrinsic::vector_reduce_fadd: { Val s = A(0); for (unsigned k = 0; k < ci->args[1].n; ++k) s = fop(O_FADD, s, A(1, k)); r[d] = s; break; }
    case Intrinsic::vector_reduce_add: { Val s = A(1 - 1, 0); for (unsigned k = 1; k < ci->args[0].n; ++k) { Ins t {}; t.op = O_ADD; t.w = w; int_op(t, s, A(0, k), s); } r[d] = s; break; }
    case Intrinsic::vector_reduce_or: { Val s = A(0, 0); for (unsigned k = 1; k < ci->args[0].n; ++k) { Ins t {}; t.op = O_OR; t.w = w; int_op(t, s, A(0, k), s); } r[d] = s; break; }
    case Intrinsic::vector_reduce_and: { Val s = A(0, 0); for (unsigned k = 1; k < ci->args[0].n; ++k) { Ins t {}; t.op = O_AND; t.w = w; int_op(t, s, A(0, k), s); } r[d] = s; break; }
    default: throw Unsupported{"intrinsic " + ci->name};
  }
  (void) in;
}

static void run_loop()
{
  while (frames.size()) {
    Frame& f = frames.back();
    Ins& in = f.f->code[f.pc++];
    Val* r = f.r;
    cur_ins = &in;
    if ((++n_instr & 0xfffff) == 0) { check_deadline(); if (n_instr > max_instr) { ++sh->limit; violation("limit", "instruction limit reached (possible non-termination)", nullptr, false); throw PathEnd{"limit", cur_loc()}; } }
    switch (in.op) {
      case O_ADD: case O_SUB: case O_MUL: case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: case O_SHL: case O_LSHR: case O_ASHR: case O_AND: case O_OR: case O_XOR: {
        if (in.w == 128) {
          unsigned __int128 a = ((unsigned __int128) getv(r, Decoder::nth(in.a, 1)).b << 64) | getv(r, in.a).b, b = ((unsigned __int128) getv(r, Decoder::nth(in.b, 1)).b << 64) | getv(r, in.b).b;
          if (getv(r, in.a).s || getv(r, in.b).s) throw Unsupported{"wide symbolic multiply"};
          a *= b; r[in.d] = {u64(a), 0}; r[in.d + 1] = {u64(a >> 64), 0}; break;
        }
        Val o; int_op(in, getv(r, in.a), getv(r, in.b), o); r[in.d] = o; break; }
      case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: { Val v = fop(in.op, getv(r, in.a), getv(r, in.b)); if (in.w == 32 && !v.s) v.b = bits((double) (float) dbl(v.b)); r[in.d] = v; break; }
      case O_FNEG: { Val x = getv(r, in.a); r[in.d] = x.s ? mkreal(R->neg(poly(x))) : Val{bits(-dbl(x.b)), 0}; break; }
      case O_ICMP: r[in.d] = icmp(in.imm, in.w, getv(r, in.a), getv(r, in.b)); break;
      case O_FCMP: r[in.d] = fcmp(in.imm, getv(r, in.a), getv(r, in.b)); break;
      case O_TRUNC_: { Val x = getv(r, in.a); if (!x.s) r[in.d] = {x.b & mask(in.w2), 0}; else if (in.w2 == in.w) r[in.d] = x; else { if (is_real(x.s)) throw Unsupported{"truncation of a real"}; z3::expr e = ie(x, in.w).extract(in.w2 - 1, 0); r[in.d] = in.w2 == 1 ? mkint(e == Z->bv_val(1, 1), 1) : mkint(e, in.w2); } break; }
      case O_ZEXT: { Val x = getv(r, in.a); if (!x.s) r[in.d] = {x.b & mask(in.w), 0}; else if (in.w == 1) r[in.d] = mkint(z3::ite(ie(x, 1), Z->bv_val(1, in.w2), Z->bv_val(0, in.w2)), in.w2); else r[in.d] = mkint(z3::zext(ie(x, in.w), in.w2 - in.w), in.w2); break; }
      case O_SEXT: { Val x = getv(r, in.a); if (!x.s) r[in.d] = {u64(sext(x.b & mask(in.w), in.w)) & mask(in.w2), 0}; else if (in.w == 1) r[in.d] = mkint(z3::ite(ie(x, 1), Z->bv_val((int64_t) -1, in.w2), Z->bv_val(0, in.w2)), in.w2); else r[in.d] = mkint(z3::sext(ie(x, in.w), in.w2 - in.w), in.w2); break; }
      case O_FPTOSI: case O_FPTOUI: {
        Val x = getv(r, in.a);
        if (x.s) x = f1("trunc", x);
        double v = dbl(x.b);
        r[in.d] = {(in.op == O_FPTOSI ? u64(int64_t(v)) : v >= 9.3e18 ? ~0ull : v < 0 ? u64(int64_t(v)) : u64(v)) & mask(in.w2), 0}; break; }
      case O_SITOFP: { Val x = getv(r, in.a); u64 v = concretize(x, in.w); r[in.d] = {bits((double) sext(v, in.w)), 0}; break; }
      case O_UITOFP: { Val x = getv(r, in.a); u64 v = concretize(x, in.w); r[in.d] = {bits((double) v), 0}; break; }
      case O_FPTO32: { Val x = getv(r, in.a); if (!x.s) x.b = bits((double) (float) dbl(x.b)); r[in.d] = x; break; }
      case O_BITF2I: { Val x = getv(r, in.a); if (x.s) throw Unsupported{"bits of a symbolic float"}; float g = dbl(x.b); u32 y; memcpy(&y, &g, 4); r[in.d] = {y, 0}; break; }
      case O_FPMOVE32: { Val x = getv(r, in.a); if (x.s) throw Unsupported{"bits of a symbolic float"}; u32 y = x.b; float g; memcpy(&g, &y, 4); r[in.d] = {bits((double) g), 0}; break; }
      case O_MOV: r[in.d] = getv(r, in.a); break;
      case O_SELECT: {
        Val c = getv(r, in.a), x = getv(r, in.b), y = getv(r, in.c);
        if (!c.s) r[in.d] = c.b & 1 ? x : y;
        else if (in.fp || is_real(x.s) || is_real(y.s)) { Val v = fselect(c, x, y); f.r[in.d] = v; }
        else if (x.s == y.s && x.b == y.b) r[in.d] = x;
        else if (in.w == 1) r[in.d] = mkint(z3::ite(ie(c, 1), ie(x, 1), ie(y, 1)), 1);
        else r[in.d] = mkint(z3::ite(ie(c, 1), ie(x, in.w), ie(y, in.w)), in.w);
        break; }
      case O_LOAD: { Val p = getv(r, in.a); u64 a; if (p.s) { a = concretize(p, 64); if (in.a >= 0) r[in.a] = {a, 0}; } else a = p.b; r[in.d] = load(a + in.imm, in.w, in.fp); break; }
      case O_STORE: { Val p = getv(r, in.a); u64 a; if (p.s) { a = concretize(p, 64); if (in.a >= 0) r[in.a] = {a, 0}; } else a = p.b; store(a + in.imm, in.w, in.fp, getv(r, in.b)); break; }
      case O_GEP: {
        Val p = getv(r, in.a); auto* gi = (GepInfo*) in.p; u64 a = p.b + in.imm; bool sym = p.s;
        for (auto& x : gi->idx) { Val v = getv(r, std::get<0>(x)); if (v.s) sym = true; else a += std::get<2>(x)*u64(sext(v.b, std::get<1>(x))); }
        if (!sym) { r[in.d] = {a, 0}; break; }
        z3::expr e = p.s ? ie(p, 64) + Z->bv_val((uint64_t) (a - p.b), 64) : Z->bv_val((uint64_t) a, 64);
        for (auto& x : gi->idx) { Val v = getv(r, std::get<0>(x)); if (v.s) { unsigned w = std::get<1>(x); z3::expr k = ie(v, w); if (w < 64) k = z3::sext(k, 64 - w); e = e + k*Z->bv_val((int64_t) std::get<2>(x), 64); } }
        r[in.d] = mkint(e, 64); break; }
      case O_ALLOCA: { u64 n = concretize(getv(r, in.a), in.w); f.r[in.d] = {stack_alloc(in.imm*n, in.c), 0}; break; }
      case O_BR: take_edge(in.imm); break;
      case O_CBR: { Val c = getv(r, in.a); bool t = c.s ? truth(c) : c.b & 1; take_edge(t ? in.imm : in.c); break; }
      case O_SWITCH: {
        auto* si = (SwitchInfo*) in.p; Val v = getv(r, in.a); u32 e = si->def;
        if (!v.s) { u64 k = v.b & mask(in.w); for (auto& c : si->cases) if (c.first == k) { e = c.second; break; } }
        else {
          z3::expr x = ie(v, in.w);
          for (auto& c : si->cases) if (branch(in.w == 1 ? (c.first ? x : !x) : x == Z->bv_val((uint64_t) c.first, in.w))) { e = c.second; break; }
        }
        take_edge(e); break; }
      case O_RET: {
        CallInfo* ci = f.call; Val tmp[64]; unsigned n = in.w; if (n > 64) throw Unsupported{"large return value"};
        for (unsigned k = 0; k < n; ++k) tmp[k] = getv(r, Decoder::nth(in.a, k));
        pop_frame();
        if (frames.size() && ci) { for (unsigned k = 0; k < n && k < ci->retw.size(); ++k) frames.back().r[ci->d + k] = tmp[k]; if (ci->invoke) take_edge(ci->norm); }
        if (!ci) return; // bottom frame of a top-level invocation
        break; }
      case O_CALL: do_call((CallInfo*) in.p); break;
      case O_INTRIN: intrinsic((CallInfo*) in.p, in); break;
      case O_UNREACH: violation("unreachable", "unreachable code executed (undefined behaviour)", nullptr, false); throw PathEnd{"unreachable", cur_loc()};
      case O_LPAD: break;
      case O_RESUME: { u64 o = getv(r, in.a).b; cur_exc = in_flight[o]; pop_frame(); unwind(); break; }
      default: throw Unsupported{"opcode"};
    }
  }
}

static void call_top(const Function* f) { FInfo* fi = finfo(f); push_frame(fi, nullptr, {}, 0); run_loop(); }

static void segv(int sig) { if (getenv("SX_BT")) { void* bt[40]; int n = backtrace(bt, 40); backtrace_symbols_fd(bt, n, 2); } const char m[] = "{\"k\":\"crash\",\"what\":\"signal in engine\"}\n"; if (write(log_fd, m, sizeof(m) - 1)) {} ; std::string l = cur_loc(); logline("{\"k\":\"unsupported\",\"what\":" + jstr("signal " + std::to_string(sig) + " in native code at " + l) + "}"); ++sh->unsupported; signal(sig, SIG_DFL); if (own_slot) --sh->running; ++sh->done; _exit(0); }

int main(int argc, char** argv)
{
  std::string bc, entry, out; std::vector<std::string> libs;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--entry") entry = argv[++i]; else if (a == "--log") out = argv[++i]; else if (a == "--jobs") max_jobs = atoi(argv[++i]); else if (a == "--query-s") query_s = atoi(argv[++i]); else if (a == "--deadline") deadline_s = atof(argv[++i]);
    else if (a == "--lib") libs.push_back(argv[++i]); else if (a == "--max-instr") max_instr = atol(argv[++i]); else if (a == "--rl-branch") rl_branch = atoi(argv[++i]); else if (a == "--rl-assert") rl_assert = atoi(argv[++i]); else if (a == "--traces") trace_limit = atol(argv[++i]);
    else bc = a;
  }
  t_start = now();
  log_fd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  AR = (u8*) mmap((void*) 0x100000000000ull, AR_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  AV = (u8*) mmap(nullptr, AR_SZ/8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  heap_top = u64(AR) + 4096; stack_top = stack_lo = u64(AR) + AR_SZ*3/4 + 4096; glob_top = u64(AR) + AR_SZ*15/16;
  heap_objs = new std::map<u64, u64>;
  size_t nreg = 1ull << 26;
  regs_base = (Val*) mmap(nullptr, nreg*sizeof(Val), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  regs_top = regs_base; regs_end = regs_base + nreg - 4096;
  for (auto& l : libs) if (!dlopen(l.c_str(), RTLD_NOW | RTLD_GLOBAL)) fprintf(stderr, "dlopen: %s\n", dlerror());
  frames.reserve(20010);
  Z = new z3::context; R = new Reals(*Z); IX = new std::vector<z3::expr>; IX->push_back(Z->bool_val(true)); IXmap = new std::unordered_map<unsigned, u32>; CONDS = new std::vector<z3::expr>; PC = new std::vector<z3::expr>; INPUTS = new std::vector<Input>; DECISIONS = new std::vector<std::string>;
  CC = new std::unordered_map<unsigned, Consts>; real_consts = new std::unordered_set<unsigned>; keep = new std::vector<z3::expr>; qcache = new QCache; OBS = new std::vector<std::pair<std::string, Val>>; R->conds = CONDS;
  LLVMContext ctx; SMDiagnostic err;
  auto mod = parseIRFile(bc, err, ctx);
  if (!mod) { err.print("symx", errs()); return 2; }
  M = mod.get(); DL = &M->getDataLayout();
  sh->running = 1; sh->paths = 1; path_id = 1;
  struct sigaction sa {}; sa.sa_handler = segv; sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr); sigaction(SIGABRT, &sa, nullptr);
  const Function* ent = M->getFunction(entry);
  if (!ent) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  pid_t root = fork(); // the parent only prints the summary
  if (root == 0) {
    setpgid(0, 0);
    try {
      std::vector<std::pair<u64, const Function*>> ctors;
      if (auto* g = M->getGlobalVariable("llvm.global_ctors")) if (auto* arr = dyn_cast<ConstantArray>(g->getInitializer())) for (auto& o : arr->operands()) { auto* s = cast<ConstantStruct>(o); if (auto* f = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), f}); }
      std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b){return a.first < b.first;});
      for (auto& c : ctors) call_top(c.second);
      call_top(ent);
      path_done();
      end_path("return", "");
    } catch (PathEnd& p) { end_path(p.kind.c_str(), p.msg); }
    catch (Unsupported& u) { ++sh->unsupported; logline("{\"k\":\"unsupported\",\"what\":" + jstr(u.what) + ",\"loc\":" + jstr(cur_loc()) + "}"); end_path("unsupported", u.what); }
    catch (z3::exception& e) { ++sh->unsupported; logline("{\"k\":\"unsupported\",\"what\":" + jstr(std::string("z3: ") + e.msg()) + ",\"loc\":" + jstr(cur_loc()) + "}"); end_path("unsupported", e.msg()); }
    catch (std::exception& e) { ++sh->unsupported; logline("{\"k\":\"unsupported\",\"what\":" + jstr(std::string("engine: ") + e.what()) + ",\"loc\":" + jstr(cur_loc()) + "}"); end_path("unsupported", e.what()); }
    _exit(4);
  }
  int st = 0; setpgid(root, root);
  while (waitpid(root, &st, WNOHANG) == 0) {
    usleep(5000);
    if (now() - t_start > deadline_s*1.1 + 2*query_s + 10) { ++sh->deadline; kill(-root, SIGKILL); waitpid(root, &st, 0); break; }
  }
  kill(-root, SIGKILL);
  if (!WIFEXITED(st)) { ++sh->crashes; logline("{\"k\":\"crash\",\"what\":\"root engine process died\"}"); }
  char buf[2048];
#define P(x) (long) sh->x.load()
  snprintf(buf, 2048, "{\"k\":\"summary\",\"entry\":\"%s\",\"paths\":%ld,\"done\":%ld,\"forks\":%ld,\"queries\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"solver_ms\":%ld,\"instructions\":%ld,\"asserts\":%ld,\"near\":%ld,\"proved\":%ld,\"linear\":%ld,\"normal_form\":%ld,\"general\":%ld,\"candidates\":%ld,\"unsupported\":%ld,\"deadline\":%ld,\"crashes\":%ld,\"limit\":%ld,\"concretised\":%ld,\"interval_decided\":%ld,\"dead\":%ld,\"exceptions\":%ld,\"depth\":%ld,\"native_calls\":%ld,\"witnessed\":%ld,\"divisors_assumed\":%ld,\"wall\":%.2f}",
    entry.c_str(), P(paths), P(done), P(forks), P(queries), P(qsat), P(qunsat), P(qunk), P(solver_us)/1000, P(instrs), P(asserts), P(near_asserts), P(proved), P(linear_proved), P(numer_proved), P(nra_proved), P(violations), P(unsupported), P(deadline), P(crashes), P(limit), P(concretised), P(interval_decided), P(assumed_dead), P(exceptions), P(depth_max), P(natives), P(witnessed), P(div_assumed), now() - t_start);
  logline(buf);
  printf("%s\n", buf);
  return 0;
}
