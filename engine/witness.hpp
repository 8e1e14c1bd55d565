// Concrete witnesses: sample points of the real inputs, kept as long as they satisfy the path condition, show that a
// branch is feasible without asking the solver. They only ever answer "satisfiable"; "unsatisfiable" is the solver's.
#pragma once
static bool wit_rand_ready = false;
struct Witness {
  unsigned id; bool dead = false; size_t seen = 0;
  std::unordered_map<u32, double> given;          // atom -> value (from a solver model)
  std::unordered_map<u32, double> atom, poly;     // memo
  std::unordered_map<unsigned, int> boolm;        // memo: 0, 1, 2 = unknown
  std::unordered_map<unsigned, double> realm;
};
struct Wit_unknown {};
static std::vector<Witness>* WIT; static std::unordered_map<unsigned, std::pair<u32, bool>>* ATOM_OF; // z3 constant -> atom, inverse?
static double w_poly(Witness& w, u32 p);
static int w_bool(Witness& w, const z3::expr& e);
static double w_atom(Witness& w, u32 a)
{
  auto it = w.atom.find(a); if (it != w.atom.end()) return it->second;
  double v; auto A = R->atoms[a];
  switch (A.kind) {
    case sx::A_VAR: {
      auto g = w.given.find(a);
      if (g != w.given.end()) v = g->second;
      else {
        u64 h = (u64(w.id) + 1)*0x9E3779B97F4A7C15ull ^ (u64(a) + 7)*0xBF58476D1CE4E5B9ull; h ^= h >> 29; h *= 0x94D049BB133111EBull; h ^= h >> 31; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 30;
        double t = .02 + .96*double(h >> 11)/9007199254740992., lo = A.lo, hi = A.hi;
        if (!std::isfinite(lo)) lo = std::isfinite(hi) ? hi - 2 : -1; if (!std::isfinite(hi)) hi = lo + 2;
        v = lo + t*(hi - lo);
      }
      break; }
    case sx::A_POLY: v = w_poly(w, A.args[0]); break;
    case sx::A_SQRT: v = w_poly(w, A.args[0]); if (v < 0) throw Wit_unknown{}; v = std::sqrt(v); break;
    case sx::A_ITE: { int b = w_bool(w, (*CONDS)[A.cond]); if (b == 2) throw Wit_unknown{}; v = w_poly(w, A.args[b ? 0 : 1]); break; }
    default: {
      std::vector<double> x; for (auto p : A.args) x.push_back(w_poly(w, p));
      auto& n = A.name; double a0 = x.empty() ? 0 : x[0], a1 = x.size() > 1 ? x[1] : 0;
      v = n == "exp" ? std::exp(a0) : n == "log" ? std::log(a0) : n == "sin" ? std::sin(a0) : n == "cos" ? std::cos(a0) : n == "tan" ? std::tan(a0) : n == "tanh" ? std::tanh(a0) : n == "atan" ? std::atan(a0)
        : n == "asin" ? std::asin(a0) : n == "acos" ? std::acos(a0) : n == "sinh" ? std::sinh(a0) : n == "cosh" ? std::cosh(a0) : n == "exp2" ? std::exp2(a0) : n == "log10" ? std::log10(a0) : n == "log2" ? std::log2(a0) : n == "cbrt" ? std::cbrt(a0)
        : n == "erf" ? std::erf(a0) : n == "pow" ? std::pow(a0, a1) : n == "atan2" ? std::atan2(a0, a1) : throw Wit_unknown{};
    }
  }
  if (!std::isfinite(v)) throw Wit_unknown{};
  return w.atom[a] = v;
}
static double w_poly(Witness& w, u32 p)
{
  auto it = w.poly.find(p); if (it != w.poly.end()) return it->second;
  double s = 0; auto P = R->polys[p];
  for (auto& t : P.t) {
    double m = t.second.get_d();
    for (auto& f : sx::Mono(R->monos[t.first])) { double b = w_atom(w, f.first); if (f.second < 0 && std::abs(b) < 1e-12) throw Wit_unknown{}; for (int i = 0; i < std::abs(f.second); ++i) m = f.second > 0 ? m*b : m/b; }
    s += m;
  }
  return w.poly[p] = s;
}
static double w_real(Witness& w, const z3::expr& e)
{
  unsigned id = Z3_get_ast_id(*Z, e);
  auto it = w.realm.find(id); if (it != w.realm.end()) return it->second;
  double v;
  if (e.is_numeral()) { if (!e.is_real()) throw Wit_unknown{}; v = zdouble(e); }
  else if (!e.is_app() || !e.is_real()) throw Wit_unknown{};
  else {
    unsigned n = e.num_args(); auto k = e.decl().decl_kind();
    switch (k) {
      case Z3_OP_UNINTERPRETED: {
        if (n) throw Wit_unknown{};
        if (R->atoms.size() != ATOM_OF->size() || true) { auto f = ATOM_OF->find(id); if (f == ATOM_OF->end()) {
          for (u32 a = 0; a < R->atoms.size(); ++a) { auto& A = R->atoms[a]; if (A.zmade && A.kind != sx::A_POLY) (*ATOM_OF)[Z3_get_ast_id(*Z, R->store[A.zc])] = {a, false}; if (A.imade) (*ATOM_OF)[Z3_get_ast_id(*Z, R->store[A.zi])] = {a, true}; }
          f = ATOM_OF->find(id); if (f == ATOM_OF->end()) throw Wit_unknown{}; } }
        auto f = (*ATOM_OF)[id]; v = w_atom(w, f.first);
        if (f.second) { if (std::abs(v) < 1e-12) throw Wit_unknown{}; v = 1/v; }
        break; }
      case Z3_OP_ADD: v = 0; for (unsigned i = 0; i < n; ++i) v += w_real(w, e.arg(i)); break;
      case Z3_OP_MUL: v = 1; for (unsigned i = 0; i < n; ++i) v *= w_real(w, e.arg(i)); break;
      case Z3_OP_SUB: v = w_real(w, e.arg(0)); for (unsigned i = 1; i < n; ++i) v -= w_real(w, e.arg(i)); break;
      case Z3_OP_UMINUS: v = -w_real(w, e.arg(0)); break;
      case Z3_OP_DIV: { v = w_real(w, e.arg(0)); double d = w_real(w, e.arg(1)); if (std::abs(d) < 1e-12) throw Wit_unknown{}; v /= d; break; }
      case Z3_OP_POWER: { double b = w_real(w, e.arg(0)), x = w_real(w, e.arg(1)); v = std::pow(b, x); break; }
      case Z3_OP_ITE: { int b = w_bool(w, e.arg(0)); if (b == 2) throw Wit_unknown{}; v = w_real(w, e.arg(b ? 1 : 2)); break; }
      default: throw Wit_unknown{};
    }
  }
  if (!std::isfinite(v)) throw Wit_unknown{};
  return w.realm[id] = v;
}
static int w_bool(Witness& w, const z3::expr& e)
{
  if (e.is_true()) return 1; if (e.is_false()) return 0;
  if (!e.is_app() || !e.is_bool()) return 2;
  unsigned id = Z3_get_ast_id(*Z, e);
  auto it = w.boolm.find(id); if (it != w.boolm.end()) return it->second;
  auto k = e.decl().decl_kind(); unsigned n = e.num_args(); int r = 2;
  switch (k) {
    case Z3_OP_NOT: r = w_bool(w, e.arg(0)); if (r != 2) r = !r; break;
    case Z3_OP_AND: r = 1; for (unsigned i = 0; i < n && r; ++i) { int b = w_bool(w, e.arg(i)); if (b == 0) r = 0; else if (b == 2) r = 2; } break;
    case Z3_OP_OR: r = 0; for (unsigned i = 0; i < n && r != 1; ++i) { int b = w_bool(w, e.arg(i)); if (b == 1) r = 1; else if (b == 2) r = 2; } break;
    case Z3_OP_ITE: { int b = w_bool(w, e.arg(0)); if (b != 2) r = w_bool(w, e.arg(b ? 1 : 2)); break; }
    case Z3_OP_EQ: case Z3_OP_LE: case Z3_OP_GE: case Z3_OP_LT: case Z3_OP_GT:
      if (e.arg(0).is_bool()) { int a = w_bool(w, e.arg(0)), b = w_bool(w, e.arg(1)); if (a != 2 && b != 2 && k == Z3_OP_EQ) r = a == b; break; }
      if (!e.arg(0).is_real()) break;
      try {
        double a = w_real(w, e.arg(0)), b = w_real(w, e.arg(1)), d = a - b;
        if (std::abs(d) > 1e-9*(std::abs(a) + std::abs(b)) + 1e-10) r = k == Z3_OP_EQ ? 0 : k == Z3_OP_LE || k == Z3_OP_LT ? d < 0 : d > 0;
      } catch (Wit_unknown&) {}
      break;
    default: break;
  }
  return w.boolm[id] = r;
}
// the witnesses that satisfy the path condition (constraints without real inputs are independent of them)
static std::vector<Witness*> witnesses()
{
  if (!WIT) { WIT = new std::vector<Witness>; ATOM_OF = new std::unordered_map<unsigned, std::pair<u32, bool>>; for (unsigned i = 0; i < 6; ++i) { Witness w; w.id = i; WIT->push_back(w); } }
  std::vector<Witness*> r;
  for (auto& w : *WIT) if (!w.dead) {
    for (; w.seen < PC->size() && !w.dead; ++w.seen) {
      auto& k = consts((*PC)[w.seen]); bool real = false;
      for (auto id : k.ids) if (is_real_const(id)) { real = true; break; }
      if (real && w_bool(w, (*PC)[w.seen]) != 1) w.dead = true;
    }
    if (!w.dead) r.push_back(&w);
  }
  return r;
}
static bool has_reals(const z3::expr& e) { for (auto id : consts(e).ids) if (is_real_const(id)) return true; return false; }
