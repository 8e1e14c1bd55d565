// Exact arithmetic over the reals for the symbolic executor: multivariate Laurent
// polynomials with rational coefficients over interned "atoms".
#pragma once
#include <gmpxx.h>
#include <z3++.h>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <limits>
#include <string>
#include <unordered_map>
#include <vector>

namespace sx {

typedef std::vector<std::pair<uint32_t, int32_t>> Mono; // sorted (atom, exponent != 0)
typedef uint32_t MonoId;                               // 0 is the monomial 1
struct Poly { std::vector<std::pair<MonoId, mpq_class>> t; }; // sorted by MonoId, no zeros

enum AtomKind { A_VAR, A_POLY, A_SQRT, A_FUNC, A_ITE };
struct Atom {
  AtomKind kind;
  std::string name;
  std::vector<uint32_t> args; // poly ids
  uint32_t cond = 0;          // A_ITE: index of the z3 condition
  double lo, hi;
  bool zmade = false, imade = false;
  unsigned zc = 0, zi = 0; // indices into the z3 expression store
};

struct Unsupported { std::string what; };
struct Ival { double lo, hi; };
inline double dn(double x) { return std::isfinite(x) ? x - std::abs(x)*1e-13 - 1e-300 : x; }
inline double up(double x) { return std::isfinite(x) ? x + std::abs(x)*1e-13 + 1e-300 : x; }
inline double m0(double a, double b) { return (a == 0 || b == 0) ? 0. : a*b; }
inline Ival imul(Ival a, Ival b)
{
  double p[4] {m0(a.lo, b.lo), m0(a.lo, b.hi), m0(a.hi, b.lo), m0(a.hi, b.hi)};
  return {dn(*std::min_element(p, p + 4)), up(*std::max_element(p, p + 4))};
}
inline Ival iadd(Ival a, Ival b) { return {dn(a.lo + b.lo), up(a.hi + b.hi)}; }

class Reals
{
  z3::context& c;
  struct VH { size_t operator()(const Mono& m) const { size_t h = 1469598103934665603ull; for (auto& p : m) { h = (h ^ p.first)*1099511628211ull; h = (h ^ uint32_t(p.second))*1099511628211ull; } return h; } };
  std::unordered_map<Mono, MonoId, VH> mono_ids;
  std::unordered_multimap<size_t, uint32_t> poly_ids;
  std::unordered_multimap<size_t, uint32_t> atom_ids;
  size_t hash(const Poly& p)
  {
    size_t h = 7;
    for (auto& t : p.t) {
      h = h*1000003 + t.first;
      h = h*1000003 + mpz_get_ui(t.second.get_num_mpz_t());
      h = h*1000003 + mpz_get_ui(t.second.get_den_mpz_t())*(sgn(t.second) < 0 ? 3 : 1);
    }
    return h;
  }
  public:
  std::vector<Mono> monos;
  std::vector<Poly> polys;
  std::vector<Atom> atoms;
  std::vector<z3::expr> store;
  std::unordered_map<unsigned, std::vector<z3::expr>> side; // z3 const ast id -> definitional constraints
  std::unordered_map<uint32_t, unsigned> poly_z3;
  std::vector<Ival> poly_ival; std::vector<char> poly_ival_made;
  std::vector<z3::expr>* conds = nullptr;
  size_t expand_limit = 4000;
  long n_rounded = 0;

  Reals(z3::context& ctx) : c{ctx}
  {
    monos.push_back({}); mono_ids[{}] = 0;
    polys.push_back({}); // id 0 = zero polynomial
    poly_ids.insert({hash(polys[0]), 0});
  }

  MonoId mono(const Mono& m)
  {
    auto it = mono_ids.find(m);
    if (it != mono_ids.end()) return it->second;
    MonoId id = monos.size(); monos.push_back(m); mono_ids[m] = id;
    return id;
  }
  uint32_t intern(Poly&& p)
  {
    size_t h = hash(p);
    auto r = poly_ids.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) {
      auto& q = polys[it->second];
      if (q.t.size() != p.t.size()) continue;
      bool eq = true;
      for (size_t i = 0; i < p.t.size() && eq; ++i) eq = q.t[i].first == p.t[i].first && q.t[i].second == p.t[i].second;
      if (eq) return it->second;
    }
    uint32_t id = polys.size(); polys.push_back(std::move(p)); poly_ids.insert({h, id});
    return id;
  }
  void round_coef(mpq_class& q)
  {
    size_t bn = mpz_sizeinbase(q.get_num_mpz_t(), 2), bd = mpz_sizeinbase(q.get_den_mpz_t(), 2);
    if (bn < 3000 && bd < 3000) return;
    ++n_rounded;
    long k = 1024 - (long(bn) - long(bd));
    mpz_class n = q.get_num();
    if (k > 0) mpz_mul_2exp(n.get_mpz_t(), n.get_mpz_t(), k); else mpz_tdiv_q_2exp(n.get_mpz_t(), n.get_mpz_t(), -k);
    n /= q.get_den();
    mpq_class r(n);
    if (k > 0) mpq_div_2exp(r.get_mpq_t(), r.get_mpq_t(), k); else mpq_mul_2exp(r.get_mpq_t(), r.get_mpq_t(), -k);
    q = r;
  }
  uint32_t constant(const mpq_class& q) { Poly p; if (sgn(q)) p.t.push_back({0, q}); return intern(std::move(p)); }
  uint32_t constant(double d) { return constant(mpq_class(d)); }
  bool is_const(uint32_t p) { return polys[p].t.empty() || (polys[p].t.size() == 1 && polys[p].t[0].first == 0); }
  mpq_class const_val(uint32_t p) { return polys[p].t.empty() ? mpq_class(0) : polys[p].t[0].second; }
  static double to_double(const mpq_class& q)
  {
    // round to nearest (mpq_get_d truncates)
    double d = q.get_d();
    if (!std::isfinite(d)) return d;
    mpq_class e = q - mpq_class(d);
    if (sgn(e) == 0) return d;
    double o = std::nextafter(d, sgn(e) > 0 ? HUGE_VAL : -HUGE_VAL);
    if (std::isfinite(o)) { mpq_class f = mpq_class(o) - q; if (abs(f) < abs(e)) return o; }
    return d;
  }
  uint32_t atom_poly(uint32_t a, int e = 1) { Poly p; p.t.push_back({mono({{a, e}}), mpq_class(1)}); return intern(std::move(p)); }

  uint32_t lin(uint32_t a, const mpq_class& ka, uint32_t b, const mpq_class& kb)
  {
    Poly r;
    {
      const Poly& A = polys[a]; const Poly& B = polys[b];
      r.t.reserve(A.t.size() + B.t.size());
      size_t i = 0, j = 0;
      while (i < A.t.size() || j < B.t.size()) {
        if (j == B.t.size() || (i < A.t.size() && A.t[i].first < B.t[j].first)) { r.t.push_back({A.t[i].first, A.t[i].second*ka}); ++i; }
        else if (i == A.t.size() || B.t[j].first < A.t[i].first) { r.t.push_back({B.t[j].first, B.t[j].second*kb}); ++j; }
        else { mpq_class s = A.t[i].second*ka + B.t[j].second*kb; if (sgn(s)) r.t.push_back({A.t[i].first, s}); ++i; ++j; }
      }
      for (auto& t : r.t) round_coef(t.second);
      if (sgn(ka) == 0 || sgn(kb) == 0) r.t.erase(std::remove_if(r.t.begin(), r.t.end(), [](auto& t){return sgn(t.second) == 0;}), r.t.end());
    }
    return intern(std::move(r));
  }
  uint32_t add(uint32_t a, uint32_t b) { return lin(a, 1, b, 1); }
  uint32_t sub(uint32_t a, uint32_t b) { return lin(a, 1, b, -1); }
  uint32_t scale(uint32_t a, const mpq_class& k) { return lin(a, k, 0, 0); }
  uint32_t neg(uint32_t a) { return scale(a, -1); }

  // factor p = k * q with q "monic" in its last term
  uint32_t monic(uint32_t p, mpq_class& k)
  {
    k = polys[p].t.back().second;
    mpq_class inv = 1/k;
    return scale(p, inv);
  }
  uint32_t find_atom(AtomKind k, const std::string& nm, const std::vector<uint32_t>& args, uint32_t cond)
  {
    size_t h = std::hash<std::string>()(nm)*31 + k;
    for (auto a : args) h = h*1000003 + a;
    h = h*1000003 + cond;
    auto r = atom_ids.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) {
      auto& A = atoms[it->second];
      if (A.kind == k && A.name == nm && A.args == args && A.cond == cond) return it->second;
    }
    Atom A; A.kind = k; A.name = nm; A.args = args; A.cond = cond; A.lo = -HUGE_VAL; A.hi = HUGE_VAL;
    uint32_t id = atoms.size();
    atoms.push_back(A); atom_ids.insert({h, id});
    if (k == A_POLY) { auto iv = ival(args[0]); atoms[id].lo = iv.lo; atoms[id].hi = iv.hi; }
    if (k == A_SQRT) { auto iv = ival(args[0]); atoms[id].lo = iv.lo > 0 ? dn(std::sqrt(iv.lo)) : 0.; atoms[id].hi = iv.hi > 0 ? up(std::sqrt(iv.hi)) : 0.; }
    if (k == A_ITE) { auto a = ival(args[0]), b = ival(args[1]); atoms[id].lo = std::min(a.lo, b.lo); atoms[id].hi = std::max(a.hi, b.hi); }
    return id;
  }
  uint32_t var(const std::string& nm, double lo, double hi)
  {
    Atom A; A.kind = A_VAR; A.name = nm; A.lo = lo; A.hi = hi;
    atoms.push_back(A);
    return atoms.size() - 1;
  }

  uint32_t mul(uint32_t a, uint32_t b)
  {
    if (a == 0 || b == 0) return 0;
    if (is_const(a)) return scale(b, const_val(a));
    if (is_const(b)) return scale(a, const_val(b));
    size_t na = polys[a].t.size(), nb = polys[b].t.size();
    if (na > 1 && nb > 1 && na*nb > expand_limit) {
      // abstract the larger factor(s) into named atoms
      mpq_class k;
      if (na >= nb) { uint32_t q = monic(a, k); a = scale(atom_poly(find_atom(A_POLY, "", {q}, 0)), k); }
      else { uint32_t q = monic(b, k); b = scale(atom_poly(find_atom(A_POLY, "", {q}, 0)), k); }
      return mul(a, b);
    }
    std::unordered_map<MonoId, mpq_class> acc;
    std::vector<std::pair<uint32_t, mpq_class>> extra; // poly * coefficient
    Poly A = polys[a], B = polys[b];
    for (auto& x : A.t) for (auto& y : B.t) {
      mpq_class k = x.second*y.second;
      Mono m; bool red = false;
      const Mono& p = monos[x.first]; const Mono& q = monos[y.first];
      size_t i = 0, j = 0;
      while (i < p.size() || j < q.size()) {
        if (j == q.size() || (i < p.size() && p[i].first < q[j].first)) m.push_back(p[i++]);
        else if (i == p.size() || q[j].first < p[i].first) m.push_back(q[j++]);
        else { int e = p[i].second + q[j].second; if (e) { m.push_back({p[i].first, e}); if (atoms[p[i].first].kind == A_SQRT && (e >= 2 || e <= -2)) red = true; } ++i; ++j; }
      }
      if (!red) { auto& s = acc[mono(m)]; s += k; }
      else {
        uint32_t r = constant(k); Mono rest;
        for (auto& f : m) {
          if (atoms[f.first].kind == A_SQRT && (f.second >= 2 || f.second <= -2)) {
            int h = f.second/2, l = f.second - 2*h;
            if (l) rest.push_back({f.first, l});
            for (int n = 0; n < std::abs(h); ++n) r = h > 0 ? mul(r, atoms[f.first].args[0]) : div(r, atoms[f.first].args[0]);
          } else rest.push_back(f);
        }
        Poly pr; pr.t.push_back({mono(rest), mpq_class(1)});
        r = mul(r, intern(std::move(pr)));
        extra.push_back({r, mpq_class(1)});
      }
    }
    Poly r;
    for (auto& t : acc) if (sgn(t.second)) { round_coef(t.second); r.t.push_back({t.first, t.second}); }
    std::sort(r.t.begin(), r.t.end(), [](auto& u, auto& v){return u.first < v.first;});
    uint32_t res = intern(std::move(r));
    for (auto& e : extra) res = add(res, e.first);
    return res;
  }
  uint32_t div(uint32_t a, uint32_t b)
  {
    if (b == 0) throw Unsupported{"division by the zero polynomial"};
    if (is_const(b)) { mpq_class inv = 1/const_val(b); return scale(a, inv); }
    if (a == 0) return 0;
    if (a == b) return constant(mpq_class(1));
    if (polys[b].t.size() == 1) {
      Mono m = monos[polys[b].t[0].first];
      for (auto& f : m) f.second = -f.second;
      mpq_class k = 1/polys[b].t[0].second;
      Poly p; p.t.push_back({mono(m), k});
      return mul(a, intern(std::move(p)));
    }
    mpq_class kb; uint32_t qb = monic(b, kb);
    if (polys[a].t.size() == polys[b].t.size()) {
      mpq_class ka; uint32_t qa = monic(a, ka);
      if (qa == qb) { mpq_class r = ka/kb; return constant(r); }
    }
    uint32_t at = find_atom(A_POLY, "", {qb}, 0);
    mpq_class ki = 1/kb;
    return mul(a, scale(atom_poly(at, -1), ki));
  }
  uint32_t powi(uint32_t a, int n)
  {
    if (n < 0) return div(constant(mpq_class(1)), powi(a, -n));
    uint32_t r = constant(mpq_class(1));
    for (int i = 0; i < n; ++i) r = mul(r, a);
    return r;
  }
  uint32_t sqrt(uint32_t a)
  {
    if (is_const(a)) { double v = to_double(const_val(a)); return constant(std::sqrt(v)); }
    // a single term with even exponents of atoms of known sign
    if (polys[a].t.size() == 1) {
      auto t = polys[a].t[0];
      bool ok = sgn(t.second) > 0;
      for (auto& f : monos[t.first]) ok = ok && f.second%2 == 0 && (atoms[f.first].lo >= 0 || atoms[f.first].hi <= 0);
      if (ok) {
        mpz_class n = t.second.get_num(), d = t.second.get_den();
        mpq_class k = mpz_perfect_square_p(n.get_mpz_t()) && mpz_perfect_square_p(d.get_mpz_t()) ? mpq_class(::sqrt(n), ::sqrt(d)) : mpq_class(std::sqrt(to_double(t.second)));
        Mono m = monos[t.first];
        for (auto& f : m) { f.second /= 2; if (atoms[f.first].hi <= 0 && f.second%2) k = -k; }
        Poly p; p.t.push_back({mono(m), k});
        return intern(std::move(p));
      }
    }
    return atom_poly(find_atom(A_SQRT, "", {a}, 0));
  }
  uint32_t func(const std::string& nm, const std::vector<uint32_t>& args, double lo, double hi)
  {
    uint32_t a = find_atom(A_FUNC, nm, args, 0);
    atoms[a].lo = lo; atoms[a].hi = hi;
    return atom_poly(a);
  }
  uint32_t ite(uint32_t cond, uint32_t a, uint32_t b) { return a == b ? a : atom_poly(find_atom(A_ITE, "", {a, b}, cond)); }

  Ival atom_pow(uint32_t at, int e)
  {
    Ival iv {atoms[at].lo, atoms[at].hi};
    if (e < 0) {
      if (iv.lo > 0 || iv.hi < 0) iv = {dn(1/iv.hi), up(1/iv.lo)};
      else return {-HUGE_VAL, HUGE_VAL};
      e = -e;
    }
    Ival r {1, 1};
    for (int i = 0; i < e; ++i) r = imul(r, iv);
    if (e%2 == 0 && r.lo < 0) r.lo = 0;
    return r;
  }
  Ival mono_ival(MonoId m)
  {
    Ival v {1, 1};
    for (auto& f : monos[m]) v = imul(v, atom_pow(f.first, f.second));
    return v;
  }
  Ival ival(uint32_t p)
  {
    if (p < poly_ival.size() && poly_ival_made[p]) return poly_ival[p];
    Ival s {0, 0};
    for (auto& t : polys[p].t) {
      double k = to_double(t.second);
      Ival v = imul(mono_ival(t.first), {dn(k), up(k)});
      s = iadd(s, v);
    }
    if (p >= poly_ival.size()) { poly_ival.resize(p + 1); poly_ival_made.resize(p + 1, 0); }
    poly_ival[p] = s; poly_ival_made[p] = 1;
    return s;
  }

  // ---------------- z3 ----------------
  z3::expr num(const mpq_class& q) { return c.real_val(q.get_str().c_str()); }
  unsigned put(z3::expr e) { store.push_back(e); return store.size() - 1; }
  void set_bounds(unsigned id, z3::expr e, double lo, double hi)
  {
    if (std::isfinite(lo)) side[id].push_back(e >= num(mpq_class(lo)));
    if (std::isfinite(hi)) side[id].push_back(e <= num(mpq_class(hi)));
  }
  z3::expr atom_z3(uint32_t a)
  {
    if (!atoms[a].zmade) {
      AtomKind k = atoms[a].kind;
      if (k == A_POLY) { z3::expr e = z(atoms[a].args[0]); atoms[a].zc = put(e); }
      else {
        std::string nm = (k == A_VAR ? atoms[a].name : (k == A_SQRT ? "sqrt" : k == A_ITE ? "ite" : atoms[a].name) + "!" + std::to_string(a));
        z3::expr e = c.real_const(nm.c_str());
        unsigned id = Z3_get_ast_id(c, e);
        atoms[a].zc = put(e);
        atoms[a].zmade = true;
        if (k == A_VAR || k == A_FUNC) set_bounds(id, e, atoms[a].lo, atoms[a].hi);
        if (k == A_SQRT) { z3::expr r = z(atoms[a].args[0]); side[id].push_back(e >= 0); side[id].push_back(e*e == r); }
        if (k == A_ITE) { z3::expr u = z(atoms[a].args[0]), v = z(atoms[a].args[1]); side[id].push_back(e == z3::ite((*conds)[atoms[a].cond], u, v)); }
        if (k == A_FUNC && atoms[a].name == "exp") side[id].push_back(e > 0);
        if (k == A_FUNC) for (auto p : atoms[a].args) if (!is_const(p)) { z3::expr r = c.real_const((nm + "_arg" + std::to_string(p)).c_str()); side[id].push_back(r == z(p)); }
      }
      atoms[a].zmade = true;
    }
    return store[atoms[a].zc];
  }
  z3::expr inv_z3(uint32_t a)
  {
    if (!atoms[a].imade) {
      z3::expr e = atom_z3(a);
      z3::expr i = c.real_const(("inv!" + std::to_string(a)).c_str());
      atoms[a].zi = put(i); atoms[a].imade = true;
      side[Z3_get_ast_id(c, i)].push_back(i*e == 1);
    }
    return store[atoms[a].zi];
  }
  z3::expr mono_z3(MonoId m)
  {
    z3::expr r = num(1); bool first = true;
    for (auto& f : Mono(monos[m])) for (int i = 0; i < std::abs(f.second); ++i) {
      z3::expr x = f.second > 0 ? atom_z3(f.first) : inv_z3(f.first);
      r = first ? x : r*x; first = false;
    }
    return r;
  }
  z3::expr z(uint32_t p)
  {
    auto it = poly_z3.find(p);
    if (it != poly_z3.end()) return store[it->second];
    z3::expr_vector v(c);
    for (auto& t : Poly(polys[p]).t) v.push_back(t.first == 0 ? num(t.second) : t.second == 1 ? mono_z3(t.first) : num(t.second)*mono_z3(t.first));
    z3::expr r = v.size() == 0 ? num(0) : v.size() == 1 ? v[0] : z3::sum(v);
    poly_z3[p] = put(r);
    return r;
  }

  // Clear denominators and expand composite polynomial atoms: returns the
  // numerator of p as a polynomial in variables and irreducible atoms, or false if it grew too large.
  bool numerator(uint32_t p, uint32_t& out, size_t max_terms = 20000, std::vector<uint32_t>* den = nullptr)
  {
    for (int iter = 0; iter < 60; ++iter) {
      // find most recently created composite atom with a negative exponent, or an A_POLY atom with a positive one
      int best = -1; int worst_e = 0; bool any_pos = false;
      for (auto& t : polys[p].t) for (auto& f : monos[t.first]) {
        bool comp = atoms[f.first].kind == A_POLY;
        if (f.second < 0 || comp) if (int(f.first) > best) best = f.first;
      }
      if (best < 0) { out = p; return true; }
      for (auto& t : polys[p].t) for (auto& f : monos[t.first]) if (int(f.first) == best) { worst_e = std::min(worst_e, f.second); if (f.second > 0) any_pos = true; }
      (void) any_pos;
      bool comp = atoms[best].kind == A_POLY;
      if (den && worst_e < 0) for (int i = 0; i < -worst_e; ++i) den->push_back(best);
      // split by exponent
      std::unordered_map<int, std::vector<std::pair<Mono, mpq_class>>> by;
      for (auto& t : polys[p].t) {
        Mono m; int e = 0;
        for (auto& f : monos[t.first]) if (int(f.first) == best) e = f.second; else m.push_back(f);
        by[e - worst_e].push_back({m, t.second});
      }
      size_t save = expand_limit; expand_limit = size_t(1) << 40;
      uint32_t sum = 0; bool ok = true;
      uint32_t base = comp ? atoms[best].args[0] : atom_poly(best);
      for (auto& b : by) {
        std::vector<std::pair<MonoId, mpq_class>> ts;
        for (auto& x : b.second) ts.push_back({mono(x.first), x.second});
        std::sort(ts.begin(), ts.end(), [](auto& u, auto& v){return u.first < v.first;});
        Poly q; for (auto& x : ts) { if (q.t.size() && q.t.back().first == x.first) q.t.back().second += x.second; else q.t.push_back(x); }
        uint32_t r = intern(std::move(q));
        for (int i = 0; i < b.first; ++i) { if (polys[r].t.size()*polys[base].t.size() > 4*max_terms) { ok = false; break; } r = mul(r, base); }
        if (!ok) break;
        sum = add(sum, r);
        if (polys[sum].t.size() > max_terms) { ok = false; break; }
      }
      expand_limit = save;
      if (!ok) return false;
      p = sum;
    }
    return false;
  }
  std::string str(uint32_t p, size_t lim = 12)
  {
    std::string s; size_t n = 0;
    for (auto& t : polys[p].t) {
      if (n++ == lim) { s += " + ..(" + std::to_string(polys[p].t.size()) + " terms)"; break; }
      s += (n > 1 ? " + " : "") + std::to_string(to_double(t.second));
      for (auto& f : monos[t.first]) s += "*" + (atoms[f.first].kind == A_VAR ? atoms[f.first].name : std::string("a") + std::to_string(f.first)) + (f.second == 1 ? "" : "^" + std::to_string(f.second));
    }
    return s.empty() ? "0" : s;
  }
};

}
