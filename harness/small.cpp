// Supporting classes: variable name spaces, history monitor, layer sequence, modal limiter, atmosphere
#include "sx.hpp"
#include <Namespace.hpp>
#include <History_monitor.hpp>
#include <Layer_sequence.hpp>
#include <filter_limit.hpp>
#include <Gauss_legendre.hpp>
#include <Row_index.hpp>
#include <thermo.hpp>
#include <standard_atmosphere.hpp>
#include <criteria.hpp>
#include <Element.hpp>
#include <cmath>
#include <memory>
#include <vector>
using namespace hexed;
static int pick(const char* n, int lo, int hi) { return sx_concrete(sx_int(n, lo, hi)); }
static int ipow(int b, int e) { int r = 1; while (e-- > 0) r *= b; return r; }
// name spaces: a small graph; each holds nothing, an int, a double or a string
SX_ENTRY name_space()
{
  // spaces 1 and 2 are the parents of 0; 3 is the parent of 1
  std::shared_ptr<Namespace> s[4]; for (auto& p : s) p = std::make_shared<Namespace>(); int n_sup = pick("parents", 0, 2); bool grand = n_sup > 0 && pick("grandparent", 0, 1);
  if (n_sup > 0) s[0]->supers.push_back(s[1]); if (n_sup > 1) s[0]->supers.push_back(s[2]); if (grand) s[1]->supers.push_back(s[3]);
  int kind[4], iv[4]; double dv[4]; const char* sv[4] {"p", "q", "r", "s"};
  for (int k = 0; k < 4; ++k) { bool in = k == 0 || (k == 1 && n_sup > 0) || (k == 2 && n_sup > 1) || (k == 3 && n_sup > 0 && grand); kind[k] = in ? pick("kind", 0, 3) : k; iv[k] = sx_int("int", 3*k - 4, 3*k - 3); dv[k] = sx_real("double", -9, 9); if (kind[k] == 1) s[k]->assign<int>("x", iv[k]); if (kind[k] == 2) s[k]->assign<double>("x", dv[k]); if (kind[k] == 3) s[k]->assign<std::string>("x", sv[k]); }
  // the space that a look-up from 0 reaches: itself, else its parents in order (each with its own parents)
  int order[4] {0, -1, -1, -1}, no = 1; if (n_sup > 0) { order[no++] = 1; if (grand) order[no++] = 3; } if (n_sup > 1) order[no++] = 2;
  int at = -1; for (int k = 0; k < no; ++k) if (at < 0 && kind[order[k]]) at = order[k];
  sx_assert(s[0]->exists("x") == (kind[0] != 0), "existence in the space itself"); sx_assert(s[0]->exists_recursive("x") == (at >= 0), "existence in the space or any of its ancestors");
  auto check = [&](int kd, int i, double d, const char* t) {
    auto li = s[0]->lookup<int>("x"); auto ld = s[0]->lookup<double>("x"); auto ls = s[0]->lookup<std::string>("x");
    sx_assert(li.has_value() == (kd == 1) && ld.has_value() == (kd == 1 || kd == 2) && ls.has_value() == (kd == 3), "a variable is found with its own type, or as a float if it is an integer");
    if (kd == 1 && li && ld) { sx_assert(*li == i, "integer value"); sx_near(*ld, double(i), 0, "integer read as float"); } if (kd == 2 && ld) sx_near(*ld, d, 0, "float value"); if (kd == 3 && ls) sx_assert(*ls == t, "string value");
  };
  if (at < 0) check(0, 0, 0, ""); else check(kind[at], iv[at], dv[at], sv[at]);
  // default values apply only if nothing is visible; assignment goes to the space itself
  int act = pick("action", 0, 5), ni = sx_int("new_int", -9, -8); double nd = sx_real("new_double", -9, 9); bool threw = false; int k0 = kind[0];
  try { if (act == 0) s[0]->assign_default<int>("x", ni); else if (act == 1) s[0]->assign_default<double>("x", nd); else if (act == 2) s[0]->assign<int>("x", ni); else if (act == 3) s[0]->assign<double>("x", nd); else if (act == 4) s[0]->assign<std::string>("x", "new"); else s[0]->create<int>("x", new Namespace::Value<int>(ni)); } catch (const std::exception&) { threw = true; }
  if (act < 2) { sx_assert(!threw, "a default is always acceptable"); if (at >= 0) { sx_assert(s[0]->exists("x") == (k0 != 0), "a default does not hide a variable of an ancestor"); check(kind[at], iv[at], dv[at], sv[at]); } else check(act + 1, ni, nd, ""); }
  else if (act == 2) { sx_assert(threw == (k0 == 3), "an integer may be assigned to a number"); if (!threw) check(k0 == 2 ? 2 : 1, ni, double(ni), ""); else check(3, 0, 0, sv[0]); }
  else if (act == 3) { sx_assert(threw == (k0 == 1 || k0 == 3), "a float may only be assigned to a float"); if (!threw) check(2, 0, nd, ""); else check(k0, iv[0], dv[0], sv[0]); }
  else if (act == 4) { sx_assert(threw == (k0 == 1 || k0 == 2), "a string may only be assigned to a string"); if (!threw) check(3, 0, 0, "new"); else check(k0, iv[0], dv[0], sv[0]); }
  else { sx_assert(threw == (k0 != 0), "a variable cannot be created twice"); if (!threw) check(1, ni, 0, ""); else check(k0, iv[0], dv[0], sv[0]); }
  for (int k = 1; k < 4; ++k) { sx_assert(s[k]->exists("x") == (kind[k] != 0), "ancestors are not changed"); if (kind[k] == 1) sx_assert(s[k]->lookup<int>("x") == iv[k], "ancestors are not changed"); }
  sx_reach("end");
}
SX_ENTRY heisenberg()
{
  Namespace s; int n = 0, base = sx_int("base", -9, 9); bool bad = pick("fails", 0, 1); s.create<int>("h", new Namespace::Heisenberg<int>([&]() -> int { if (bad) throw std::runtime_error("no"); return base + n++; }));
  bool threw = false; int k = pick("reads", 0, 3); std::optional<int> r; for (int i = 0; i < k; ++i) { try { r = s.lookup<int>("h"); } catch (const std::exception&) { threw = true; } if (!bad) sx_assert(r == base + i, "evaluated once for each reading"); }
  sx_assert(threw == (bad && k > 0), "failures are reported"); threw = false; try { s.assign<int>("h", 3); } catch (const std::exception&) { threw = true; } sx_assert(threw, "cannot be written"); sx_reach("end");
}
// history monitor: bounds over the recorded samples in the window
static void monitor(double win, int cap, int n, const int* it)
{
  History_monitor m(win, cap); sx_assert(m.min() == -huge && m.max() == huge, "no bounds before the first sample"); std::vector<int> ri; std::vector<double> rv;
  for (int k = 0; k < n; ++k) {
    double v = sx_real("value", -9, 9), lo = m.min(), hi = m.max(); m.add_sample(it[k], v);
    // bounds of the samples within the window of iteration `last`, given that `v` was or was not recorded
    bool must = ri.empty() || it[k] > ri.back()*std::pow(1/(1 - win), 1./cap) + 1, may = ri.empty() || it[k] > ri.back();
    auto bounds = [&](int last, double& a, double& b) { a = huge; b = -huge; int cnt = 0; for (int i = int(ri.size()) - 1; i >= 0; --i) if (ri[i] >= last*(1 - win) && cnt < cap) { ++cnt; a = std::min(a, rv[i]); b = std::max(b, rv[i]); } };
    bool kept = m.min() == lo & m.max() == hi; (void) kept;
    ri.push_back(it[k]); rv.push_back(v); double a, b; bounds(it[k], a, b); bool rec = (m.min() == a) & (m.max() == b);
    if (must) sx_assert(rec, "a sample far enough from the last is recorded, and the bounds are those of the window");
    else if (!may) { ri.pop_back(); rv.pop_back(); sx_assert(kept, "old samples are not recorded"); }
    else if (!rec) { ri.pop_back(); rv.pop_back(); sx_assert(kept, "the bounds are those of the recorded samples in the window"); }
    sx_assert(m.min() <= m.max(), "bounds are ordered");
  }
  sx_reach("end");
}
static const int dense[] {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}, sparse[] {3, 10, 20, 21, 22, 60, 61, 64, 200}, coarse[] {10, 20, 30, 40, 50, 60, 70, 80, 90};
SX_ENTRY monitor_small() { int c = pick("capacity", 1, 4), w = pick("window", 1, 3); monitor(.25*w, c, 4, dense); }
SX_ENTRY monitor_sparse() { int c = pick("capacity", 2, 3); monitor(pick("window", 0, 1) ? .5 : .8, c, 5, sparse); }
SX_ENTRY monitor_coarse() { monitor(.3, 3, 5, coarse); }
// layers: given number of equal wall layers, then growth by a factor of two up to height 1
SX_ENTRY layers()
{
  int g = pick("growth_layers", 1, 6), nw = pick("wall_layers", 0, 4); double hi = std::pow(2., -g), ws = sx_real("wall_spacing", hi*.5001, hi*.9999); sx_assume(ws*nw < .9); // the number of growth layers is ceil(log2(.5/ws)) = g
  Layer_sequence s(ws, nw); int n = s.n_layers(); sx_assert(n == nw + g, "number of layers"); double tot = 0;
  for (int i = 0; i < n; ++i) { sx_near(s.cumulative_height(i), tot, 1e-9, "heights add up"); double h = s.spacing(i); tot += h; if (i < nw) sx_near(h, ws, 1e-12, "wall layers have the given thickness"); else if (i > nw) sx_near(h, 2*s.spacing(i - 1), 1e-9, "growth layers double"); sx_assert(h > 0, "layers have positive thickness"); }
  sx_near(tot, 1, 1e-6, "total height is 1"); sx_near(s.cumulative_height(n), 1, 1e-6, "total height is 1"); sx_reach("end");
}
// modal limiter
static void limit(int n, int row, int nsym)
{
  Gauss_legendre b(row); int nq = ipow(row, n); std::vector<double> u(nq), m(nq, 0.), r(nq, 0.); double dr = pick("rate", 0, 1) ? .25 : .5; int at = pick("at", 0, nq - nsym); 
  for (int i = 0; i < nq; ++i) u[i] = i >= at && i < at + nsym ? sx_real("u", -2, 2) : .3 + .2*(i%3); Eigen::VectorXd w = b.node_weights(); std::vector<Eigen::VectorXd> o; for (int k = 0; k < row; ++k) o.push_back(b.orthogonal(k));
  auto c = [&](int q, int d) { return q/ipow(row, n - 1 - d)%row; };
  auto modes = [&](const std::vector<double>& x) { std::vector<double> y(nq, 0.); for (int k = 0; k < nq; ++k) for (int q = 0; q < nq; ++q) { double f = 1; for (int d = 0; d < n; ++d) f *= o[c(k, d)](c(q, d))*w(c(q, d)); y[k] += f*x[q]; } return y; };
  m = modes(u); double nrm = 0; for (double x : m) nrm += x*x; sx_assume(nrm >= .01); nrm = std::sqrt(nrm); std::vector<double> in = u; filter_limit(n, u.data(), b, dr); r = modes(u);
  for (int k = 0; k < nq; ++k) {
    int tot = 0; for (int d = 0; d < n; ++d) tot += c(k, d); double th = nrm*std::pow(dr, tot);
    if (std::abs(m[k]) <= th) sx_near(r[k], m[k], 1e-9, "modes below the limit are not changed"); else sx_near(r[k], m[k] > 0 ? th : -th, 1e-9, "modes above the limit are reduced to it");
  }
  sx_reach("end");
}
// one field of arbitrary amplitude, higher dimensions and rows: every mode is then a known multiple of the amplitude
static void limit_scaled(int n, int row)
{
  Gauss_legendre b(row); int nq = ipow(row, n); std::vector<double> p(nq), u(nq), m(nq, 0.), r(nq, 0.); double dr = pick("rate", 0, 1) ? .25 : .75, amp = sx_real("amplitude", .5, 2); int k0 = pick("pattern", 0, 2);
  for (int i = 0; i < nq; ++i) p[i] = k0 == 0 ? .1 + (i == nq - 1) : k0 == 1 ? 1 + .3*((i*i + i)%5) : ((i*7)%4 - 1.3)*.5; for (int i = 0; i < nq; ++i) u[i] = amp*p[i];
  Eigen::VectorXd w = b.node_weights(); std::vector<Eigen::VectorXd> o; for (int k = 0; k < row; ++k) o.push_back(b.orthogonal(k)); auto c = [&](int q, int d) { return q/ipow(row, n - 1 - d)%row; };
  auto modes = [&](const std::vector<double>& x) { std::vector<double> y(nq, 0.); for (int k = 0; k < nq; ++k) for (int q = 0; q < nq; ++q) { double f = 1; for (int d = 0; d < n; ++d) f *= o[c(k, d)](c(q, d))*w(c(q, d)); y[k] += f*x[q]; } return y; };
  m = modes(p); double nrm = 0; for (double x : m) nrm += x*x; nrm = std::sqrt(nrm); filter_limit(n, u.data(), b, dr); r = modes(u);
  for (int k = 0; k < nq; ++k) { int tot = 0; for (int d = 0; d < n; ++d) tot += c(k, d); double th = nrm*std::pow(dr, tot), want = std::abs(m[k]) <= th ? m[k] : m[k] > 0 ? th : -th; sx_near(r[k], amp*want, 1e-9, "each mode is reduced to the limit of its order"); }
  sx_reach("end");
}
SX_ENTRY limit_s1() { limit_scaled(1, pick("row", 2, 3)); }
SX_ENTRY limit_s2() { limit_scaled(2, pick("row", 2, 3)); }
SX_ENTRY limit_s3() { limit_scaled(3, 2); }
SX_ENTRY limit1() { limit(1, 2, 2); }
SX_ENTRY limit1r3() { limit(1, 3, 1); }
SX_ENTRY limit2() { limit(2, 2, 1); }
// admissibility: all densities and energies positive
SX_ENTRY admissible()
{
  int n = pick("n", 1, 3), nq = pick("points", 1, 2); std::vector<double> u((n + 2)*nq); bool want = true; for (int v = 0; v < n + 2; ++v) for (int q = 0; q < nq; ++q) { u[v*nq + q] = sx_real("u", -1, 2); if (v >= n) want = want & (u[v*nq + q] > 0); }
  sx_assert(thermo::admissible(u.data(), n, nq, 1.4) == want, "admissible exactly if density and energy are positive everywhere"); sx_reach("end");
}
SX_ENTRY criterion()
{
  int n = pick("n", 1, 3), lev = pick("level", 0, 3); Storage_params p {2, n + 2, n, 2}; double h = sx_real("size", .5, 2); Element e(p, {}, h, lev); double c[3] {}; for (int v = 0; v < p.n_vertices(); ++v) for (int d = 0; d < 3; ++d) { e.vertex(v).pos(d) = sx_real("pos", -2, 2); c[d] += e.vertex(v).pos(d)/p.n_vertices(); } e.uncertainty = sx_real("uncertainty", 0, 5); double t = sx_real("threshold", -5, 5);
  auto f = criteria::criterion([&](bool ext, int l, double s, Eigen::Vector3d x, double u) { sx_assert(ext && l == lev, "element without a tree is extruded"); sx_near(s, h/ipow(2, lev), 1e-12, "size"); for (int d = 0; d < 3; ++d) sx_near(x(d), c[d], 1e-9, "centre"); sx_near(u, e.uncertainty, 0, "uncertainty"); return u > t; });
  bool a = f(e), b = criteria::logical_not(f)(e); sx_assert(a == (e.uncertainty > t), "value of the criterion"); sx_assert(a != b, "negation"); sx_assert(criteria::if_extruded(e), "extruded"); sx_reach("end");
}
