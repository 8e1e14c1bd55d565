// Polynomial bases: every polynomial is represented, differentiated, integrated, transferred and filtered as defined
#include "sx.hpp"
#include <math.hpp>
#include <Gauss_legendre.hpp>
#include <Gauss_lobatto.hpp>
#include <Equidistant.hpp>
#include <Physical_basis.hpp>
#include <cmath>
#include <memory>
#include <vector>
using namespace hexed;
#ifndef ROWS
#define ROWS 6
#endif
typedef std::vector<double> Vd;
static int pick(const char* n, int lo, int hi) { return sx_concrete(sx_int(n, lo, hi)); }
enum Kind {legendre, lobatto, equidistant};
static Basis* make(int k, int row) { if (k == legendre) return new Gauss_legendre(row); if (k == lobatto) return new Gauss_lobatto(row); return new Equidistant(row); }
struct Poly { Vd c; Poly(int deg) { for (int k = 0; k <= deg; ++k) c.push_back(sx_real("coef", -1, 1)); } double at(double x) const { double s = 0; for (int k = c.size() - 1; k >= 0; --k) s = s*x + c[k]; return s; } double d(double x) const { double s = 0; for (int k = c.size() - 1; k > 0; --k) s = s*x + k*c[k]; return s; } double integral() const { double s = 0; for (size_t k = 0; k < c.size(); ++k) s += c[k]/(k + 1); return s; } };
static const double tol = 1e-10;
static void nodal(int kind)
{
  int row = pick("row_size", 2, ROWS); std::unique_ptr<Basis> bp(make(kind, row)); Basis& b = *bp; sx_assert(b.row_size == row, "row size"); Poly p(row - 1); Mat<> v(row), nodes = b.nodes(); sx_assert(nodes.size() == row, "as many nodes as the row size");
  for (int i = 0; i < row; ++i) { double x = b.node(i); v(i) = p.at(x); sx_near(nodes(i), x, 0, "both forms of the nodes"); sx_assert(x >= 0 && x <= 1 && (i == 0 || x > b.node(i - 1)), "nodes are increasing within the unit interval"); sx_near(x + b.node(row - 1 - i), 1, tol, "nodes are symmetric"); }
  Mat<dyn, dyn> dm = b.diff_mat(), bm = b.boundary(); sx_assert(dm.rows() == row && dm.cols() == row && bm.rows() == 2 && bm.cols() == row, "sizes of matrices");
  for (int i = 0; i < row; ++i) { double s = 0; for (int j = 0; j < row; ++j) s += dm(i, j)*v(j); sx_near(s, p.d(b.node(i)), 1e-9, "the differentiation matrix is exact"); }
  for (int i = 0; i < 2; ++i) { double s = 0; for (int j = 0; j < row; ++j) s += bm(i, j)*v(j); sx_near(s, p.at(i), tol, "evaluation at the boundary is exact"); }
  int n = pick("n_samples", 1, 2); Mat<> smp(n); for (int i = 0; i < n; ++i) smp(i) = row < 6 ? sx_real("sample", -.5, 1.5) : .3 + 1.1*i; Mat<dyn, dyn> im = b.interpolate(smp); sx_assert(im.rows() == n && im.cols() == row, "size of the interpolation matrix");
  for (int i = 0; i < n; ++i) { double s = 0; for (int j = 0; j < row; ++j) s += im(i, j)*v(j); sx_near(s, p.at(smp(i)), 1e-9, "interpolation is exact"); }
  if (kind == equidistant) { for (int i = 0; i < row; ++i) sx_near(b.node(i), double(i)/(row - 1), 1e-14, "equidistant nodes"); sx_reach("end"); return; }
  // quadrature
  Mat<> w = b.node_weights(); Poly q(2*row - (kind == legendre ? 1 : 3)); double s = 0; sx_assert(w.size() == row, "number of weights"); for (int i = 0; i < row; ++i) { s += w(i)*q.at(b.node(i)); sx_assert(w(i) > 0, "weights are positive"); } sx_near(s, q.integral(), tol, "the quadrature rule has its full degree");
  if (kind == lobatto) { sx_near(b.node(0), 0, tol, "end node"); sx_near(b.node(row - 1), 1, tol, "end node"); }
  // Legendre modes by Gram-Schmidt with the discrete inner product
  std::vector<Mat<>> leg; for (int k = 0; k < row; ++k) { Mat<> u(row); for (int i = 0; i < row; ++i) { double x = 2*b.node(i) - 1; u(i) = 1; for (int l = 0; l < k; ++l) u(i) *= x; } for (int rep = 0; rep < 2; ++rep) for (auto& l : leg) { double d = 0; for (int i = 0; i < row; ++i) d += w(i)*u(i)*l(i); for (int i = 0; i < row; ++i) u(i) -= d*l(i); } double nr = 0; for (int i = 0; i < row; ++i) nr += w(i)*u(i)*u(i); nr = std::sqrt(nr); for (int i = 0; i < row; ++i) u(i) /= nr; leg.push_back(u); Mat<> o = b.orthogonal(k); sx_assert(o.size() == row, "size of a mode"); for (int i = 0; i < row; ++i) sx_near(o(i), u(i), 1e-9, "orthogonal polynomials are the normalized Legendre polynomials"); }
  // the filter halves each mode with respect to the one before
  Mat<dyn, dyn> f = b.filter(); Mat<> in(row), want = Mat<>::Zero(row); for (int i = 0; i < row; ++i) in(i) = 0; double fac = 1; for (int k = 0; k < row; ++k, fac /= 2) { double a = sx_real("mode", -1, 1); in += a*leg[k]; want += a*fac*leg[k]; }
  for (int i = 0; i < row; ++i) { double r = 0; for (int j = 0; j < row; ++j) r += f(i, j)*in(j); sx_near(r, want(i), 1e-9, "the filter scales each Legendre mode by a half for each degree"); }
  if (kind == legendre) {
    Vd fine[2]; for (int h = 0; h < 2; ++h) { Mat<dyn, dyn> pm = b.prolong(h), rm = b.restrict(h); sx_assert(pm.rows() == row && pm.cols() == row && rm.rows() == row && rm.cols() == row, "sizes of transfer matrices"); for (int i = 0; i < row; ++i) { double r = 0; for (int j = 0; j < row; ++j) r += pm(i, j)*v(j); sx_near(r, p.at((b.node(i) + h)/2), tol, "prolongation is exact"); fine[h].push_back(r); } }
    for (int i = 0; i < row; ++i) { double r = 0; for (int h = 0; h < 2; ++h) { Mat<dyn, dyn> rm = b.restrict(h); for (int j = 0; j < row; ++j) r += rm(i, j)*fine[h][j]; } sx_near(r, v(i), 1e-9, "restriction undoes prolongation"); }
    Vd any[2]; for (int h = 0; h < 2; ++h) for (int i = 0; i < row; ++i) any[h].push_back(sx_real("fine", -1, 1)); Vd c(row, 0.); for (int h = 0; h < 2; ++h) { Mat<dyn, dyn> rm = b.restrict(h); for (int i = 0; i < row; ++i) for (int j = 0; j < row; ++j) c[i] += rm(i, j)*any[h][j]; }
    for (int k = 0; k < row; ++k) { double l = 0, r = 0; for (int i = 0; i < row; ++i) { l += w(i)*std::pow(b.node(i), k)*c[i]; for (int h = 0; h < 2; ++h) r += .5*w(i)*std::pow((b.node(i) + h)/2, k)*any[h][i]; } sx_near(l, r, 1e-9, "restriction preserves the moments"); }
  }
  sx_assert(b.max_cfl() > 0 && b.step_ratio() > 0 && b.min_eig_diffusion() < 0, "stability limits are positive");
  sx_reach("end");
}
SX_ENTRY basis_legendre() { nodal(legendre); }
SX_ENTRY basis_lobatto() { nodal(lobatto); }
SX_ENTRY basis_equidistant() { nodal(equidistant); }
// polynomials in physical space at arbitrary quadrature point positions
SX_ENTRY physical()
{
  int n = pick("n_dim", 1, 3), row = n == 3 ? 2 : pick("row_size", 2, 3), nq = 1; for (int d = 0; d < n; ++d) nq *= row; Gauss_legendre b(row); int warp = pick("warp", 0, 1);
  Vd pos(n*nq); for (int q = 0; q < nq; ++q) { int r = q; double x[3] {}; for (int d = n - 1; d >= 0; --d) { x[d] = b.node(r%row); r /= row; } for (int d = 0; d < n; ++d) { pos[d*nq + q] = 2 - d + (1.5 - .5*d)*x[d]; if (warp) for (int e = 0; e < n; ++e) pos[d*nq + q] += .1*(1 + d - e)*x[e]*x[(e + 1)%n]; } }
  Physical_basis pb(n, row, pos); int want = n == 1 ? row : n == 2 ? row*(row + 1)/2 : row*(row + 1)*(row + 2)/6; sx_assert(pb.size() == want, "one polynomial per monomial of lower degree than the row size");
  Mat<> w(nq); auto w1 = b.node_weights(); for (int q = 0; q < nq; ++q) { w(q) = 1; int r = q; for (int d = 0; d < n; ++d) { w(q) *= w1(r%row); r /= row; } w(q) *= 1 + .2*(q%3); }
  Mat<dyn, dyn> in(nq, 2); for (int q = 0; q < nq; ++q) in(q, 0) = 0; // a polynomial, and arbitrary values
  for (int i = 0; i < row; ++i) for (int j = 0; j < (n > 1 ? row : 1); ++j) for (int k = 0; k < (n > 2 ? row : 1); ++k) if (i + j + k < row) { double a = sx_real("coef", -1, 1); for (int q = 0; q < nq; ++q) { double m = a; for (int l = 0; l < i; ++l) m *= pos[q]; for (int l = 0; l < j; ++l) m *= pos[nq + q]; for (int l = 0; l < k; ++l) m *= pos[2*nq + q]; in(q, 0) += m; } }
  for (int q = 0; q < nq; ++q) in(q, 1) = sx_real("value", -1, 1);
  Mat<dyn, dyn> out = pb.projection(in, w); sx_assert(out.rows() == nq && out.cols() == 2, "size of a projection");
  for (int q = 0; q < nq; ++q) sx_near(out(q, 0), in(q, 0), 1e-8, "polynomials are their own projection");
  for (int l = 0; l < pb.size(); ++l) { double s = 0; for (int q = 0; q < nq; ++q) s += w(q)*pb.evaluate(q, l)*(out(q, 1) - in(q, 1)); sx_near(s, 0, 1e-8, "the residual of a projection is orthogonal to all polynomials"); }
  for (int q = 0; q < nq; ++q) { double lo = -1.001, hi = 1.001; sx_assert(pb.evaluate(q, 0) == 1 && pb.evaluate(q, 1) > lo && pb.evaluate(q, 1) < hi, "the basis is normalized to the bounding box"); }
  sx_reach("end");
}
