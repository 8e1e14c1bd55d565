// Mathematical kit: tensor-product operators, geometry helpers, root finders
#include "sx.hpp"
#include <math.hpp>
#include <erase_if.hpp>
#include <Row_index.hpp>
#include <string>
using namespace hexed;
static Mat<> vec(int n, const char* nm, double lo = -2, double hi = 2) { Mat<> v(n); for (int i = 0; i < n; ++i) v(i) = sx_real(nm, lo, hi); return v; }
static Eigen::MatrixXd mat(int r, int c, const char* nm) { Eigen::MatrixXd m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = sx_real(nm, -2, 2); return m; }
static int ipow(int b, int e) { int r = 1; while (e-- > 0) r *= b; return r; }
#ifndef BIG
#define BIG 0
#endif
// hypercube_matvec(M, v)_{i0..ik} = sum_j prod_d M(i_d, j_d) v_{j0..jk}
static void hyper(int n_dim, int rows, int cols)
{
  auto m = mat(rows, cols, "m"); int nin = ipow(cols, n_dim), nout = ipow(rows, n_dim);
  Mat<> v = vec(nin, "v"); Mat<> r = math::hypercube_matvec(m, v);
  sx_assert(r.size() == nout, "hypercube_matvec size");
  for (int i = 0; i < nout; ++i) {
    double s = 0;
    for (int j = 0; j < nin; ++j) { double p = v(j); for (int d = 0, ii = i, jj = j; d < n_dim; ++d, ii /= rows, jj /= cols) p *= m(ii%rows, jj%cols); s += p; }
    sx_near(r(i), s, 1e-9, "hypercube_matvec applies the matrix along every dimension");
  }
}
SX_ENTRY hypercube()
{
  switch (sx_concrete(sx_int("shape", 0, 6))) {
    case 0: hyper(1, 2, 3); break; case 1: hyper(2, 2, 2); break; case 2: hyper(2, 3, 2); break; case 3: hyper(3, 1, 2); break; case 4: hyper(2, 2, 3); break; case 5: hyper(3, 2, 2); break; case 6: hyper(2, 1, 3); break;
  }
  sx_reach("end");
}
static void dimen(int n_dim, int rows, int cols)
{
  auto m = mat(rows, cols, "m"); Mat<> v = vec(ipow(cols, n_dim), "v");
  for (int id = 0; id < n_dim; ++id) {
    Mat<> r = math::dimension_matvec(m, v, id);
    int in = ipow(cols, n_dim - 1 - id), out = ipow(cols, id);
    sx_assert(r.size() == out*rows*in, "dimension_matvec size");
    for (int a = 0; a < out; ++a) for (int i = 0; i < rows; ++i) for (int b = 0; b < in; ++b) {
      double s = 0; for (int j = 0; j < cols; ++j) s += m(i, j)*v((a*cols + j)*in + b);
      sx_near(r((a*rows + i)*in + b), s, 1e-9, "dimension_matvec applies the matrix along one dimension");
    }
  }
}
SX_ENTRY dimension() { switch (sx_concrete(sx_int("shape", 0, 5))) { case 0: dimen(1, 2, 3); break; case 1: dimen(2, 3, 3); break; case 2: dimen(2, 1, 2); break; case 3: dimen(3, 2, 2); break; case 4: dimen(3, 3, 2); break; case 5: dimen(3, 1, 3); break; } sx_reach("end"); }
SX_ENTRY outer()
{
  int n = sx_concrete(sx_int("n", 1, 4)), nd = sx_concrete(sx_int("n_dim", 0, 3)); Mat<> v = vec(n, "v"), r = math::pow_outer(v, nd);
  sx_assert(r.size() == ipow(n, nd), "pow_outer size");
  for (int i = 0; i < r.size(); ++i) { double p = 1; for (int d = 0, k = i; d < nd; ++d, k /= n) p *= v(k%n); sx_near(r(i), p, 1e-9, "pow_outer"); }
  sx_reach("end");
}
// integer helpers against closed forms, for every argument in the bounds
SX_ENTRY ints()
{
  int e = sx_concrete(sx_int("exp", 0, 9)); int b = sx_int("base", -9, 9); long p = 1; for (int i = 0; i < e; ++i) p *= b;
  sx_assert(math::pow(b, e) == p, "integer pow");
  int cond = sx_int("cond", 0, 1); sx_assert(math::sign(cond) == (cond ? 1 : -1), "sign");
  sx_reach("end");
}
SX_ENTRY logs()
{
  int b = sx_concrete(sx_int("base", -2, 10)); int a = sx_int("arg", -5, 3000);
  int r = math::log(b, a);
  if (b < 2) sx_assert(r == -1, "log of a bad base is -1");
  else if (a < 1) sx_assert(r == 0, "log of arg < 1 is 0");
  else { long lo = 1; for (int i = 0; i < r; ++i) lo *= b; sx_assert(lo >= a && (r == 0 || lo/b < a), "log is the ceiling logarithm"); }
  sx_reach("end");
}
SX_ENTRY realpow()
{
  double x = sx_real("x", -3, 3); sx_assume((x > .1) | (x < -.1)); int e = sx_concrete(sx_int("exp", -4, 5)); double p = math::pow(x, e);
  double q = 1; for (int i = 0; i < (e < 0 ? -e : e); ++i) q *= x;
  if (e >= 0) sx_near(p, q, 1e-9, "real pow"); else sx_near(p*q, 1., 1e-9, "negative pow is the reciprocal");
  sx_reach("end");
}
SX_ENTRY dirs()
{
  for (int n = 1; n <= 3; ++n) for (int f = 0; f < 2*n; ++f) { auto a = math::direction(n, f), b = math::direction(n, f/2, f%2); for (int d = 0; d < n; ++d) { int w = d == f/2 ? (f%2 ? 1 : -1) : 0; sx_assert(a(d) == w && b(d) == w, "direction"); } }
  // stretched_ind: index of the fine face among those that remain when some dimensions are not refined
  for (int n = 2; n <= 3; ++n) for (int s = 0; s < (1 << (n - 1)); ++s) for (int i = 0; i < (1 << (n - 1)); ++i) {
    std::array<bool, 2> st{bool(s & 1), bool(s >> 1 & 1)}; int want = 0;
    for (int d = 0; d < n - 1; ++d) if (!st[d]) want = 2*want + (i >> (n - 2 - d) & 1);
    sx_assert(math::stretched_ind(n, i, st) == want, "stretched_ind");
  }
  sx_reach("end");
}
SX_ENTRY interp()
{
  { Mat<2> v = vec(2, "v"); Mat<1> x = vec(1, "x", 0, 1); sx_near(math::interp<1>(v, x), v(0)*(1 - x(0)) + v(1)*x(0), 1e-9, "linear interpolation"); }
  { Mat<4> v = vec(4, "v"); Mat<2> x = vec(2, "x", 0, 1); double s = 0; for (int i = 0; i < 4; ++i) s += v(i)*(i/2 ? x(0) : 1 - x(0))*(i%2 ? x(1) : 1 - x(1)); sx_near(math::interp<2>(v, x), s, 1e-9, "bilinear interpolation"); }
  { Mat<8> v = vec(8, "v"); Mat<3> x = vec(3, "x", 0, 1); double s = 0; for (int i = 0; i < 8; ++i) s += v(i)*(i/4 ? x(0) : 1 - x(0))*(i/2%2 ? x(1) : 1 - x(1))*(i%2 ? x(2) : 1 - x(2)); sx_near(math::interp<3>(v, x), s, 1e-9, "trilinear interpolation"); }
  sx_reach("end");
}
// the segment's displacement is one of several concrete vectors, its position and the target are arbitrary
template <int n> static void project()
{
  std::vector<Mat<n>> ds; int k = sx_concrete(sx_int("segment", 0, 3));
  if constexpr (n == 2) ds = {Mat<2>{2., 0.}, Mat<2>{.3, -.4}, Mat<2>{-1.5, 2.25}, Mat<2>{0., -.125}}; else ds = {Mat<3>{0., 0., 3.}, Mat<3>{.5, -.25, 1.}, Mat<3>{-2., -1., .5}, Mat<3>{.1, .2, -.05}};
  Mat<n> d = ds[k], e0 = vec(n, "a", -1, 1), t = vec(n, "t", -4, 4); std::array<Mat<n>, 2> e{e0, Mat<n>(e0 + d)};
  Mat<n> p = math::proj_to_segment(e, t);
  // the point is on the segment and no point of the segment is closer (variational inequality of the projection)
  double s = d.dot(p - e[0])/d.squaredNorm();
  for (int i = 0; i < n; ++i) sx_near(p(i), e[0](i) + s*d(i), 1e-9, "projection lies on the line");
  sx_assert((s >= -1e-9) & (s <= 1 + 1e-9), "projection lies on the segment");
  double tp = d.dot(t - p); // the target may lie beyond an end of the segment only if the projection is that end
  sx_assert((tp <= 1e-9) | (s >= 1 - 1e-9), "projection is the nearest point"); sx_assert((tp >= -1e-9) | (s <= 1e-9), "projection is the nearest point");
}
SX_ENTRY project2() { project<2>(); sx_reach("end"); }
SX_ENTRY project3() { project<3>(); sx_reach("end"); }
SX_ENTRY ball()
{
  Mat<2, 3> p; for (int i = 0; i < 6; ++i) p(i) = sx_real("p", -2, 2);
  auto b = math::bounding_ball<2, 3>(p);
  for (int d = 0; d < 2; ++d) sx_near(b.center(d), (p(d, 0) + p(d, 1) + p(d, 2))/3, 1e-9, "ball centre is the centroid");
  int tight = 0;
  for (int i = 0; i < 3; ++i) { double r = (p.col(i) - b.center).squaredNorm(); sx_assert(r <= b.radius_sq + 1e-9, "bounding ball contains the points"); tight |= r >= b.radius_sq - 1e-9; }
  sx_assert(tight, "bounding ball is the smallest about its centre");
  sx_reach("end");
}
SX_ENTRY isect()
{
  // the ball meets the line iff the distance to the line is at most the radius: checked on a line along a known direction
  math::Ball<2> b; b.center = Mat<2>{sx_real("cx", -2, 2), sx_real("cy", -2, 2)}; double r = sx_real("r", .1, 2); b.radius_sq = r*r;
  Mat<2> e0{sx_real("ex", -2, 2), sx_real("ey", -2, 2)}; Mat<2> dir[4] = {{1., 0.}, {0., 1.}, {.6, .8}, {-.8, .6}};
  int k = sx_concrete(sx_int("dir", 0, 3)); double len = sx_real("len", .1, 3);
  double dist = (b.center(0) - e0(0))*dir[k](1) - (b.center(1) - e0(1))*dir[k](0);
  sx_assume((dist*dist > r*r + 1e-3) | (dist*dist < r*r - 1e-3));
  sx_assert(int(math::intersects<2>(b, e0, e0 + len*dir[k])) == int(dist*dist < r*r), "ball intersects line iff close enough");
  sx_reach("end");
}
template <int n> static void ortho(Mat<n, n> basis, int id)
{
  Eigen::MatrixXd q = math::orthonormal(Eigen::MatrixXd(basis), id);
  for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) sx_near(q.col(i).dot(q.col(j)), i == j, 1e-6, "orthonormal returns a unitary matrix");
  sx_assert(q.col(id).dot(basis.col(id)) >= -1e-9, "the i_dim column keeps its side");
  // the other columns span the same space: q_id is orthogonal to them
  for (int j = 0; j < n; ++j) if (j != id) sx_near(q.col(id).dot(basis.col(j)), 0., 1e-6, "span of the other columns is preserved");
}
// the columns that keep their span are concrete, the one that is orthogonalised is arbitrary
SX_ENTRY ortho1() { Mat<1, 1> b; b(0) = sx_real("b", -2, 2); sx_assume((b(0) > .1) | (b(0) < -.1)); Eigen::MatrixXd q = math::orthonormal(Eigen::MatrixXd(b), 0); sx_near(q(0)*q(0), 1., 1e-9, "unitary"); sx_assert(q(0)*b(0) > 0, "keeps its side"); sx_reach("end"); }
SX_ENTRY ortho2()
{
  Mat<2> us[4] = {{1., 0.}, {0., -2.}, {.3, .4}, {-1., .75}}; int k = sx_concrete(sx_int("other", 0, 3)), id = sx_concrete(sx_int("i_dim", 0, 1)); Mat<2, 2> b; b.col(1 - id) = us[k];
  double sgn = sx_concrete(sx_int("side", 0, 1)) ? 1 : -1; double al = sgn*sx_real("normal", .1, 1), be = sx_real("tangent", -2, 2); b.col(id) = al*Mat<2>{us[k](1), -us[k](0)} + be*us[k]; ortho<2>(b, id); sx_reach("end");
}
SX_ENTRY ortho3()
{
  Mat<3, 2> us[3]; us[0] << 1, 0, 0, 2, 0, 0; us[1] << .5, 0, .5, 1, 0, -1; us[2] << 1, .25, -.5, 1, .25, -2;
  int k = sx_concrete(sx_int("others", 0, 2)), id = sx_concrete(sx_int("i_dim", 0, 2)); Mat<3, 3> b; b.col((id + 1)%3) = us[k].col(0); b.col((id + 2)%3) = us[k].col(1); 
  Mat<3> nrml = us[k].col(0).cross(us[k].col(1)).normalized(); double sgn = sx_concrete(sx_int("side", 0, 1)) ? 1 : -1;
  double al = sgn*sx_real("normal", .1, 1), be = sx_real("tangent", -2, 2), ga = sx_real("tangent", -2, 2); b.col(id) = al*nrml + be*us[k].col(0) + ga*us[k].col(1); ortho<3>(b, id);
  // the other columns are moved symmetrically: each makes the same angle with its original
  Eigen::MatrixXd q = math::orthonormal(Eigen::MatrixXd(b), id);
  sx_near(q.col((id + 1)%3).dot(us[k].col(0))/us[k].col(0).norm(), q.col((id + 2)%3).dot(us[k].col(1))/us[k].col(1).norm(), 1e-9, "the other columns are orthogonalised symmetrically");
  sx_reach("end");
}
SX_ENTRY bisect()
{
  double r = sx_real("root", 0, 1), k = sx_concrete(sx_int("increasing", 0, 1)) ? 1 : -1; double tol = .1;
  double x = math::bisection([&](double t) { return k*(t - r); }, {0., 1.}, tol);
  sx_assert((x - r <= tol) & (r - x <= tol), "bisection finds the root to the tolerance");
  sx_reach("end");
}
SX_ENTRY bisect_bad()
{
  double a = sx_real("a", .1, 5), b = sx_real("b", .1, 5); double s = sx_concrete(sx_int("sign", 0, 1)) ? 1 : -1; bool threw = false;
  try { math::bisection([&](double t) { return s*(a + (b - a)*t); }, {0., 1.}, .1); } catch (std::exception&) { threw = true; }
  sx_assert(threw, "bisection rejects an interval that does not bracket a root"); sx_reach("end");
}
SX_ENTRY broyd()
{
  double r = sx_real("root", -2, 2), a = sx_real("slope", .5, 3), g = sx_real("guess", -2, 2);
  double d = g - r; sx_assume((d > .01) | (d < -.01));
  double x = math::broyden([&](double t) { return sx_concrete(1)*a*(t - r); }, g);
  sx_near(x, r, 1e-6, "Broyden's method finds the root of a linear function"); sx_reach("end");
}
SX_ENTRY erase()
{
  int n = 5, bits[5]; std::vector<int> v, want;
  for (int i = 0; i < n; ++i) { bits[i] = sx_concrete(sx_int("erase", 0, 1)); v.push_back(i); if (!bits[i]) want.push_back(i); }
  erase_if(v, [&](int i) { return bool(bits[i]); }); sx_assert(v == want, "erase_if keeps exactly the rest, in order");
  sx_reach("end");
}
