// Element geometry: positions, Jacobian, normals, storage layout, free-stream preservation
#include "kern.hpp"
typedef std::vector<double> Vd;
// position of reference point x (face-adjustment index given by the quadrature point): multilinear map plus adjustments along the grid lines
static double vert_weight(int n, int v, const double* x, int skip) { double w = 1; for (int d = 0; d < n; ++d) if (d != skip) { int s = (v >> (n - 1 - d))%2; w *= s ? x[d] : 1 - x[d]; } return w; }
struct Shape
{
  World& w; Deformed_element& e; std::vector<Vd> x; Vd adj;
  Shape(World& ww, Deformed_element& ee) : w{ww}, e{ee} {}
  Vd pos(int q)
  {
    int n = w.n; double r[3] {}; for (int d = 0; d < n; ++d) r[d] = w.basis.node(w.coord(q, d)); Vd p(n, 0.);
    for (int i = 0; i < n; ++i) {
      for (size_t v = 0; v < x.size(); ++v) p[i] += vert_weight(n, v, r, -1)*x[v][i];
      for (int j = 0; j < n; ++j) {
        double a = 0, g = 0; int fq = w.fq_of(q, j); a = (1 - r[j])*adj[2*j*w.nf + fq] + r[j]*adj[(2*j + 1)*w.nf + fq];
        for (size_t v = 0; v < x.size(); ++v) g += ((v >> (n - 1 - j))%2 ? 1 : -1)*vert_weight(n, v, r, j)*x[v][i];
        p[i] += a*g;
      }
    }
    return p;
  }
};
static double det(int n, const double m[3][3]) // m[row][col]
{
  if (n == 1) return m[0][0]; if (n == 2) return m[0][0]*m[1][1] - m[0][1]*m[1][0];
  double s = 0; for (int i = 0; i < 3; ++i) s += m[0][i]*(m[1][(i + 1)%3]*m[2][(i + 2)%3] - m[1][(i + 2)%3]*m[2][(i + 1)%3]); return s;
}
// normal i component j: derivative of the determinant with respect to m[j][i]
static double cof(int n, const double m[3][3], int i, int j) { double c[3][3]; for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) c[a][b] = b == i ? double(a == j) : m[a][b]; return det(n, c); }
// an element whose vertices are near a sheared box; one vertex, and one face's adjustments, arbitrary (all if `all`)
static void shape(Shape& s, int row, double h, double wd)
{
  int n = s.w.n, nv = ipow(2, n), k = pick("part", 0, nv + 2*n), any = k - 1, fa = k - 1 - nv, tilt = k > 0; // every vertex and every face takes part
  for (int v = 0; v < nv; ++v) {
    Mat<3>& p = s.e.vertex(v).pos; double c[3]; for (int d = 0; d < n; ++d) c[d] = (v >> (n - 1 - d))%2;
    for (int d = 0; d < n; ++d) { double y = c[d] - .125*d - tilt*.03*c[0]*c[n - 1]*(d + 1); for (int j = 0; j < n; ++j) if (j != d) y += tilt*(.25 - .1*d + .07*j)*c[j]; if (v == any) y += sx_real("vertex_pos", -wd, wd); p(d) = h*y; }
    s.x.emplace_back(p.data(), p.data() + n);
  }
  s.adj.assign(2*n*s.w.nf, 0.); for (int f = 0; f < 2*n; ++f) for (int q = 0; q < s.w.nf; ++q) { double a = tilt*.01*(1 + f%3 + 2*q); if (f == fa) a = sx_real("adj", -wd, wd); s.adj[f*s.w.nf + q] = s.e.node_adjustments()[f*s.w.nf + q] = a; }
}
// the one-dimensional Lagrange matrices
struct Lag { Vd l0, l1; std::vector<Vd> dl; Lag(World& w) : l0(w.row), l1(w.row), dl(w.row, Vd(w.row)) { for (int i = 0; i < w.row; ++i) { l0[i] = w.lag(i, 0); l1[i] = w.lag(i, 1); for (int j = 0; j < w.row; ++j) dl[i][j] = w.dlag(i, j); } } };
static void geometry(int n, int row, double wd)
{
  World w(n, row); const int lev = n < 3 ? pick("level", 0, 1) : 1; const double h = lev ? .75 : 1.5; Deformed_element e(w.prm, {}, 1.5, lev); w.add(e); w.close(e); Shape s(w, e); shape(s, row, h, wd); Lag L(w);
  std::vector<Vd> ps; for (int q = 0; q < w.nq; ++q) { ps.push_back(s.pos(q)); Vd g = e.position(w.basis, q); sx_assert(int(g.size()) == n, "dimension"); for (int i = 0; i < n; ++i) sx_near(g[i], ps[q][i], 1e-9, "quadrature points follow the multilinear map with the faces' adjustments"); }
  e.set_jacobian(w.basis);
  std::vector<std::array<std::array<double, 3>, 3>> J(w.nq);
  for (int q = 0; q < w.nq; ++q) {
    double m[3][3] {}; for (int j = 0; j < n; ++j) { int c = w.coord(q, j), st = ipow(row, n - 1 - j); for (int i = 0; i < n; ++i) { for (int k = 0; k < row; ++k) m[i][j] += L.dl[k][c]*ps[q + (k - c)*st][i]; m[i][j] /= h; } }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) J[q][i][j] = m[i][j];
    sx_near(e.jacobian_determinant()[q], det(n, m), 1e-9, "determinant of the Jacobian"); sx_near(e.jacobian_determinant(q), e.jacobian_determinant()[q], 0, "both forms of the determinant");
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) sx_near(e.reference_level_normals()[(i*n + j)*w.nq + q], cof(n, m, i, j), 1e-9, "normals are the cofactors of the Jacobian");
  }
  for (int d = 0; d < n; ++d) for (int sg = 0; sg < 2; ++sg) for (int f = 0; f < w.nf; ++f) {
    double m[3][3] {}; Vd p(n, 0.); for (int q = 0; q < w.nq; ++q) if (w.fq_of(q, d) == f) { double l = (sg ? L.l1 : L.l0)[w.coord(q, d)]; for (int i = 0; i < n; ++i) { p[i] += l*ps[q][i]; for (int j = 0; j < n; ++j) m[i][j] += l*J[q][i][j]; } }
    Vd g = e.face_position(w.basis, 2*d + sg, f); for (int i = 0; i < n; ++i) { sx_near(g[i], p[i], 1e-9, "face positions are extrapolated"); sx_near(e.face(2*d + sg, false)[i*w.nf + f], cof(n, m, d, i), 1e-9, "face normals are the cofactors of the extrapolated Jacobian"); }
  }
  sx_reach("end");
}
SX_ENTRY geom1() { geometry(1, 3, .01); }
SX_ENTRY geom2() { geometry(2, 2, .01); }
SX_ENTRY geom2r3() { geometry(2, 3, .01); }
SX_ENTRY geom3() { geometry(3, 2, .01); }
// a uniform state is not changed by a step if the faces see its flux through the face normals
static void free_stream(int n, int row, bool adjust, double wd)
{
  World w(n, row); const double h = 1.25; Deformed_element e(w.prm, {}, 1.25, 0); w.add(e); w.close(e); Shape s(w, e); shape(s, row, h, wd); 
  if (!adjust) for (int i = 0; i < 2*n*w.nf; ++i) e.node_adjustments()[i] = 0;
  e.set_jacobian(w.basis);
  double u[5]; for (int d = 0; d < n; ++d) u[d] = .3 - .2*d; u[n] = 1.1; u[n + 1] = 2.6; for (int v = 0; v < w.nv; ++v) for (int q = 0; q < w.nq; ++q) e.state()[v*w.nq + q] = u[v];
  for (int f = 0; f < 2*n; ++f) for (int q = 0; q < w.nf; ++q) { double a[3] {}, x[5]; for (int d = 0; d < n; ++d) a[d] = e.face(f, false)[d*w.nf + q]; euler_flux(u, n, 1, a, x); for (int v = 0; v < w.nv; ++v) e.face(f, false)[v*w.nf + q] = x[v]; }
  compute_euler(w.mesh(), w.opt(.1));
  for (int v = 0; v < w.nv; ++v) for (int q = 0; q < w.nq; ++q) sx_near((e.state()[v*w.nq + q] - u[v])*e.jacobian_determinant()[q], 0, 1e-9, "uniform flow is preserved");
  sx_reach("end");
}
SX_ENTRY free1() { free_stream(1, 3, true, .01); }
SX_ENTRY free2() { free_stream(2, 2, true, .01); }
SX_ENTRY free2r3() { free_stream(2, 3, true, .01); }
SX_ENTRY free3() { free_stream(3, 2, false, .01); }
// Cartesian elements, and the time-step spacing of deformed ones
SX_ENTRY cartesian()
{
  int n = pick("n", 1, 3); World w(n, n == 1 ? 3 : 2); double h0 = sx_real("size", .5, 3); int lev = pick("level", 0, 3); double h = h0/ipow(2, lev); Mat<> org(3); for (int i = 0; i < 3; ++i) org(i) = sx_real("origin", -2, 2);
  std::vector<int> np; int k = pick("n_coords", 0, 3); for (int i = 0; i < k; ++i) np.push_back(i == lev%3 ? -3*i - 1 : 5 - i); 
  bool def = pick("deformed", 0, 1); std::unique_ptr<Element> pe(def ? new Deformed_element(w.prm, np, h0, lev, org) : new Element(w.prm, np, h0, lev, org)); Element& e = *pe; w.close(e);
  auto at = [&](int i, double x) { return org(i) + ((i < k ? double(np[i]) : 0.) + x)*h; };
  sx_near(e.nominal_size(), h, 1e-12, "nominal size"); sx_assert(e.refinement_level() == lev, "level"); for (int i = 0; i < n; ++i) sx_assert(e.nominal_position()[i] == (i < k ? np[i] : 0), "nominal position");
  for (int v = 0; v < ipow(2, n); ++v) for (int i = 0; i < 3; ++i) sx_near(e.vertex(v).pos(i), i < n ? at(i, (v >> (n - 1 - i))%2) : 0., 1e-9, "vertices of the box");
  for (int q = 0; q < w.nq; ++q) { Vd p = e.position(w.basis, q); for (int i = 0; i < n; ++i) sx_near(p[i], at(i, w.basis.node(w.coord(q, i))), 1e-9, "quadrature points of the box"); }
  for (int f = 0; f < 2*n; ++f) for (int q = 0; q < w.nf; ++q) { Vd p = e.face_position(w.basis, f, q); int j = w.nf; for (int i = 0; i < n; ++i) { double x; if (i == f/2) x = f%2; else { j /= w.row; x = w.basis.node(q/j%w.row); } sx_near(p[i], at(i, x), 1e-9, "face points of the box"); } }
  if (!def) { e.set_jacobian(w.basis); for (int f = 0; f < 2*n; ++f) for (int q = 0; q < w.nf; ++q) for (int i = 0; i < n; ++i) sx_near(e.face(f, false)[i*w.nf + q], i == f/2, 0, "unit normals"); for (int q = 0; q < w.nq; ++q) { sx_near(e.jacobian_determinant(q), 1, 0, "determinant"); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) sx_near(e.jacobian(i, j, q), i == j, 0, "jacobian"); } }
  for (int v = 0; v < ipow(2, n); ++v) sx_near(e.vertex_time_step_scale(v), h/n, 1e-9, "initial spacing");
  sx_reach("end");
}
