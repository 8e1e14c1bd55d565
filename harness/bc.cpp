// Boundary conditions: the ghost state and flux that each one prescribes
#include "ref.hpp"
#include <Boundary_condition.hpp>
#include <connection.hpp>
#include <constants.hpp>
#include <memory>
#include <vector>
using namespace hexed;
typedef std::vector<double> Vd;
static int ipow(int b, int e) { int r = 1; while (e-- > 0) r *= b; return r; }
static void reals(double* u, int k, const char* nm, double lo, double hi) { for (int i = 0; i < k; ++i) u[i] = sx_real(nm, lo, hi); }
struct Face
{
  int n, row, nf, nv, sz, i_dim; bool sign; Storage_params p; Deformed_element e; Typed_bound_connection<Deformed_element> con; int out;
  Face(int nd, int r, int d, bool s) : n{nd}, row{r}, nf{ipow(r, nd - 1)}, nv{nd + 2}, i_dim{d}, sign{s}, p{2, nd + 2, nd, r}, e(p), con(e, d, s, 0), out{s ? 1 : -1}
  {
    sz = nv*nf;
    for (int b = 0; b < 2; ++b) for (int i = 0; i < sz; ++i) { con.ghost_face(b)[i] = .5; con.inside_face(b)[i] = .25; }
    for (int i = 0; i < 2*sz; ++i) con.state_cache()[i] = 0;
    for (int d = 0; d < n; ++d) for (int q = 0; q < nf; ++q) { con.surface_position()[d*nf + q] = 0; con.surface_normal()[d*nf + q] = d == i_dim; }
  }
  // normal vectors from a list of concrete ones, not of unit length
  Vd nrml(int q) { static const double c[3][3] {{1.25, .5, -.25}, {-.75, 1., .5}, {.3, .4, 1.2}}; Vd r(n); for (int d = 0; d < n; ++d) r[d] = c[(d + 3 - i_dim + q)%3][d]; r[i_dim] += 2; return r; }
  void concrete_normals() { for (int q = 0; q < nf; ++q) for (int d = 0; d < n; ++d) con.surface_normal()[d*nf + q] = nrml(q)[d]; }
  void any_normals() { for (int q = 0; q < nf; ++q) for (int d = 0; d < n; ++d) con.surface_normal()[d*nf + q] = sx_real("nrml", (d == i_dim) - .3, (d == i_dim) + .3); }
  void any_state() { double* u = con.inside_face(false); for (int q = 0; q < nf; ++q) { for (int d = 0; d < n; ++d) u[d*nf + q] = sx_real("mmtm", -1, 1); u[n*nf + q] = sx_real("mass", .5, 1.5); u[(n + 1)*nf + q] = sx_real("ener", 2., 3.); } }
  void any_flux() { reals(con.inside_face(true), sz, "flux", -2, 2); }
  double in(int v, int q, bool l = false) { return con.inside_face(l)[v*nf + q]; }
  double gh(int v, int q, bool l = false) { return con.ghost_face(l)[v*nf + q]; }
  double nr(int d, int q) { return con.surface_normal()[d*nf + q]; }
  Vd inside(bool l) { return Vd(con.inside_face(l), con.inside_face(l) + sz); }
};
static std::unique_ptr<Face> any_face(int row) { int n = pick("n", 1, 3); int d = pick("i_dim", 0, n - 1); int s = pick("sign", 0, 1); return std::make_unique<Face>(n, row, d, s); }
static void same(const Vd& a, const Vd& b, const char* m) { for (size_t i = 0; i < a.size(); ++i) sx_near(a[i], b[i], 0, m); }
SX_ENTRY wall_slip()
{
  auto p = any_face(2); Face& f = *p; f.any_state(); f.any_flux(); f.any_normals(); Nonpenetration bc; Vd s = f.inside(false), x = f.inside(true);
  bc.apply_state(f.con); bc.apply_flux(f.con);
  same(f.inside(false), s, "the inside state is not changed"); same(f.inside(true), x, "the inside flux is not changed");
  for (int q = 0; q < f.nf; ++q) {
    double nn = 0, ms = 0, fd = 0; Vd a(f.n), b(f.n);
    for (int d = 0; d < f.n; ++d) { a[d] = f.in(d, q) + f.gh(d, q); b[d] = f.gh(d, q, true) - f.in(d, q, true); nn += f.nr(d, q)*f.nr(d, q); ms += a[d]*f.nr(d, q); fd += b[d]*f.nr(d, q); }
    sx_near(ms, 0, 1e-9, "no flow through the wall on average");
    sx_near(fd, 0, 1e-9, "normal momentum flux is left alone");
    for (int d = 0; d < f.n; ++d) for (int c = 0; c < d; ++c) {
      sx_near((f.gh(c, q) - f.in(c, q))*f.nr(d, q), (f.gh(d, q) - f.in(d, q))*f.nr(c, q), 1e-9, "tangential momentum is left alone");
      sx_near((f.gh(c, q, true) + f.in(c, q, true))*f.nr(d, q), (f.gh(d, q, true) + f.in(d, q, true))*f.nr(c, q), 1e-9, "no shear at the wall on average");
    }
    for (int v = f.n; v < f.nv; ++v) { sx_near(f.gh(v, q), f.in(v, q), 0, "mass and energy are copied"); sx_near(f.gh(v, q, true), -f.in(v, q, true), 0, "no mass or energy flux on average"); }
  }
  sx_reach("end");
}
SX_ENTRY wall_noslip()
{
  auto p = any_face(2); Face& f = *p; f.any_state(); f.any_flux(); f.concrete_normals(); int kind = pick("thermal", 0, 2);
  double e = 0, q0 = 0, em = 0, h = 0, t0 = 0; std::shared_ptr<Thermal_bc> th;
  if (kind == 0) { e = sx_real("specific_energy", 1, 4); th = std::make_shared<Prescribed_energy>(e); }
  else if (kind == 1) { q0 = sx_real("heat_flux", -2, 2); th = std::make_shared<Prescribed_heat_flux>(q0); }
  else { auto t = std::make_shared<Thermal_equilibrium>(); t->emissivity = em = sx_real("emissivity", 0, 1); t->heat_transfer_coef = h = sx_real("heat_transfer_coef", 0, 2); t->temperature = t0 = sx_real("wall_temperature", 0, 2); th = t; }
  double co = 2; No_slip dflt(th); std::unique_ptr<No_slip> other; if (pick("coercion", 0, 1)) { co = sx_real("coercion_value", 1, 3); other.reset(new No_slip(th, co)); }
  No_slip& bc = other ? *other : dflt; Vd s = f.inside(false), x = f.inside(true);
  bc.apply_state(f.con); bc.apply_flux(f.con);
  same(f.inside(false), s, "the inside state is not changed"); same(f.inside(true), x, "the inside flux is not changed");
  for (int q = 0; q < f.nf; ++q) {
    double nn = 0; for (int d = 0; d < f.n; ++d) nn += f.nrml(q)[d]*f.nrml(q)[d]; nn = std::sqrt(nn);
    for (int d = 0; d < f.n; ++d) { sx_near(f.gh(d, q), -f.in(d, q), 0, "momentum vanishes on average"); sx_near(f.gh(d, q, true), f.in(d, q, true), 0, "momentum flux is left alone"); }
    sx_near(f.gh(f.n, q), f.in(f.n, q), 0, "mass is copied"); sx_near(f.gh(f.n, q, true), -f.in(f.n, q, true), 0, "no mass flux on average");
    double ei = f.in(f.n + 1, q), eg = f.gh(f.n + 1, q), m = f.in(f.n, q), fi = f.in(f.n + 1, q, true), fg = f.gh(f.n + 1, q, true);
    if (kind == 0) { sx_near(eg*ei, e*m*e*m, 1e-9, "the energies on both sides have the prescribed geometric mean"); sx_near(fg, fi, 1e-9, "energy flux is left alone"); }
    else {
      sx_near(eg, ei, 1e-9, "energy is copied");
      double want = q0; if (kind == 2) { double t = .4*ei/m/constants::specific_gas_air; want = em*constants::stefan_boltzmann*t*t*t*t + h*(t - t0); }
      sx_near(fg, fi + co*(f.out*nn*want - fi), 1e-9, "energy flux is coerced to the prescribed heat flux out of the domain");
    }
  }
  sx_reach("end");
}
static Vd surf_val(int n, const Vd& p, const Vd& s, const Vd& nr) { Vd r(n + 2); for (int v = 0; v < n + 2; ++v) r[v] = .5*s[v] + p[v%n]*(v + 1) - 2*nr[(v + 1)%n]; return r; }
struct Surf : Surface_func { int n; Surf(int k) : n{k} {} int n_var(int) const override { return n + 2; } Vd operator()(Vd p, double t, Vd s, Vd nr) const override { return surf_val(n, p, s, nr); } };
SX_ENTRY prescribed()
{
  auto p = any_face(2); Face& f = *p; f.any_state(); f.any_flux(); f.any_normals(); reals(f.con.surface_position(), f.n*f.nf, "pos", -3, 3); Vd s = f.inside(false), x = f.inside(true);
  int kind = pick("kind", 0, 4); Mat<> fs(f.nv); for (int v = 0; v < f.nv; ++v) fs(v) = sx_real("freestream", -4, 4); Surf sf(f.n);
  std::unique_ptr<Flow_bc> bc;
  if (kind == 0) bc.reset(new Freestream(fs)); else if (kind == 1) bc.reset(new Function_bc(sf)); else if (kind == 2) bc.reset(new Cache_bc(new Surf(f.n))); else if (kind == 3) bc.reset(new Copy); else bc.reset(new Outflow);
  bc->init_cache(f.con);
  if (kind == 2) for (int i = 0; i < f.sz; ++i) f.con.inside_face(false)[i] = s[i] + 1; // later states do not matter
  bc->apply_state(f.con); 
  Vd gs(f.con.ghost_face(false), f.con.ghost_face(false) + f.sz); bc->apply_flux(f.con);
  same(f.inside(true), x, "the inside flux is not changed"); if (kind != 2) same(f.inside(false), s, "the inside state is not changed");
  for (int q = 0; q < f.nf; ++q) {
    Vd ps(f.n), st(f.nv), nr(f.n); for (int d = 0; d < f.n; ++d) { ps[d] = f.con.surface_position()[d*f.nf + q]; nr[d] = f.nr(d, q); } for (int v = 0; v < f.nv; ++v) st[v] = s[v*f.nf + q];
    Vd w = kind == 0 ? Vd(fs.data(), fs.data() + f.nv) : kind < 3 ? surf_val(f.n, ps, st, nr) : st;
    for (int v = 0; v < f.nv; ++v) { sx_near(gs[v*f.nf + q], w[v], 1e-9, "the ghost state is the prescribed one"); sx_near(f.gh(v, q, true), kind == 4 ? -f.in(v, q, true) : f.in(v, q, true), 0, "viscous flux"); }
  }
  sx_reach("end");
}
SX_ENTRY pressure_out()
{
  auto p = any_face(1); Face& f = *p; f.concrete_normals(); f.any_flux(); double ps = sx_real("pressure", .2, 2);
  int c = pick("flow", 0, 3); double nn = 0; for (int d = 0; d < f.n; ++d) nn += f.nr(d, 0)*f.nr(d, 0);
  // momentum along the normal, subsonic or supersonic, outwards or not
  double fac = c == 0 ? .2 : c == 1 ? 1.6 : c == 2 ? -.3 : 3.; double* u = f.con.inside_face(false); double k = 0;
  for (int d = 0; d < f.n; ++d) { u[d] = f.out*fac*f.nr(d, 0)/std::sqrt(nn) + sx_real("mmtm", -.05, .05); k += u[d]*u[d]; }
  u[f.n] = sx_real("mass", .95, 1.05); double pr = sx_real("inside_pressure", .9, 1.1); u[f.n + 1] = pr/.4 + .5*k/u[f.n];
  Vd s = f.inside(false); Pressure_outflow bc(ps); bc.apply_state(f.con); bc.apply_flux(f.con); same(f.inside(false), s, "the inside state is not changed");
  for (int v = 0; v <= f.n; ++v) sx_near(f.gh(v, 0), s[v], 1e-9, "mass and momentum are copied");
  double g = .4*(f.gh(f.n + 1, 0) - .5*k/u[f.n]);
  if (c == 0 || c == 2) sx_near(g, ps, 1e-9, "subsonic: the ghost pressure is the specified one"); else sx_near(f.gh(f.n + 1, 0), s[f.n + 1], 1e-9, "supersonic outflow is left alone");
  for (int v = 0; v < f.nv; ++v) sx_near(f.gh(v, 0, true), -f.in(v, 0, true), 0, "no viscous flux on average");
  sx_reach("end");
}
// characteristic variables of the linearised Euler equations about `r` in direction `nr` (closed-form left eigenvectors): n + 2 values; speeds in `lam`
static Vd charac(int n, const double* r, const Vd& dir, const Vd& u, Vd& lam)
{
  double nn = 0; for (double d : dir) nn += d*d; Vd e(n), v(n); double un = 0, q2 = 0; for (int d = 0; d < n; ++d) { e[d] = dir[d]/std::sqrt(nn); v[d] = r[d]/r[n]; un += v[d]*e[d]; q2 += v[d]*v[d]; }
  double p = .4*(r[n + 1] - .5*r[n]*q2), c = std::sqrt(1.4*p/r[n]), b = .4/(c*c), mn = 0, vm = 0; for (int d = 0; d < n; ++d) { mn += u[d]*e[d]; vm += u[d]*v[d]; }
  Vd w; w.push_back(.5*((b*q2*.5 + un/c)*u[n] - b*vm - mn/c + b*u[n + 1])); lam.push_back(un - c);
  w.push_back(.5*((b*q2*.5 - un/c)*u[n] - b*vm + mn/c + b*u[n + 1])); lam.push_back(un + c);
  w.push_back((1 - b*q2*.5)*u[n] + b*vm - b*u[n + 1]); lam.push_back(un);
  for (int d = 0; d + 1 < n; ++d) { // tangential directions
    Vd t(n, 0.); int a = n == 2 ? 0 : (d + (std::abs(e[0]) > .9))%3, k = n == 2 ? 1 : 0; (void) k;
    if (n == 2) { t[0] = -e[1]; t[1] = e[0]; } else { Vd x(3, 0.); x[a] = 1; for (int i = 0; i < 3; ++i) t[i] = e[(i + 1)%3]*x[(i + 2)%3] - e[(i + 2)%3]*x[(i + 1)%3]; }
    double s = 0; for (int i = 0; i < n; ++i) s += t[i]*(u[i] - v[i]*u[n]); w.push_back(s); lam.push_back(un);
  }
  return w;
}
static const double refs[4][5] {{.3, .1, -.2, 1., 2.5}, {-.4, .2, .1, 1.2, 2.7}, {3.1, -.3, .2, 1.1, 7.5}, {-2.9, .4, .3, 1., 7.}}; // momentum normal to the face first; subsonic and supersonic, both ways
static void set_ref(Face& f, double* u, int c) { for (int d = 0; d < f.n; ++d) u[d] = refs[c][(d - f.i_dim + 3)%3]; u[f.n] = refs[c][3]; u[f.n + 1] = refs[c][4]; }
SX_ENTRY riemann()
{
  auto p = any_face(1); Face& f = *p; f.concrete_normals(); int c = pick("flow", 0, 3); double r[5]; set_ref(f, r, c); double* u = f.con.inside_face(false); for (int v = 0; v < f.nv; ++v) u[v] = r[v];
  f.any_flux(); Mat<> fs(f.nv); for (int v = 0; v < f.nv; ++v) fs(v) = sx_real("freestream", r[v] - .05, r[v] + .05);
  Riemann_invariants bc(fs); bc.apply_state(f.con); Vd g(f.con.ghost_face(false), f.con.ghost_face(false) + f.nv); bc.apply_flux(f.con);
  Vd x(f.nv), y(f.nv); for (int v = 0; v < f.nv; ++v) { x[v] = f.in(v, 0, true); y[v] = f.gh(v, 0, true); sx_near(f.in(v, 0), r[v], 0, "the inside state is not changed"); }
  Vd l, l1, l2, l3, l4; Vd dir(f.n); for (int d = 0; d < f.n; ++d) dir[d] = f.nr(d, 0);
  Vd wi = charac(f.n, r, dir, Vd(r, r + f.nv), l), wf = charac(f.n, r, dir, Vd(fs.data(), fs.data() + f.nv), l1), wg = charac(f.n, r, dir, g, l2), fi = charac(f.n, r, dir, x, l3), fg = charac(f.n, r, dir, y, l4);
  for (int k = 0; k < f.nv; ++k) {
    bool in = l[k]*f.out < 0;
    sx_near(wg[k], in ? wf[k] : wi[k], 1e-9, "incoming characteristics come from the freestream and outgoing ones from inside");
    sx_near(fg[k], in ? fi[k] : 0., 1e-9, "the flux of outgoing characteristics vanishes and that of incoming ones is left alone");
  }
  sx_reach("end");
}
SX_ENTRY riemann_admissible()
{
  int n = pick("n", 1, 3); Face f(n, 1, n - 1, pick("sign", 0, 1)); f.concrete_normals(); int c = pick("flow", 0, 3); double r[5]; set_ref(f, r, c); double* u = f.con.inside_face(false); for (int v = 0; v < f.nv; ++v) u[v] = r[v];
  Mat<> fs(f.nv); for (int v = 0; v < f.nv; ++v) fs(v) = 0; // freestreams much thinner, hotter or faster than the flow inside
  int which = pick("free", 0, 1); fs(f.n) = .7; fs(f.n + 1) = 2.6;
  if (which) fs(f.n) = sx_real("mass", .01, 9); else fs(f.n + 1) = sx_real("energy", .01, 30); if (pick("moving", 0, 1)) fs(f.i_dim) = 2.5;
  Riemann_invariants bc(fs); bc.apply_state(f.con);
  double k = 0, ki = 0; for (int d = 0; d < f.n; ++d) { k += f.gh(d, 0)*f.gh(d, 0); ki += r[d]*r[d]; } double m = f.gh(f.n, 0);
  sx_assert(m >= .4999*r[f.n], "the ghost density is at least half of the inside density");
  sx_assert(f.gh(f.n + 1, 0) - .5*k/m >= .4999*(r[f.n + 1] - .5*ki/r[f.n]), "the ghost pressure is at least half of the inside pressure");
  sx_reach("end");
}
SX_ENTRY advection()
{
  int n = pick("n", 1, 3), row = n == 1 ? pick("row", 1, 8) : n == 2 ? 3 : 2; Face f(n, row, pick("i_dim", 0, n - 1), pick("sign", 0, 1)); f.any_normals();
  int na = f.p.n_advection(row), tot = (n + na)*f.nf; double* in = f.con.inside_face(false); reals(in, tot, "in", -2, 2); Vd s(in, in + tot); for (int i = 0; i < tot; ++i) f.con.ghost_face(false)[i] = .75;
  int kind = pick("kind", 0, 5); Mat<> fs = Mat<>::Constant(n + 2, 1.); Freestream a(fs); Riemann_invariants b(fs); Outflow c; Nonpenetration d; No_slip e; Copy g; Flow_bc* bcs[] {&a, &b, &c, &d, &e, &g};
  bcs[kind]->apply_advection(f.con);
  for (int i = 0; i < tot; ++i) sx_near(in[i], s[i], 0, "the inside state is not changed");
  for (int q = 0; q < f.nf; ++q) {
    if (kind == 3) { double ms = 0; for (int d = 0; d < n; ++d) ms += (in[d*f.nf + q] + f.con.ghost_face(false)[d*f.nf + q])*f.nr(d, q); sx_near(ms, 0, 1e-9, "no advection through the wall on average");
      for (int d = 0; d < n; ++d) for (int c = 0; c < d; ++c) sx_near((f.con.ghost_face(false)[c*f.nf + q] - in[c*f.nf + q])*f.nr(d, q), (f.con.ghost_face(false)[d*f.nf + q] - in[d*f.nf + q])*f.nr(c, q), 1e-9, "tangential velocity is left alone"); }
    else for (int d = 0; d < n; ++d) sx_near(f.con.ghost_face(false)[d*f.nf + q], kind == 4 ? -in[d*f.nf + q] : in[d*f.nf + q], 0, "advection velocity");
    for (int v = n; v < n + na; ++v) sx_near(f.con.ghost_face(false)[v*f.nf + q], kind < 3 ? 2 - in[v*f.nf + q] : in[v*f.nf + q], 0, "advected scalar is 1 on average at open boundaries and unchanged at walls");
  }
  sx_reach("end");
}
SX_ENTRY diffusion()
{
  auto p = any_face(2); Face& f = *p; f.any_state(); f.any_flux(); Nonpenetration d; Outflow o; Flow_bc& bc = pick("kind", 0, 1) ? (Flow_bc&) d : o;
  bc.apply_diffusion(f.con); bc.flux_diffusion(f.con);
  for (int v = 0; v < f.nv; ++v) for (int q = 0; q < f.nf; ++q) { sx_near(f.gh(v, q), f.in(v, q), 0, "state is copied"); sx_near(f.gh(v, q, true), -f.in(v, q, true), 0, "no flux on average"); }
  sx_reach("end");
}
SX_ENTRY nominal()
{
  int n = pick("n", 1, 3), d = pick("i_dim", 0, n - 1); bool s = pick("sign", 0, 1); Storage_params p {2, n + 2, n, 2}; double h = sx_real("size", .5, 3); Mat<> org(n); for (int i = 0; i < n; ++i) org(i) = sx_real("origin", -2, 2);
  std::vector<int> np; for (int i = 0; i < n; ++i) np.push_back(pick("nominal", -1, 1)); Deformed_element e(p, np, h, 1, org); Typed_bound_connection<Deformed_element> con(e, d, s, 0); std::vector<Mat<3>> x;
  for (int v = 0; v < p.n_vertices(); ++v) { Mat<3>& y = e.vertex(v).pos; for (int i = 0; i < 3; ++i) y(i) = sx_real("pos", -3, 3); x.push_back(y); }
  Nominal_pos bc; bc.snap_vertices(con);
  for (int v = 0; v < p.n_vertices(); ++v) for (int i = 0; i < 3; ++i) {
    bool on = i == d && (v >> (n - 1 - d))%2 == s;
    sx_near(e.vertex(v).pos(i), on ? org(d) + (np[d] + s)*h/2 : x[v](i), 1e-9, "vertices of the face move to its nominal plane, nothing else moves");
  }
  sx_reach("end");
}
