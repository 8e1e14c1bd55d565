// Diffusion and advection kernels: one step of the Navier-Stokes, smoothing, thermodynamic fix and advection equations
#include "kern.hpp"
typedef std::vector<double> Vd;
enum Eq {smooth, fix, viscous};
static double det_of(Element& e, int q) { double* j = static_cast<Kernel_element&>(e).jacobian_determinant(); return j ? j[q] : 1.; }
static double nrml_of(Element& e, World& w, int i, int j, int q) { double* p = static_cast<Kernel_element&>(e).reference_level_normals(); return p ? p[(i*w.n + j)*w.nq + q] : double(i == j); }
static void geometry(Element&, World&, int, std::vector<Vd>&) {}
// arbitrary at one point, concrete elsewhere; own normals on some faces, none (Cartesian neighbour) on the others
static void geometry(Deformed_element& e, World& w, int q0, std::vector<Vd>& fn)
{
  for (int i = 0; i < w.n; ++i) for (int j = 0; j < w.n; ++j) for (int q = 0; q < w.nq; ++q) e.reference_level_normals()[(i*w.n + j)*w.nq + q] = q == q0 ? sx_real("nrml", (i == j) - .25, (i == j) + .25) : (i == j) + .0625*((i + 2*j + q)%4);
  for (int q = 0; q < w.nq; ++q) e.jacobian_determinant()[q] = q == q0 ? sx_real("det", .75, 1.25) : 1 + .125*(q%3);
  fn.resize(2*w.n); for (int f = 0; f < 2*w.n; ++f) if (f != 1) { for (int d = 0; d < w.n; ++d) for (int k = 0; k < w.nf; ++k) fn[f].push_back((d == f/2) + .0625*((d + k + f)%3)); e.face_normal(f) = fn[f].data(); }
}
static Vd storage(Element& e, World& w) { return Vd(e.state(), e.state() + w.prm.n_dof_numeric()); }
struct Ops
{
  World& w; Vd wt, l[2]; std::vector<Vd> dl;
  Ops(World& ww) : w{ww}, wt(ww.row), dl(ww.row, Vd(ww.row)) { auto nw = w.basis.node_weights(); for (int s : {0, 1}) l[s].resize(w.row); for (int i = 0; i < w.row; ++i) { wt[i] = nw(i); for (int s : {0, 1}) l[s][i] = w.lag(i, s); for (int j = 0; j < w.row; ++j) dl[i][j] = w.dlag(i, j); } }
  int nb(int q, int d, int j) { return q + (j - w.coord(q, d))*ipow(w.row, w.n - 1 - d); }
  // weak derivative with given values on the faces, derivative of the interpolating polynomial, lifting of face values, face values
  double weak(const double* u, const double* b0, const double* b1, int d, int q) { int i = w.coord(q, d), k = w.fq_of(q, d); double s = l[1][i]*b1[k] - l[0][i]*b0[k]; for (int j = 0; j < w.row; ++j) s -= wt[j]*dl[i][j]*u[nb(q, d, j)]; return s/wt[i]; }
  double strong(const double* u, int d, int q) { double s = 0; for (int j = 0; j < w.row; ++j) s += dl[j][w.coord(q, d)]*u[nb(q, d, j)]; return s; }
  double lift(const double* b0, const double* b1, int d, int q) { int i = w.coord(q, d), k = w.fq_of(q, d); return (l[1][i]*b1[k] - l[0][i]*b0[k])/wt[i]; }
  double extrap(const double* u, int f, int k) { double s = 0; for (int p = 0; p < w.nq; ++p) if (w.fq_of(p, f/2) == k) s += l[f%2][w.coord(p, f/2)]*u[p]; return s; }
  void filter(Vd& r) { Eigen::MatrixXd m = w.basis.filter(); for (int d = 0; d < w.n; ++d) { Vd o = r; for (size_t k = 0; k < r.size(); ++k) { int q = k%w.nq; double s = 0; for (int j = 0; j < w.row; ++j) s += m(w.coord(q, d), j)*o[k - q + nb(q, d, j)]; r[k] = s; } } }
};
// flux of a Newtonian fluid that conducts heat, with artificial bulk and Laplacian viscosity; g[var][direction], f[var][direction]
static void newton(int n, const Vd& u, const std::vector<Vd>& g, double mu, double cond, double bulk, double lap, std::vector<Vd>& f)
{
  double rho = u[n], tr = 0, ke = cond*(gam - 1)/constants::specific_gas_air; std::vector<Vd> dv(n, Vd(n)), st(n, Vd(n));
  for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) dv[j][i] = (g[j][i] - u[j]/rho*g[n][i])/rho;
  for (int i = 0; i < n; ++i) tr += dv[i][i];
  for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) st[j][i] = mu*(dv[j][i] + dv[i][j]) + (i == j ? (bulk*rho - 2./3.*mu)*tr : 0.);
  for (int i = 0; i < n; ++i) {
    double de = g[n + 1][i]/rho - u[n + 1]/rho/rho*g[n][i], work = 0; for (int j = 0; j < n; ++j) { de -= u[j]/rho*dv[j][i]; work += u[j]/rho*st[j][i]; }
    for (int v = 0; v < n + 2; ++v) f[v][i] = -lap*g[v][i]; for (int j = 0; j < n; ++j) f[j][i] -= st[j][i]; f[n + 1][i] -= work + ke*de;
  }
}
template <class E> static void diffuse(Eq eq, int n, int row)
{
  World w(n, row); Ops op(w); const int nq = w.nq, nf = w.nf, nv = eq == smooth ? 3 : n + 2; double h = sx_real("size", .5, 2), dt = sx_real("dt", .01, .1), tau = 1, cheb = 1, mu = 0, cond = 0;
  E e(w.prm, {}, h, 0); w.add(e); w.close(e); std::vector<Vd> fn; int q0 = n == 3 ? 1 : pick("qpoint", 0, nq - 1); geometry(e, w, q0, fn); bool filt = pick("filter", 0, 1), resid = eq == viscous && pick("residual", 0, 1);
  for (int i = 0; i < w.prm.n_dof_numeric(); ++i) e.state()[i] = .01*(i%7) - .02; for (int q = 0; q < nq; ++q) e.time_step_scale()[q] = q == q0 ? sx_real("tss", .5, 1.5) : .5 + .125*q;
  double* u = e.state(); if (eq == smooth) { u = e.art_visc_forcing() + nq; tau = sx_real("time", .5, 2); cheb = sx_real("chebyshev", .5, 2); }
  if (eq == viscous) {
    mu = sx_real("viscosity", .1, .9); cond = sx_real("conductivity", 100., 900.);
    for (int q = 0; q < nq; ++q) { for (int d = 0; d < n; ++d) u[d*nq + q] = q == q0 ? sx_real("mmtm", -.5, .5) : .125*(d + 1) - .25*(q%2); u[n*nq + q] = 1 + .25*(q%3); u[(n + 1)*nq + q] = q == q0 ? sx_real("ener", 2, 3) : 2.5 + .125*(q%4); }
    e.bulk_av_coef()[q0] = sx_real("bulk", -.1, .1); e.laplacian_av_coef()[q0] = sx_real("laplacian", -.1, .1);
  } else { any_reals(u, nv*nq, "u", -1, 1); if (eq == smooth) for (int q = 0; q < nq; ++q) { e.art_visc_forcing()[q] = .25*(q + 1)*(q%2 ? -1 : 1); for (int v = 0; v < 2; ++v) u[v*nq + q] = q == q0 ? (v ? sx_real("u1", -1, 1) : sx_real("u0", -1, 1)) : .0625*(2*q + 1)*(q%3 - 1 + 3*v); } }
  std::vector<Vd> conv, shared, own(2*n), diff(2*n);
  for (int f = 0; f < 2*n; ++f) { any_reals(e.face(f, true), nv*nf, "shared", -1, 1); shared.emplace_back(e.face(f, true), e.face(f, true) + nv*nf); if (eq == viscous) any_reals(e.face(f, false), nv*nf, "flux", -1, 1); conv.emplace_back(e.face(f, false), e.face(f, false) + nv*nf); }
  Vd before = storage(e, w);
  bool called = false; auto bc = [&]() { called = true; for (int f = 0; f < 2*n; ++f) { own[f] = Vd(e.face(f, true), e.face(f, true) + nv*nf); any_reals(e.face(f, true), nv*nf, "difference", -1, 1); diff[f] = Vd(e.face(f, true), e.face(f, true) + nv*nf); } };
  if (eq == smooth) compute_smooth_av(w.mesh(), w.opt(dt, 0, false, filt), bc, tau, cheb); else if (eq == fix) compute_fix_therm_admis(w.mesh(), w.opt(dt, 0, false, filt), bc);
  else compute_navier_stokes(w.mesh(), w.opt(dt, 0, resid, filt), bc, Transport_model::constant(mu), Transport_model::constant(cond));
  sx_assert(called, "boundary fluxes are requested"); Vd after = storage(e, w); const double* ub = before.data() + (u - e.state());
  // gradient, flux through the reference normals
  std::vector<std::vector<Vd>> grad(nv, std::vector<Vd>(n, Vd(nq, 0.))), flux(n, std::vector<Vd>(nv, Vd(nq)));
  for (int v = 0; v < nv; ++v) for (int d = 0; d < n; ++d) for (int j = 0; j < n; ++j) {
    Vd a(nq), b[2]; for (int q = 0; q < nq; ++q) a[q] = ub[v*nq + q]*nrml_of(e, w, d, j, q); for (int s : {0, 1}) { int f = 2*d + s; b[s].resize(nf); for (int k = 0; k < nf; ++k) b[s][k] = shared[f][v*nf + k]*(fn.empty() || fn[f].empty() ? double(j == d) : fn[f][j*nf + k]); }
    for (int q = 0; q < nq; ++q) grad[v][j][q] += op.weak(a.data(), b[0].data(), b[1].data(), d, q);
  }
  for (int q = 0; q < nq; ++q) {
    std::vector<Vd> g(nv, Vd(n)), f(nv, Vd(n)); for (int v = 0; v < nv; ++v) for (int d = 0; d < n; ++d) g[v][d] = grad[v][d][q]/h/det_of(e, q);
    if (eq == viscous) { Vd s(nv); for (int v = 0; v < nv; ++v) s[v] = ub[v*nq + q]; double bu = e.bulk_av_coef()[q], la = e.laplacian_av_coef()[q]; newton(n, s, g, mu, cond, bu < 0 ? -bu : bu, la < 0 ? -la : la, f); }
    else for (int v = 0; v < nv; ++v) for (int d = 0; d < n; ++d) f[v][d] = -g[v][d];
    for (int d = 0; d < n; ++d) for (int v = 0; v < nv; ++v) { double s = 0; for (int j = 0; j < n; ++j) s += f[v][j]*nrml_of(e, w, d, j, q); flux[d][v][q] = s; }
  }
  for (int f = 0; f < 2*n; ++f) for (int v = 0; v < nv; ++v) for (int k = 0; k < nf; ++k) sx_near(own[f][v*nf + k], op.extrap(flux[f/2][v].data(), f, k), 1e-9, "the faces are offered the extrapolated diffusive flux");
  // rates of change
  Vd r1(nv*nq, 0.), r2(nv*nq, 0.);
  for (int v = 0; v < nv; ++v) for (int q = 0; q < nq; ++q) {
    double& a = r1[v*nq + q]; double& b = r2[v*nq + q];
    for (int d = 0; d < n; ++d) { a -= op.strong(flux[d][v].data(), d, q); b -= op.lift(diff[2*d].data() + v*nf, diff[2*d + 1].data() + v*nf, d, q); }
    if (eq == smooth) { double x = ub[(v - 1)*nq + q]; if (x < 0) x = -x; a += h*det_of(e, q)*(v == 1 ? std::sqrt(x) : x)/tau; }
  }
  Vd rc;
  if (eq == viscous) { // the convective part
    rc.assign(nv*nq, 0.); std::vector<Vd> fc(n*nv, Vd(nq)); for (int d = 0; d < n; ++d) for (int q = 0; q < nq; ++q) { double a[3], f[5]; for (int j = 0; j < n; ++j) a[j] = nrml_of(e, w, d, j, q); euler_flux(ub + q, n, nq, a, f); for (int v = 0; v < nv; ++v) fc[d*nv + v][q] = f[v]; }
    for (int v = 0; v < nv; ++v) for (int q = 0; q < nq; ++q) for (int d = 0; d < n; ++d) rc[v*nq + q] -= op.weak(fc[d*nv + v].data(), conv[2*d].data() + v*nf, conv[2*d + 1].data() + v*nf, d, q);
  }
  if (filt) { op.filter(r1); op.filter(r2); if (eq == viscous) op.filter(rc); }
  std::vector<char> seen(after.size(), 0); size_t off = u - e.state(), ic = e.residual_cache() - e.state();
  for (int v = 0; v < nv; ++v) for (int q = 0; q < nq; ++q) {
    size_t k = off + v*nq + q; seen[k] = 1; double m = dt*e.time_step_scale()[q]/h/det_of(e, q), x = before[k] + m*(r1[v*nq + q] + r2[v*nq + q]);
    if (eq == smooth) x /= 1 + e.time_step_scale()[q]*cheb/tau;
    if (eq == viscous) { seen[ic + v*nq + q] = 1; x += m*rc[v*nq + q]; if (resid) { sx_near(after[ic + v*nq + q], x - before[k], 1e-9, "the residual is the change that a step would make"); x = before[k]; } else sx_near(after[ic + v*nq + q], rc[v*nq + q], 1e-9, "the convective residual is stored"); }
    sx_near(after[k], x, 1e-9, "the step is the discontinuous Galerkin discretization of the equation");
  }
  for (size_t i = 0; i < after.size(); ++i) if (!seen[i]) sx_near(after[i], before[i], 0, "nothing else is changed");
  for (int f = 0; f < 2*n; ++f) for (int v = 0; v < nv; ++v) for (int k = 0; k < nf; ++k) sx_near(e.face(f, false)[v*nf + k], op.extrap(after.data() + off + v*nq, f, k), 1e-9, "the faces hold the extrapolated new values");
  sx_reach("end");
}
SX_ENTRY smooth_car1() { diffuse<Element>(smooth, 1, 3); }
SX_ENTRY smooth_car2() { diffuse<Element>(smooth, 2, 2); }
SX_ENTRY smooth_def2() { diffuse<Deformed_element>(smooth, 2, 2); }
SX_ENTRY fix_car1() { diffuse<Element>(fix, 1, 3); }
SX_ENTRY fix_car2() { diffuse<Element>(fix, 2, 2); }
SX_ENTRY fix_car3() { diffuse<Element>(fix, 3, 2); }
SX_ENTRY fix_def1() { diffuse<Deformed_element>(fix, 1, 3); }
SX_ENTRY fix_def2() { diffuse<Deformed_element>(fix, 2, 2); }
SX_ENTRY viscous_car1() { diffuse<Element>(viscous, 1, 2); }
SX_ENTRY viscous_car2() { diffuse<Element>(viscous, 2, 2); }
SX_ENTRY viscous_car3() { diffuse<Element>(viscous, 3, 2); }
SX_ENTRY viscous_def2() { diffuse<Deformed_element>(viscous, 2, 2); }
// advection of the smoothness indicators: two stages
template <class E> static void advect(int n, int row)
{
  World w(n, row); Ops op(w); const int nq = w.nq, nf = w.nf, na = row; double h = sx_real("size", .5, 2), dt = sx_real("dt", .01, .1), len = sx_real("length", .5, 2); E e(w.prm, {}, h, 0); w.add(e); w.close(e); std::vector<Vd> fn; int q0 = pick("qpoint", 0, nq - 1); geometry(e, w, q0, fn); bool filt = pick("filter", 0, 1), stage = pick("stage", 0, 1);
  for (int i = 0; i < w.prm.n_dof_numeric(); ++i) e.state()[i] = .01*(i%7) - .02; for (int q = 0; q < nq; ++q) e.time_step_scale()[q] = q == q0 ? sx_real("tss", .5, 1.5) : .5 + .125*q;
  any_reals(e.state(), n*nq, "velocity", -1, 1); any_reals(e.advection_state(), na*nq, "advected", -1, 1); any_reals(e.residual_cache(), na*nq, "cache", -1, 1); std::vector<Vd> fc; for (int f = 0; f < 2*n; ++f) { any_reals(e.face(f, false), na*nf, "flux", -1, 1); fc.emplace_back(e.face(f, false), e.face(f, false) + na*nf); }
  Vd before = storage(e, w); compute_advection(w.mesh(), w.opt(dt, stage, false, filt), len); Vd after = storage(e, w); size_t ia = e.advection_state() - e.state(), ic = e.residual_cache() - e.state(); Vd r(na*nq, 0.), src(na*nq, 0.);
  for (int a = 0; a < na; ++a) for (int d = 0; d < n; ++d) { Vd f(nq); for (int q = 0; q < nq; ++q) { double s = 0; for (int j = 0; j < n; ++j) s += before[j*nq + q]*nrml_of(e, w, d, j, q); f[q] = (2*w.basis.node(a) - 1)*s*before[ia + a*nq + q]; } for (int q = 0; q < nq; ++q) r[a*nq + q] -= op.weak(f.data(), fc[2*d].data() + a*nf, fc[2*d + 1].data() + a*nf, d, q); }
  if (!stage) for (int k = 0; k < na*nq; ++k) src[k] = h*det_of(e, k%nq)*2/len; if (filt) { op.filter(r); op.filter(src); } std::vector<char> seen(after.size(), 0);
  for (int k = 0; k < na*nq; ++k) {
    int q = k%nq; double m = dt*e.time_step_scale()[q]/h/det_of(e, q), ps = 1 + e.time_step_scale()[q]*2/len, x = before[ia + k]; seen[ia + k] = seen[ic + k] = 1;
    if (stage) { x += m*w.basis.step_ratio()*(r[k] - before[ic + k])/ps; sx_near(after[ic + k], before[ic + k], 0, "the second stage keeps the stored residual"); } else { x = (x + m*(r[k] + src[k]))/ps; sx_near(after[ic + k], r[k], 1e-9, "the first stage stores its residual"); }
    sx_near(after[ia + k], x, 1e-9, "the step is the discontinuous Galerkin discretization of advection");
  }
  for (size_t i = 0; i < after.size(); ++i) if (!seen[i]) sx_near(after[i], before[i], 0, "nothing else is changed");
  for (int f = 0; f < 2*n; ++f) for (int v = 0; v < n + na; ++v) for (int k = 0; k < nf; ++k) sx_near(e.face(f, false)[v*nf + k], op.extrap(after.data() + (v < n ? v*nq : ia + (v - n)*nq), f, k), 1e-9, "the faces hold the velocity and the extrapolated new values");
  sx_reach("end");
}
SX_ENTRY advect_car1() { advect<Element>(1, 3); }
SX_ENTRY advect_car2() { advect<Element>(2, 2); }
SX_ENTRY advect_def2() { advect<Deformed_element>(2, 2); }
// shared values at interfaces: the mean state, the mean flux, and for advection the upwinded flux
template <class E> static void interface(int n, int row)
{
  World w(n, row); Ref r; if constexpr (E::is_deformed) r = any_dir(n, true); else { int d = pick("i_dim", 0, n - 1); r = {n, d, d, 1, 0}; }
  E e0(w.prm), e1(w.prm); auto mk = [&]() { if constexpr (E::is_deformed) return dir_of(r); else return Con_dir<Element>{r.a}; };
  Element_face_connection<E> con({&e0, &e1}, mk()); if constexpr (E::is_deformed) { w.dc.v.push_back(&con); double* nr = con.Face_connection<E>::normal(); for (int d = 0; d < n; ++d) for (int k = 0; k < w.nf; ++k) nr[d*w.nf + k] = (d == r.a) + .0625*((d + k)%3); } else w.cc.v.push_back(&con);
  Eq eq = pick("fix", 0, 1) ? fix : smooth; int nv = eq == fix ? n + 2 : 3; Vd u[2], f[2]; for (int s : {0, 1}) { any_reals(con.state(s, false), nv*w.nf, "u", -1, 1); u[s] = Vd(con.state(s, false), con.state(s, false) + nv*w.nf); for (int k = 0; k < w.nv*w.nf; ++k) con.state(s, true)[k] = .5; }
  auto partner = [&](int k) { int c0[3], c1[3]; face_coords(r, r.a, k, row, c0); to1(r, c0, c1, row - 1); return face_ind(r, r.b, c1, row); };
  auto bc = [&]() { for (int v = 0; v < nv; ++v) for (int k = 0; k < w.nf; ++k) { int p = partner(k); double m = .5*(u[0][v*w.nf + k] + u[1][v*w.nf + p]); sx_near(con.state(0, true)[v*w.nf + k], m, 1e-9, "both sides use the mean state"); sx_near(con.state(1, true)[v*w.nf + p], m, 1e-9, "both sides use the mean state"); }
    for (int s : {0, 1}) { any_reals(con.state(s, true), nv*w.nf, "own", -1, 1); f[s] = Vd(con.state(s, true), con.state(s, true) + nv*w.nf); } };
  if (eq == smooth) compute_smooth_av(w.mesh(), w.opt(.1), bc, 1., 1.); else compute_fix_therm_admis(w.mesh(), w.opt(.1), bc);
  int s0 = r.s0 ? 1 : -1, s1 = r.s1 ? -1 : 1; // flux from 0 to 1
  for (int v = 0; v < nv; ++v) for (int k = 0; k < w.nf; ++k) { int p = partner(k); double m = .5*(s0*f[0][v*w.nf + k] + s1*f[1][v*w.nf + p]); sx_near(s0*(f[0][v*w.nf + k] + con.state(0, true)[v*w.nf + k]), m, 1e-9, "the flux of both sides is corrected to the mean"); sx_near(s1*(f[1][v*w.nf + p] + con.state(1, true)[v*w.nf + p]), m, 1e-9, "the flux of both sides is corrected to the mean"); }
  for (int s : {0, 1}) for (int k = 0; k < nv*w.nf; ++k) sx_near(con.state(s, false)[k], u[s][k], 0, "the state on the faces is left alone");
  sx_reach("end");
}
SX_ENTRY interface_car() { interface<Element>(pick("n", 1, 3), 2); }
SX_ENTRY interface_def2() { interface<Deformed_element>(2, 3); }
SX_ENTRY interface_def3() { interface<Deformed_element>(3, 2); }
template <class E> static void upwind(int n, int row)
{
  World w(n, row); Ref r; if constexpr (E::is_deformed) r = any_dir(n, true); else { int d = pick("i_dim", 0, n - 1); r = {n, d, d, 1, 0}; }
  E e0(w.prm), e1(w.prm); auto mk = [&]() { if constexpr (E::is_deformed) return dir_of(r); else return Con_dir<Element>{r.a}; }; int na = row;
  Element_face_connection<E> con({&e0, &e1}, mk()); if constexpr (E::is_deformed) w.dc.v.push_back(&con); else w.cc.v.push_back(&con);
  for (int s = 0; s < 2; ++s) for (int i = 0; i < (n + na)*w.nf; ++i) con.state(s, false)[i] = .125*(i%5) - .0625*s;
  int k0 = pick("qpoint", 0, w.nf - 1); int c0[3], c1[3]; face_coords(r, r.a, k0, row, c0); to1(r, c0, c1, row - 1); int k1 = face_ind(r, r.b, c1, row); double area[3] {}; int fast = pick("fast", 0, 2); Vd u[2];
  for (int s : {0, 1}) { for (int d = 0; d < n; ++d) u[s].push_back(sx_real("velocity", -.3, .3) + (d == r.a && fast == s + 1 ? 2 : 0)); for (int a = 0; a < na; ++a) u[s].push_back(sx_real("advected", -1, 1)); for (int v = 0; v < n + na; ++v) con.state(s, false)[v*w.nf + (s ? k1 : k0)] = u[s][v]; }
  if constexpr (E::is_deformed) { double* nr = con.Face_connection<E>::normal(); for (int d = 0; d < n; ++d) { for (int k = 0; k < w.nf; ++k) nr[d*w.nf + k] = d == r.a; nr[d*w.nf + k0] = area[d] = sx_real("nrml", (d == r.a) - .3, (d == r.a) + .3); if (!r.s0) area[d] *= -1; } } else area[r.a] = 1;
  compute_advection(w.mesh(), w.opt(.1), 1.5);
  double an = 0, lam = 1, sp[2] {}, vn[2] {}; for (int d = 0; d < n; ++d) { an += area[d]*area[d]; for (int s : {0, 1}) { sp[s] += u[s][d]*u[s][d]; vn[s] += u[s][d]*area[d]; } } for (int s : {0, 1}) lam = std::max(lam, std::sqrt(sp[s])); lam *= std::sqrt(an);
  for (int a = 0; a < na; ++a) { double x = 2*w.basis.node(a) - 1, g = .5*(x*vn[0]*u[0][n + a] + x*vn[1]*u[1][n + a] + lam*(u[0][n + a] - u[1][n + a])); sx_near(con.state(0, false)[a*w.nf + k0]*(r.s0 ? 1 : -1), g, 1e-9, "advective flux of the first side"); sx_near(con.state(1, false)[a*w.nf + k1]*(r.s1 ? -1 : 1), g, 1e-9, "advective flux of the second side"); }
  sx_reach("end");
}
SX_ENTRY upwind_car() { upwind<Element>(pick("n", 1, 3), 2); }
SX_ENTRY upwind_def2() { upwind<Deformed_element>(2, 2); }
SX_ENTRY transport()
{
  double t = sx_real("sqrt_temperature", 5, 40), v = sx_real("value", .1, 4), r = sx_real("sqrt_reference", 5, 40), s = sx_real("offset", 50, 200), c = sx_real("constant", 0, 5);
  sx_near(Transport_model::constant(c).coefficient(t), c, 1e-9, "constant coefficient"); sx_near(Transport_model::inviscid().coefficient(t), 0, 0, "no coefficient"); sx_near(Transport_model::sutherland(v, r*r, s).coefficient(t)*(t*t + s)*r*r*r, v*t*t*t*(r*r + s), 1e-6, "Sutherland's law");
  sx_assert(Transport_model::constant(c).is_viscous && Transport_model::sutherland(v, r*r, s).is_viscous && !Transport_model::inviscid().is_viscous, "viscous or not"); sx_reach("end");
}
