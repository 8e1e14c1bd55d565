// Convective kernels: the discontinuous Galerkin update, the interface flux, conservation
#include "kern.hpp"
static double det_of(Element& e, int q) { double* j = static_cast<Kernel_element&>(e).jacobian_determinant(); return j ? j[q] : 1.; }
static double nrml_of(Element& e, World& w, int i, int j, int q) { double* p = static_cast<Kernel_element&>(e).reference_level_normals(); return p ? p[(i*w.n + j)*w.nq + q] : double(i == j); }
static void geometry(Element&, World&) {}
static void geometry(Deformed_element& e, World& w) { any_geometry(e, w); }
typedef std::vector<double> Vd;
static Vd storage(Element& e, World& w) { return Vd(e.state(), e.state() + w.prm.n_dof_numeric()); }
// sum over dimensions of the weak-form DG derivative of the flux, with the given face fluxes; [i_var][i_qpoint]
template <class F> static Vd weak_form(Element& e, World& w, int n_var, F flux_at, std::vector<Vd>& faces)
{
  Vd r(n_var*w.nq, 0.), wt(w.row), l0(w.row), l1(w.row); std::vector<Vd> dl(w.row, Vd(w.row));
  auto nw = w.basis.node_weights();
  for (int i = 0; i < w.row; ++i) { wt[i] = nw(i); l0[i] = w.lag(i, 0); l1[i] = w.lag(i, 1); for (int j = 0; j < w.row; ++j) dl[i][j] = w.dlag(i, j); }
  std::vector<Vd> f(w.n*w.nq, Vd(n_var));
  for (int d = 0; d < w.n; ++d) for (int q = 0; q < w.nq; ++q) { double a[3]; for (int j = 0; j < w.n; ++j) a[j] = nrml_of(e, w, d, j, q); flux_at(q, a, f[d*w.nq + q].data()); }
  for (int q = 0; q < w.nq; ++q) for (int d = 0; d < w.n; ++d) {
    int i = w.coord(q, d), st = ipow(w.row, w.n - 1 - d), fq = w.fq_of(q, d);
    for (int v = 0; v < n_var; ++v) {
      double s = l0[i]*faces[2*d][v*w.nf + fq] - l1[i]*faces[2*d + 1][v*w.nf + fq];
      for (int j = 0; j < w.row; ++j) s += wt[j]*dl[i][j]*f[d*w.nq + q + (j - i)*st][v];
      r[v*w.nq + q] += s/wt[i];
    }
  }
  return r;
}
static void filter(Vd& r, World& w, int n_var)
{
  Eigen::MatrixXd m = w.basis.filter();
  for (int d = 0; d < w.n; ++d) { Vd o = r; for (int v = 0; v < n_var; ++v) for (int q = 0; q < w.nq; ++q) { int i = w.coord(q, d), st = ipow(w.row, w.n - 1 - d); double s = 0; for (int j = 0; j < w.row; ++j) s += m(i, j)*o[v*w.nq + q + (j - i)*st]; r[v*w.nq + q] = s; } }
}
template <class E> static void local(int n, int row, int variants)
{
  World w(n, row); double h = sx_real("size", .5, 2), dt = sx_real("dt", .01, .1); E e(w.prm, {}, h, 0); w.add(e); w.close(e); geometry(e, w);
  int var = pick("variant", 0, variants); bool stage = var == 1 || var == 5, resid = var == 2 || var == 4, filt = var >= 3;
  Vd z(w.prm.n_dof_numeric()); for (size_t i = 0; i < z.size(); ++i) e.state()[i] = .01*(i%7);
  any_flow(e.state(), n, w.nq); any_reals(e.time_step_scale(), w.nq, "tss", .5, 1.5); any_reals(e.residual_cache(), w.nv*w.nq, "cache", -1, 1);
  std::vector<Vd> fc; for (int f = 0; f < 2*n; ++f) { any_reals(e.face(f, false), w.nv*w.nf, "flux", -3, 3); fc.emplace_back(e.face(f, false), e.face(f, false) + w.nv*w.nf); }
  Vd before = storage(e, w);
  compute_euler(w.mesh(), w.opt(dt, stage, resid, filt));
  Vd after = storage(e, w);
  Vd r = weak_form(e, w, w.nv, [&](int q, double* a, double* f) { euler_flux(before.data() + q, n, w.nq, a, f); }, fc);
  if (filt) filter(r, w, w.nv);
  size_t ic = e.residual_cache() - e.state(); std::vector<char> seen(after.size(), 0);
  for (int v = 0; v < w.nv; ++v) for (int q = 0; q < w.nq; ++q) {
    int k = v*w.nq + q; double m = dt*e.time_step_scale()[q]/h/det_of(e, q); seen[k] = seen[ic + k] = 1;
    if (stage) { sx_near(after[k] - before[k], w.basis.step_ratio()*m*(r[k] - before[ic + k]), 1e-9, "second stage: the change of the residual, scaled"); sx_near(after[ic + k], before[ic + k], 0, "second stage keeps the stored residual"); }
    else if (resid) { sx_near(after[k], before[k], 0, "computing the residual does not change the state"); sx_near(after[ic + k], m*r[k], 1e-9, "the residual is the update a step would make"); }
    else { sx_near(after[k] - before[k], m*r[k], 1e-9, "the update is the discontinuous Galerkin weak form"); sx_near(after[ic + k], r[k], 1e-9, "the first stage stores its residual"); }
  }
  for (size_t i = 0; i < after.size(); ++i) if (!seen[i]) sx_near(after[i], before[i], 0, "nothing else is changed");
  for (int f = 0; f < 2*n; ++f) for (int v = 0; v < w.nv; ++v) for (int q = 0; q < w.nf; ++q) {
    double s = 0; for (int p = 0; p < w.nq; ++p) if (w.fq_of(p, f/2) == q) s += w.lag(w.coord(p, f/2), f%2)*after[v*w.nq + p];
    sx_near(e.face(f, false)[v*w.nf + q], s, 1e-9, "the faces hold the extrapolated updated state");
  }
  sx_reach("end");
}
SX_ENTRY local_car1() { local<Element>(1, 3, 5); }
SX_ENTRY local_car2() { local<Element>(2, 2, 5); }
SX_ENTRY local_car3() { local<Element>(3, 2, 0); }
SX_ENTRY local_def1() { local<Deformed_element>(1, 3, 5); }
SX_ENTRY local_def2() { local<Deformed_element>(2, 2, 5); }
SX_ENTRY local_def3() { local<Deformed_element>(3, 2, 0); }
SX_ENTRY local_car2r3() { local<Element>(2, 3, 0); }
SX_ENTRY local_def2r3() { local<Deformed_element>(2, 3, 0); }
// interface flux
template <class E> static void neighbor(int n, int row)
{
  World w(n, row); Ref r; if constexpr (E::is_deformed) r = any_dir(n, true); else { int d = pick("i_dim", 0, n - 1); r = {n, d, d, 1, 0}; }
  E e0(w.prm), e1(w.prm); auto mk = [&]() { if constexpr (E::is_deformed) return dir_of(r); else return Con_dir<Element>{r.a}; };
  Element_face_connection<E> con({&e0, &e1}, mk()); if constexpr (E::is_deformed) w.dc.v.push_back(&con); else w.cc.v.push_back(&con);
  // a few face points are arbitrary, the others concrete and different
  for (int s = 0; s < 2; ++s) for (int k = 0; k < w.nf; ++k) { double* u = con.state(s, false) + k; for (int d = 0; d < n; ++d) u[d*w.nf] = .03*(k + 1)*(d + 1) - .07*s; u[n*w.nf] = 1 + .01*k + .02*s; u[(n + 1)*w.nf] = 2.5 + .02*k - .05*s; }
  int k0 = pick("qpoint", 0, w.nf - 1); int c0[3], c1[3]; face_coords(r, r.a, k0, row, c0); to1(r, c0, c1, row - 1); int k1 = face_ind(r, r.b, c1, row);
  Vd u0(w.nv), u1(w.nv); any_flow(u0.data(), n, 1); any_flow(u1.data(), n, 1);
  int super = pick("supersonic", -1, 1); if (super) for (Vd* u : {&u0, &u1}) { (*u)[r.a] += 4*super; (*u)[n + 1] += 8; }
  if (pick("same", 0, 1)) u1 = u0; // consistency
  for (int v = 0; v < w.nv; ++v) { con.state(0, false)[v*w.nf + k0] = u0[v]; con.state(1, false)[v*w.nf + k1] = u1[v]; }
  double a[3] {}; 
  if constexpr (E::is_deformed) for (int s = 0; s < 2; ++s) for (int d = 0; d < n; ++d) for (int k = 0; k < w.nf; ++k) con.normal(s)[d*w.nf + k] = d == r.a ? 1. : .1*(k + d);
  if constexpr (E::is_deformed) { double* nr = con.Face_connection<E>::normal(); for (int d = 0; d < n; ++d) { a[d] = sx_real("nrml", (d == r.a) - .3, (d == r.a) + .3); nr[d*w.nf + k0] = a[d]; } } else a[r.a] = 1;
  int out = 1; if constexpr (E::is_deformed) { out = r.s0 ? 1 : -1; for (int d = 0; d < n; ++d) a[d] *= out; } // points from element 0 to element 1
  compute_euler(w.mesh(), w.opt(.1));
  Vd f0(w.nv), f1(w.nv); euler_flux(u0.data(), n, 1, a, f0.data()); euler_flux(u1.data(), n, 1, a, f1.data());
  auto speed = [&](Vd& u) { double m = 0; for (int d = 0; d < n; ++d) m += u[d]*u[d]; return std::sqrt(gam*(gam - 1.)*u[n + 1]/u[n]) + std::sqrt(m)/u[n]; };
  double area = 0; for (int d = 0; d < n; ++d) area += a[d]*a[d]; double lam = std::max(speed(u0), speed(u1))*std::sqrt(area);
  for (int v = 0; v < w.nv; ++v) {
    double g0 = con.state(0, false)[v*w.nf + k0]*(r.s0 ? 1 : -1), g1 = con.state(1, false)[v*w.nf + k1]*(r.s1 ? -1 : 1); // flow from 0 to 1
    sx_near(g0, g1, 0, "what leaves one element enters the other");
    sx_near(g0, .5*(f0[v] + f1[v] + lam*(u0[v] - u1[v])), 1e-9, "interface flux is the mean physical flux plus dissipation by the largest wave speed");
  }
  sx_reach("end");
}
SX_ENTRY neighbor_car() { neighbor<Element>(pick("n", 1, 3), 2); }
SX_ENTRY neighbor_def1() { neighbor<Deformed_element>(1, 3); }
SX_ENTRY neighbor_def2() { neighbor<Deformed_element>(2, 3); }
SX_ENTRY neighbor_def3() { neighbor<Deformed_element>(3, 2); }
