// Stable time step: the local one at each point, and the global one
#include "kern.hpp"
typedef std::vector<double> Vd;
static double interp_spacing(Element& e, World& w, int q) { double s = 0; for (int v = 0; v < ipow(2, w.n); ++v) { double c = 1; for (int d = 0; d < w.n; ++d) { double x = w.basis.node(w.coord(q, d)); c *= (v >> (w.n - 1 - d))%2 ? x : 1 - x; } s += c*e.vertex_time_step_scale(v); } return s; }
enum Eq {euler, advect, smooth, fix, viscous};
// reciprocal of the stable time step at a point: wave speed and diffusivity each over their limit
static double rate(Eq eq, Element& e, World& w, int q, double sc, double sd, double mu, double k)
{
  const int n = w.n; double* u = e.state() + q; double h = interp_spacing(e, w, q), c = w.basis.max_cfl()*sc, dl = -2/w.basis.min_eig_diffusion()*sd, m = 0; for (int d = 0; d < n; ++d) m += u[d*w.nq]*u[d*w.nq];
  double rho = u[n*w.nq], en = u[(n + 1)*w.nq];
  if (eq == euler) return (std::sqrt(gam*(gam - 1.)*en/rho) + std::sqrt(m)/rho)/c/h;
  if (eq == advect) return std::max(1., std::sqrt(m))/c/h;
  if (eq == smooth || eq == fix) return 1./dl/h/h;
  double lap = std::abs(u[(n + 4)*w.nq]), bulk = std::abs(u[(n + 3)*w.nq]);
  return (std::sqrt(gam*(gam - 1.)*en/rho) + std::sqrt(m)/rho)/c/h + (lap + std::max(bulk + mu/rho, k*(gam - 1)/constants::specific_gas_air/rho))/dl/h/h;
}
static void time_step(Eq eq, int n, int row)
{
  World w(n, row); Element a(w.prm); Deformed_element b(w.prm); w.add(a); w.add(b); double sc = sx_real("safety", .3, 1), sd = sx_real("diffusive_safety", .3, 1); bool local = pick("local", 0, 1);
  double mu = 0, k = 0; if (eq == viscous) { mu = sx_real("viscosity", 0, .1); k = sx_real("conductivity", 0, 20); }
  int el = pick("element", 0, 1), q0 = pick("qpoint", 0, w.nq - 1); Element* es[2] {&a, &b};
  for (int i = 0; i < 2; ++i) {
    Element& e = *es[i]; for (int v = 0; v < ipow(2, n); ++v) e.vertex_time_step_scale(v) = i == el && (local || v == 0 || eq == euler || eq == advect) ? sx_real("spacing", .5, 2) : .75 + .1*v;
    for (int q = 0; q < w.nq; ++q) { double* u = e.state() + q; for (int d = 0; d < n; ++d) u[d*w.nq] = .1*(d + 1) - .05*q; u[n*w.nq] = 1 + .02*q; u[(n + 1)*w.nq] = 2.5 - .03*q; for (int v = n + 2; v < n + 5; ++v) u[v*w.nq] = .02*(v - n) - .01*(q%3); }
    if (i == el) { double* u = e.state() + q0; any_flow(u, n, 1, 0); for (int v = 0; v < n + 5; ++v) u[v*w.nq] = v == n ? sx_real("mass", .5, 2) : v == n + 1 ? sx_real("ener", 2, 9) : v < n ? (v ? .3 : sx_real("mmtm", -1, 1)) : v == n + 2 ? .5 : sx_real("artvisc", -.2, .2); }
  }
  Kernel_options o = w.opt(.1); double dt = 0; Transport_model tm = Transport_model::constant(mu), tk = Transport_model::constant(k);
  std::vector<Vd> r(2, Vd(w.nq)); for (int i = 0; i < 2; ++i) for (int q = 0; q < w.nq; ++q) r[i][q] = rate(eq, *es[i], w, q, sc, sd, mu, k);
  auto run = [&](bool loc) {
    if (eq == euler) dt = max_dt_euler(w.mesh(), o, sc, sd, loc); else if (eq == advect) dt = max_dt_advection(w.mesh(), o, sc, sd, loc, 1.5); else if (eq == smooth) dt = max_dt_smooth_av(w.mesh(), o, sc, sd, loc); else if (eq == fix) dt = max_dt_fix_therm_admis(w.mesh(), o, sc, sd, loc); else dt = max_dt_navier_stokes(w.mesh(), o, sc, sd, loc, tm, tk);
  };
  run(true); sx_near(dt, 1, 0, "local time steps are not scaled"); std::vector<Vd> own(2, Vd(w.nq)); for (int i = 0; i < 2; ++i) for (int q = 0; q < w.nq; ++q) own[i][q] = es[i]->time_step_scale()[q];
  if (!local) run(false);
  bool attained = false;
  for (int i = 0; i < 2; ++i) for (int q = 0; q < w.nq; ++q) {
    if (local) sx_near(own[i][q]*r[i][q], 1, 1e-9, "the local time step is the largest stable one at each point");
    else { sx_near(es[i]->time_step_scale()[q], 1, 0, "a global time step is not scaled"); sx_assert(dt <= own[i][q], "the global time step is stable at every point"); attained = attained | (dt == own[i][q]); }
  }
  if (!local) sx_assert(attained, "the global time step is as large as some point allows");
  sx_reach("end");
}
SX_ENTRY dt_euler1() { time_step(euler, 1, 3); }
SX_ENTRY dt_euler2() { time_step(euler, 2, 2); }
SX_ENTRY dt_euler3() { time_step(euler, 3, 2); }
SX_ENTRY dt_advect() { time_step(advect, 1, 2); }
SX_ENTRY dt_smooth() { time_step(smooth, pick("n", 1, 3), 2); }
SX_ENTRY dt_fix() { time_step(fix, pick("n", 1, 2), 2); }
SX_ENTRY dt_viscous() { time_step(viscous, 1, 2); }
