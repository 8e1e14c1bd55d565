// Meshes of a few real elements and connections with symbolic storage, driven through the public kernel entry points
#pragma once
#include "ref.hpp"
#include <connection.hpp>
#include <kernels.hpp>
#include <Gauss_legendre.hpp>
#include <Gauss_lobatto.hpp>
#include <functional>
#include <memory>
#include <vector>
using namespace hexed;
constexpr double gam = 1.4;
static int ipow(int b, int e) { int r = 1; while (e-- > 0) r *= b; return r; }
template <class T> struct Vseq : Sequence<T&> { std::vector<T*> v; int size() override { return v.size(); } T& operator[](int i) override { return *v[i]; } };
static Con_dir<Deformed_element> dir_of(Ref r) { return {{r.a, r.b}, {r.s0, r.s1}}; }
static Stopwatch_tree sw(const char* nm) { return Stopwatch_tree(nm, {{"neighbor", Stopwatch_tree("c")}, {"local", Stopwatch_tree("e")}, {"reconcile LDG flux", Stopwatch_tree("e")}, {"compute time step", Stopwatch_tree("e")}}); }
struct World
{
  int n, row, nq, nf, nv; Storage_params prm; std::unique_ptr<Basis> bp; Basis& basis;
  Vseq<Kernel_connection> cc, dc; Vseq<Kernel_element> ce, de, all; Vseq<Refined_face> rf; Stopwatch_tree sc = sw("a"), sd = sw("b"), sp = sw("c");
  std::vector<std::unique_ptr<std::vector<double>>> bufs;
  World(int nd, int r, bool lobatto = false) : n{nd}, row{r}, nq{ipow(r, nd)}, nf{ipow(r, nd - 1)}, nv{nd + 2}, prm{2, nd + 2, nd, r}, bp{lobatto ? (Basis*) new Gauss_lobatto(r) : new Gauss_legendre(r)}, basis{*bp} {}
  Kernel_mesh mesh() { return {n, row, basis, cc, dc, ce, de, all, rf}; }
  Kernel_options opt(double dt, int stage = 0, bool resid = false, bool filt = false) { return {sc, sd, sp, dt, stage, resid, filt}; }
  void add(Element& e) { ce.v.push_back(&e); all.v.push_back(&e); }
  void add(Deformed_element& e) { de.v.push_back(&e); all.v.push_back(&e); }
  // gives every unconnected face some storage
  void close(Element& e) { for (int f = 0; f < 2*n; ++f) if (!e.is_connected(f)) { bufs.emplace_back(new std::vector<double>(2*std::max(2*nv, n + row)*nf, 0.)); e.set_face(f, bufs.back()->data()); } }
  int coord(int q, int d) const { return q/ipow(row, n - 1 - d)%row; }
  int fq_of(int q, int d) const { int k = 0; for (int i = 0; i < n; ++i) if (i != d) k = k*row + coord(q, i); return k; }
  double lag(int i, double x) const { double p = 1; for (int j = 0; j < row; ++j) if (j != i) p *= (x - basis.node(j))/(basis.node(i) - basis.node(j)); return p; }
  double dlag(int i, int j) const { double s = 0; for (int k = 0; k < row; ++k) if (k != i) { double p = 1/(basis.node(i) - basis.node(k)); for (int l = 0; l < row; ++l) if (l != i && l != k) p *= (basis.node(j) - basis.node(l))/(basis.node(i) - basis.node(l)); s += p; } return s; }
  double weight(int q) const { double p = 1; auto w = basis.node_weights(); for (int d = 0; d < n; ++d) p *= w(coord(q, d)); return p; }
  double fweight(int k) const { double p = 1; auto w = basis.node_weights(); for (int d = 0; d < n - 1; ++d, k /= row) p *= w(k%row); return p; }
};
// arbitrary admissible state of order 1; var-major storage with `stride` points
static void any_flow(double* u, int n, int stride, double w = .1)
{
  for (int k = 0; k < stride; ++k) {
    for (int d = 0; d < n; ++d) u[d*stride + k] = sx_real("mmtm", -2*w, 2*w);
    u[n*stride + k] = sx_real("mass", 1 - w, 1 + w); u[(n + 1)*stride + k] = sx_real("ener", 2.5 - w, 2.5 + w);
  }
}
static void any_reals(double* u, int k, const char* nm, double lo, double hi) { for (int i = 0; i < k; ++i) u[i] = sx_real(nm, lo, hi); }
// inviscid flux of the Euler equations through area vector `a`
static void euler_flux(const double* u, int n, int stride, const double* a, double* f)
{
  double rho = u[n*stride], e = u[(n + 1)*stride], ma = 0, mm = 0; for (int d = 0; d < n; ++d) { ma += u[d*stride]*a[d]; mm += u[d*stride]*u[d*stride]; }
  double p = (gam - 1.)*(e - mm*.5/rho);
  f[n] = ma; f[n + 1] = (e + p)*ma/rho; for (int d = 0; d < n; ++d) f[d] = u[d*stride]*ma/rho + p*a[d];
}
// symbolic geometry of a deformed element: level normals and determinant
static void any_geometry(Deformed_element& e, World& w)
{
  for (int i = 0; i < w.n; ++i) for (int j = 0; j < w.n; ++j) for (int q = 0; q < w.nq; ++q) e.reference_level_normals()[(i*w.n + j)*w.nq + q] = sx_real("nrml", (i == j) - .25, (i == j) + .25);
  for (int q = 0; q < w.nq; ++q) e.jacobian_determinant()[q] = sx_real("det", .75, 1.25);
}
