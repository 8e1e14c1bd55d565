// Hanging faces: prolongation, restriction, and the composition with elements on both sides
#include "kern.hpp"
typedef std::vector<double> Vd;
struct Mortar
{
  World w; int n, ns; Refined_face rf; std::vector<Vd> fine; Vd coarse; int nf, off;
  // ns: storage per face, including the part for derivatives
  Mortar(int nd, int row, bool lob) : w(nd, row, lob), n{nd}, ns{(nd + 2)*w.nf}
  {
    rf.stretch = {false, false}; for (int d = 0; d < n - 1; ++d) rf.stretch[d] = pick("stretch", 0, 1);
    nf = 1; for (int d = 0; d < n - 1; ++d) if (!rf.stretch[d]) nf *= 2;
    off = pick("offset", 0, 1);
    coarse.assign(2*ns, .125); rf.coarse = coarse.data();
    fine.assign(nf, Vd(2*ns, .25)); for (int i = 0; i < nf; ++i) rf.fine[i] = fine[i].data();
    w.rf.v.push_back(&rf);
  }
  // which half fine face `i` covers in dimension `d` of the face
  int half(int i, int d) { int k = i; for (int e = n - 2; e > d; --e) if (!rf.stretch[e]) k /= 2; return k%2; }
  int fc(int q, int d) { return q/ipow(w.row, n - 2 - d)%w.row; }
  int n_str() { int s = 0; for (int d = 0; d < n - 1; ++d) s += rf.stretch[d]; return s; }
};
static void prolong(int n, int row, bool lob = false)
{
  Mortar m(n, row, lob); World& w = m.w; bool scl = pick("scale", 0, 1);
  any_reals(m.coarse.data() + m.off*m.ns, m.ns, "coarse", -1, 1); Vd c = m.coarse;
  std::vector<std::vector<Vd>> lg(2, std::vector<Vd>(row, Vd(row))); // [half][node][function]
  for (int h = 0; h < 2; ++h) for (int i = 0; i < row; ++i) for (int j = 0; j < row; ++j) lg[h][i][j] = w.lag(j, .5*(w.basis.node(i) + h));
  compute_prolong(w.mesh(), scl, m.off);
  for (int i = 0; i < m.nf; ++i) for (int v = 0; v < n + 2; ++v) for (int q = 0; q < w.nf; ++q) {
    double s = 0;
    for (int p = 0; p < w.nf; ++p) { double l = 1; for (int d = 0; d < n - 1; ++d) l *= m.rf.stretch[d] ? double(m.fc(q, d) == m.fc(p, d)) : lg[m.half(i, d)][m.fc(q, d)][m.fc(p, d)]; s += l*c[m.off*m.ns + v*w.nf + p]; }
    for (int d = 0; d < m.n_str(); ++d) if (scl) s *= 2;
    sx_near(m.fine[i][m.off*m.ns + v*w.nf + q], s, 1e-9, "each fine face holds the coarse polynomial on its part of the face");
    sx_near(m.fine[i][(1 - m.off)*m.ns + v*w.nf + q], .25, 0, "the other storage is not touched");
  }
  for (size_t k = 0; k < c.size(); ++k) sx_near(m.coarse[k], c[k], 0, "the coarse face is not changed");
  if (!scl) { // projecting it back gives the original
    compute_restrict(w.mesh(), false, m.off);
    double f = 1; for (int d = 0; d < m.n_str(); ++d) f *= 1;
    for (int k = 0; k < m.ns; ++k) sx_near(m.coarse[m.off*m.ns + k], f*c[m.off*m.ns + k], 1e-9, "restriction inverts prolongation");
  }
  sx_reach("end");
}
static void restr(int n, int row, bool lob = false)
{
  Mortar m(n, row, lob); World& w = m.w; bool scl = pick("scale", 0, 1);
  for (auto& f : m.fine) any_reals(f.data() + m.off*m.ns, m.ns, "fine", -1, 1);
  auto f0 = m.fine;
  compute_restrict(w.mesh(), scl, m.off);
  // moments of the coarse polynomial equal those of the fine ones; degree of exactness of the quadrature
  Basis& b = w.basis; auto wt = b.node_weights(); int top = lob ? 1 : row; double sf = 1; for (int d = 0; d < m.n_str(); ++d) if (scl) sf *= .5;
  int nm = ipow(top, n - 1);
  for (int v = 0; v < n + 2; ++v) for (int k = 0; k < nm; ++k) {
    double l = 0, r = 0;
    auto mono = [&](int d, double x) { double y = 1; for (int e = 0; e < k/ipow(top, n - 2 - d)%top; ++e) y *= x; return y; };
    for (int q = 0; q < w.nf; ++q) { double g = 1; for (int d = 0; d < n - 1; ++d) g *= wt(m.fc(q, d))*mono(d, b.node(m.fc(q, d))); l += g*m.coarse[m.off*m.ns + v*w.nf + q]; }
    for (int i = 0; i < m.nf; ++i) for (int q = 0; q < w.nf; ++q) {
      double g = 1; for (int d = 0; d < n - 1; ++d) { double x = b.node(m.fc(q, d)); g *= wt(m.fc(q, d))*(m.rf.stretch[d] ? mono(d, x) : .5*mono(d, .5*(x + m.half(i, d)))); }
      r += g*sf*f0[i][m.off*m.ns + v*w.nf + q];
    }
    sx_near(l, r, 1e-9, "the coarse face holds the conservative projection of the fine faces");
  }
  for (int k = 0; k < m.ns; ++k) sx_near(m.coarse[(1 - m.off)*m.ns + k], .125, 0, "the other storage is not touched");
  sx_reach("end");
}
SX_ENTRY prolong1() { prolong(1, 3); }
SX_ENTRY prolong2() { prolong(2, pick("row", 2, 3)); }
SX_ENTRY prolong3() { prolong(3, pick("row", 2, 3)); }
SX_ENTRY restrict1() { restr(1, 3); }
SX_ENTRY restrict2() { restr(2, pick("row", 2, 3)); }
SX_ENTRY restrict3() { restr(3, pick("row", 2, 3)); }
// one step of the Euler equations on a coarse element joined to finer ones: what the elements gain is what enters through the outer faces
template <class E> static void set_flow(E& e, World& w, int i, bool sym)
{
  int n = w.n; double* u = e.state(); // the coarse element (i < 0) is hotter, so that it has the larger wave speed
  for (int q = 0; q < w.nq; ++q) { for (int d = 0; d < n; ++d) u[d*w.nq + q] = .02*((q + d + i + 3)%4); u[n*w.nq + q] = 1 + .02*((q + i + 2)%3); u[(n + 1)*w.nq + q] = (i < 0 ? 3.5 : 2) + .03*((2*q + i + 2)%5); }
  if (sym) { int q = 1; for (int d = 0; d < n; ++d) u[d*w.nq + q] = sx_real("mmtm", -.1, .1); double m = sx_real("mass", .95, 1.05), en = sx_real("dener", -.05, .05); u[n*w.nq + q] = m; u[(n + 1)*w.nq + q] = (i < 0 ? 3.5 : 2) + en; }
  for (int q = 0; q < w.nq; ++q) e.time_step_scale()[q] = 1;
}
static void geometry(Element&, World&, int) {}
static void geometry(Deformed_element& e, World& w, int seed)
{
  for (int i = 0; i < w.n; ++i) for (int j = 0; j < w.n; ++j) for (int q = 0; q < w.nq; ++q) e.reference_level_normals()[(i*w.n + j)*w.nq + q] = (i == j) + .03*((i + 2*j + q + seed + 1)%4);
  for (int q = 0; q < w.nq; ++q) e.jacobian_determinant()[q] = 1 + .05*((q + seed + 1)%5);
}
static double det_of(Element& e, int q) { double* j = static_cast<Kernel_element&>(e).jacobian_determinant(); return j ? j[q] : 1.; }
#ifndef HDIRS
#define HDIRS 5
#endif
template <class E> static void hanging(int n, int row, bool all_dirs)
{
  World w(n, row); double h = 1.25, dt = .03;
  Ref r; if constexpr (E::is_deformed) { if (all_dirs) r = any_dir(n, true); else { int k = pick("dir", 0, HDIRS); const Ref c[] {{3,0,0,1,0},{3,0,1,1,1},{3,1,0,0,1},{3,2,1,0,0},{3,0,2,1,0},{3,1,2,0,1}}; r = c[k]; r.n = n; } } else { int d = pick("i_dim", 0, n - 1); r = {n, d, d, 1, 0}; }
  bool rev = pick("reversed", 0, 1); std::array<bool, 2> str {false, false};
  if constexpr (E::is_deformed) for (int d = 0; d < n - 1; ++d) str[d] = pick("stretch", 0, 1);
  int nfine = 1; for (int d = 0; d < n - 1; ++d) if (!str[d]) nfine *= 2;
  E coarse(w.prm, {}, h, 0); std::vector<std::unique_ptr<E>> fine; std::vector<E*> fp; for (int i = 0; i < nfine; ++i) { fine.emplace_back(new E(w.prm, {}, h, 1)); fp.push_back(fine.back().get()); }
  auto mk = [&]() { if constexpr (E::is_deformed) return dir_of(r); else return Con_dir<Element>{r.a}; };
  Refined_connection<E> con(&coarse, fp, mk(), rev, str);
  w.add(coarse); for (E* e : fp) w.add(*e); w.rf.v.push_back(&con.refined_face);
  for (int i = 0; i < nfine; ++i) {
    auto& c = con.connection(i); if constexpr (E::is_deformed) { w.dc.v.push_back(&c); for (int d = 0; d < n; ++d) for (int k = 0; k < w.nf; ++k) c.Face_connection<E>::normal()[d*w.nf + k] = (d == r.a) + .02*((d + k + i)%4); } else w.cc.v.push_back(&c);
  }
  auto each = [&](auto f) { f(coarse, -1); for (int i = 0; i < nfine; ++i) f(*fp[i], i); };
  each([&](E& e, int i) { w.close(e); geometry(e, w, i); set_flow(e, w, i, i < 1); });
  int cf = 2*(rev ? r.b : r.a) + (rev ? r.s1 : r.s0), ff = 2*(rev ? r.a : r.b) + (rev ? r.s0 : r.s1);
  compute_write_face(w.mesh()); compute_prolong(w.mesh());
  Vd in(w.nv, 0.), before(w.nv, 0.), after(w.nv, 0.);
  auto total = [&](Vd& t) { each([&](E& e, int i) { double vol = 1; for (int d = 0; d < n; ++d) vol *= i < 0 ? h : h/2; for (int v = 0; v < w.nv; ++v) for (int q = 0; q < w.nq; ++q) t[v] += vol*w.weight(q)*det_of(e, q)*e.state()[v*w.nq + q]; }); };
  each([&](E& e, int i) { for (int f = 0; f < 2*n; ++f) if (f != (i < 0 ? cf : ff)) {
    double ar = 1; for (int d = 0; d < n - 1; ++d) ar *= i < 0 ? h : h/2;
    for (int v = 0; v < w.nv; ++v) for (int q = 0; q < w.nf; ++q) { double x = i < 1 ? sx_real("flux", -1, 1) : .1*v - .05*q; e.face(f, false)[v*w.nf + q] = x; in[v] += (f%2 ? -1 : 1)*ar*w.fweight(q)*x*dt; }
  } });
  total(before); compute_euler(w.mesh(), w.opt(dt)); total(after);
  for (int v = 0; v < w.nv; ++v) sx_near(after[v] - before[v], in[v], 1e-9, "what the elements gain is what enters through the outer faces");
  sx_reach("end");
}
SX_ENTRY hanging_car1() { hanging<Element>(1, 3, true); }
SX_ENTRY hanging_car2() { hanging<Element>(2, 3, true); }
SX_ENTRY hanging_car3() { hanging<Element>(3, 2, true); }
SX_ENTRY hanging_def2() { hanging<Deformed_element>(2, 2, true); }
SX_ENTRY hanging_def3() { hanging<Deformed_element>(3, 2, false); }
