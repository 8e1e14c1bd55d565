// Connections between faces in arbitrary relative orientation: which vertex, quadrature point and sub-face matches which
#include "sx.hpp"
#include <Spatial.hpp>
#include <pde.hpp>
#include <connection.hpp>
#include <memory>
#include <set>
using namespace hexed;
static int pick(const char* n, int lo, int hi) { return sx_concrete(sx_int(n, lo, hi)); }
// reference model of a connection: coordinates along the axes of element 1 that match coordinates `c0` (in [0,1]) along the axes of
// element 0, for points in the shared face. Elements are related by a proper rotation that takes face 0 to face 1
struct Ref { int n, a, b; bool s0, s1; };
template <class T> static void to1(Ref r, const T* c0, T* c1, T one)
{
  for (int d = 0; d < r.n; ++d) c1[d] = c0[d];
  if (r.a != r.b) { T v = c0[r.b]; c1[r.a] = r.s0 != r.s1 ? one - v : v; }
  c1[r.b] = r.s1 ? one : T(0);
}
template <class T> static void to0(Ref r, const T* c1, T* c0, T one)
{
  for (int d = 0; d < r.n; ++d) c0[d] = c1[d];
  if (r.a != r.b) { T v = c1[r.a]; c0[r.b] = r.s0 != r.s1 ? one - v : v; }
  c0[r.a] = r.s0 ? one : T(0);
}
static int face_ind(Ref r, int dim, const int* c, int row) { int k = 0; for (int d = 0; d < r.n; ++d) if (d != dim) k = k*row + c[d]; return k; }
static void face_coords(Ref r, int dim, int k, int row, int* c) { for (int d = r.n - 1; d >= 0; --d) if (d != dim) { c[d] = k%row; k /= row; } c[dim] = 0; }
static int vert_ind(int n, const int* c) { int k = 0; for (int d = 0; d < n; ++d) k = 2*k + c[d]; return k; }
static Ref any_dir(int n, bool proper)
{
  Ref r {n, pick("i_dim0", 0, n - 1), pick("i_dim1", 0, n - 1), bool(pick("sign0", 0, 1)), bool(pick("sign1", 0, 1))};
  if (proper) sx_assume(r.a != r.b || r.s0 != r.s1); // faces on the same axis meet only if they point opposite ways
  return r;
}
static Con_dir<Deformed_element> dir_of(Ref r) { return {{r.a, r.b}, {r.s0, r.s1}}; }
static void check_dir(int n)
{
  Ref r = any_dir(n, true); auto dir = dir_of(r);
  sx_assert(dir.i_face(0) == 2*r.a + r.s0 && dir.i_face(1) == 2*r.b + r.s1, "i_face");
  sx_assert(dir.flip_normal(0) == !r.s0 && dir.flip_normal(1) == r.s1, "normals are flipped to point from element 0 to element 1");
  auto inds = vertex_inds(n, dir); auto perm = face_vertex_inds(n, dir); int nv = 1 << (n - 1);
  sx_assert(int(inds[0].size()) == nv && int(inds[1].size()) == nv && int(perm.size()) == nv, "number of face vertices");
  for (int k = 0; k < nv; ++k) {
    int c0[3], c1[3]; face_coords(r, r.a, k, 2, c0); c0[r.a] = r.s0; to1(r, c0, c1, 1);
    sx_assert(inds[0][k] == vert_ind(n, c0), "vertices of face 0 are in face order");
    sx_assert(inds[1][k] == vert_ind(n, c1), "vertices of face 1 coincide with those of face 0");
    sx_assert(perm[k] == face_ind(r, r.b, c1, 2), "face vertex permutation");
  }
  sx_reach("end");
}
SX_ENTRY dir2() { check_dir(2); }
SX_ENTRY dir3() { check_dir(3); }
SX_ENTRY cart_dir() { int n = pick("n", 1, 3), d = pick("d", 0, n - 1); Con_dir<Element> c{d}; Con_dir<Deformed_element> e = c; sx_assert(c.i_face(0) == 2*d + 1 && c.i_face(1) == 2*d, "Cartesian connections go from the positive to the negative face"); for (int i : {0, 1}) sx_assert(e.i_face(i) == c.i_face(i), "conversion keeps the faces"); sx_reach("end"); }
template <int n, int row> static void perm()
{
  Ref r = any_dir(n, true); constexpr int nq = math::pow(row, n - 1), nv = n + 2; double f[nv*nq], g[nv*nq];
  for (int i = 0; i < nv*nq; ++i) f[i] = g[i] = sx_real("f", -5, 5);
  typename Spatial<pde::Fix_therm_admis, true>::template Face_permutation<n, row> p(dir_of(r), f);
  p.match_faces();
  for (int k = 0; k < nq; ++k) {
    int c0[3], c1[3]; face_coords(r, r.a, k, row, c0); to1(r, c0, c1, row - 1);
    int j = face_ind(r, r.b, c1, row);
    for (int v = 0; v < nv; ++v) sx_near(f[v*nq + k], g[v*nq + j], 0, "quadrature points of face 1 are reordered to match those of face 0");
  }
  p.restore();
  for (int i = 0; i < nv*nq; ++i) sx_near(f[i], g[i], 0, "restore undoes match_faces");
  sx_reach("end");
}
SX_ENTRY perm2() { perm<2, 3>(); }
SX_ENTRY perm3() { perm<3, 2>(); }
SX_ENTRY perm3b() { perm<3, 3>(); }
static Storage_params prm(int n) { return {2, n + 2, n, 2}; }
// two elements connected face to face
template <class E> static void join(int n)
{
  Ref r; if constexpr (E::is_deformed) r = any_dir(n, true); else { int d = pick("i_dim", 0, n - 1); r = {n, d, d, 1, 0}; }
  E e0(prm(n)), e1(prm(n)); std::vector<Mat<3>> p0, p1; int nv = 1 << n;
  for (int i = 0; i < nv; ++i) for (int d = 0; d < n; ++d) { e0.vertex(i).pos(d) = sx_real("p0", -2, 2); e1.vertex(i).pos(d) = sx_real("p1", -2, 2); }
  for (int i = 0; i < nv; ++i) { p0.push_back(e0.vertex(i).pos); p1.push_back(e1.vertex(i).pos); }
  auto faces = [&](E& e, int f, double* want) { for (int i = 0; i < 2*n; ++i) { sx_assert(e.is_connected(i) == (i == f), "exactly the connected face is connected"); if (i == f) sx_assert(e.face(i, false) == want, "face data belongs to the connection"); } };
  {
    auto mk = [&]() { if constexpr (E::is_deformed) return dir_of(r); else return Con_dir<Element>{r.a}; };
    Element_face_connection<E> con({&e0, &e1}, mk());
    sx_assert(&con.element(0) == &e0 && &con.element(1) == &e1, "element");
    auto cd = con.get_direction(); sx_assert(cd.i_face(0) == 2*r.a + r.s0 && cd.i_face(1) == 2*r.b + r.s1, "direction");
    faces(e0, 2*r.a + r.s0, con.state(0, false)); faces(e1, 2*r.b + r.s1, con.state(1, false));
    int sz = (n + 2)*(1 << (n - 1));
    // the four blocks of face data and the normals are disjoint and inside the allocation
    for (int i = 0; i < 2; ++i) for (int l = 0; l < 2; ++l) for (int k = 0; k < sz; ++k) con.state(i, l)[k] = 1000*i + 500*l + k;
    if constexpr (E::is_deformed) for (int i = 0; i < 2; ++i) for (int k = 0; k < n*(1 << (n - 1)); ++k) con.normal(i)[k] = -1000*i - k - 1;
    for (int i = 0; i < 2; ++i) for (int l = 0; l < 2; ++l) for (int k = 0; k < sz; ++k) sx_assert(con.state(i, l)[k] == 1000*i + 500*l + k, "face storage does not overlap");
    if constexpr (E::is_deformed) {
      for (int i = 0; i < 2; ++i) for (int k = 0; k < n*(1 << (n - 1)); ++k) sx_assert(con.normal(i)[k] == -1000*i - k - 1, "normal storage does not overlap");
      for (int i = 0; i < 2*n; ++i) { sx_assert(e0.face_normal(i) == (i == 2*r.a + r.s0 ? con.normal(0) : nullptr), "normal of side 0"); sx_assert(e1.face_normal(i) == (i == 2*r.b + r.s1 ? con.normal(1) : nullptr), "normal of side 1"); }
      sx_assert(con.Face_connection<E>::normal() == con.normal(0), "shared normal");
    }
    int c0[3], c1[3];
    std::set<int> shared;
    for (int k = 0; k < nv/2; ++k) {
      face_coords(r, r.a, k, 2, c0); c0[r.a] = r.s0; to1(r, c0, c1, 1); int i = vert_ind(n, c0), j = vert_ind(n, c1); shared.insert(j);
      sx_assert(&e0.vertex(i) == &e1.vertex(j), "coincident vertices are merged");
      sx_assert(e0.vertex(i).mass() == 2, "merged vertex has two owners");
      for (int d = 0; d < n; ++d) sx_near(e0.vertex(i).pos(d), .5*(p0[i](d) + p1[j](d)), 1e-12, "merged position is the average");
    }
    for (int j = 0; j < nv; ++j) if (!shared.count(j)) { sx_assert(e1.vertex(j).mass() == 1, "other vertices are not merged"); for (int d = 0; d < n; ++d) sx_near(e1.vertex(j).pos(d), p1[j](d), 0, "other vertices do not move"); }
  }
  for (int i = 0; i < 2*n; ++i) { sx_assert(!e0.is_connected(i) && !e1.is_connected(i), "destroying the connection releases the faces"); if constexpr (E::is_deformed) sx_assert(!e0.face_normal(i) && !e1.face_normal(i), "destroying the connection releases the normals"); }
  sx_reach("end");
}
SX_ENTRY join2() { join<Deformed_element>(2); }
SX_ENTRY join3() { join<Deformed_element>(3); }
SX_ENTRY join_cart() { join<Element>(pick("n", 1, 3)); }
// hanging-node connection
template <class E> static void hang(int n)
{
  Ref r; if constexpr (E::is_deformed) r = any_dir(n, true); else { int d = pick("i_dim", 0, n - 1); r = {n, d, d, 1, 0}; }
  bool rev = pick("reverse", 0, 1); std::array<bool, 2> str {n > 1 && bool(pick("stretch0", 0, 1)), n > 2 && bool(pick("stretch1", 0, 1))};
  int cdim = rev ? r.b : r.a, fdim = rev ? r.a : r.b; bool csign = rev ? r.s1 : r.s0, fsign = rev ? r.s0 : r.s1;
  int n_fine = 1; for (int i = 0; i < n - 1; ++i) n_fine *= str[i] ? 1 : 2;
  E coarse(prm(n)); std::vector<std::unique_ptr<E>> fine; std::vector<E*> fp;
  for (int i = 0; i < n_fine; ++i) { fine.emplace_back(new E(prm(n))); fp.push_back(fine.back().get()); }
  // index among the fine elements of the one touching a given corner of the fine side
  std::array<int, 3> tang {}; { int k = 0; for (int d = 0; d < n; ++d) if (d != fdim) tang[k++] = d; }
  auto fine_of = [&](const int* c) { int k = 0; for (int i = 0; i < n - 1; ++i) if (!str[i]) k = 2*k + c[tang[i]]; return k; };
  auto mk = [&]() { if constexpr (E::is_deformed) return dir_of(r); else return Con_dir<Element>{r.a}; };
  {
    Refined_connection<E> con(&coarse, fp, mk(), rev, str);
    sx_assert(con.order_reversed() == rev && con.n_fine_elements() == n_fine && &con.coarse_element() == &coarse, "attributes");
    for (int k = 0; k < 1 << (n - 1); ++k) {
      int cc[3], fc[3]; face_coords(r, cdim, k, 2, cc); cc[cdim] = csign; if (rev) to0(r, cc, fc, 1); else to1(r, cc, fc, 1);
      sx_assert(&coarse.vertex(vert_ind(n, cc)) == &fine[fine_of(fc)]->vertex(vert_ind(n, fc)), "each corner of the coarse face is merged with the coincident corner of the right fine element");
    }
    int cface = 2*cdim + csign, fface = 2*fdim + fsign;
    for (int f = 0; f < 2*n; ++f) {
      sx_assert(coarse.is_connected(f) == (f == cface), "only the coarse face is connected");
      for (auto& e : fine) sx_assert(e->is_connected(f) == (f == fface), "only the fine faces are connected");
    }
    sx_assert(coarse.face(cface, false) == con.coarse_state() && con.refined_face.coarse == con.coarse_state(), "coarse face storage");
    // mortar faces are numbered in the row-major order of the coarse face's own axes
    std::array<int, 3> ctang {}; { int k = 0; for (int d = 0; d < n; ++d) if (d != cdim) ctang[k++] = d; }
    // an axis of the coarse face is stretched iff the matching axis of the fine face is
    auto fdim_of = [&](int cd) { if (r.a == r.b) return cd; if (cd == fdim) return cdim; return cd; };
    std::array<bool, 2> cstr {};
    for (int i = 0; i < n - 1; ++i) { int fd = fdim_of(ctang[i]); for (int j = 0; j < n - 1; ++j) if (tang[j] == fd) cstr[i] = str[j]; }
    for (int i = 0; i < n - 1; ++i) sx_assert(con.refined_face.stretch[i] == cstr[i], "stretch of the coarse face");
    std::set<E*> seen;
    for (int i = 0; i < n_fine; ++i) { auto& fc = con.connection(i); sx_assert(&fc.element(rev) == &coarse, "coarse side"); seen.insert(&fc.element(!rev)); sx_assert(fc.element(!rev).face(fface, false) == fc.state(!rev, false), "fine face storage"); }
    sx_assert(int(seen.size()) == n_fine, "every fine element is connected once");
    for (int k = 0; k < 1 << (n - 1); ++k) {
      int cc[3], fc[3]; face_coords(r, cdim, k, 2, cc); cc[cdim] = csign; if (rev) to0(r, cc, fc, 1); else to1(r, cc, fc, 1);
      int m = 0; for (int i = 0; i < n - 1; ++i) if (!cstr[i]) m = 2*m + cc[ctang[i]];
      E* fe = fine[fine_of(fc)].get(); double* want = nullptr;
      for (int i = 0; i < n_fine; ++i) if (&con.connection(i).element(!rev) == fe) want = con.connection(i).state(rev, false);
      sx_assert(con.refined_face.fine[m] == want, "each mortar face belongs to the connection with the fine element that covers it");
    }
    // hanging vertices: values at the fine vertices on the face become the multilinear interpolant of the coarse corners
    std::vector<double> val(1 << (n - 1));
    for (int k = 0; k < 1 << (n - 1); ++k) val[k] = sx_real("v", -3, 3);
    for (auto& e : fine) for (int v = 0; v < 1 << n; ++v) e->vertex_time_step_scale(v) = sx_real("other", -3, 3);
    for (int k = 0; k < 1 << (n - 1); ++k) { int fc[3]; face_coords(r, fdim, k, 2, fc); fc[fdim] = fsign; fine[fine_of(fc)]->vertex_time_step_scale(vert_ind(n, fc)) = val[k]; }
    std::vector<std::vector<double>> before; for (auto& e : fine) { before.emplace_back(); for (int v = 0; v < 1 << n; ++v) before.back().push_back(e->vertex_time_step_scale(v)); }
    con.matcher.match(&Element::vertex_time_step_scale);
    for (int i = 0; i < n_fine; ++i) for (int v = 0; v < 1 << n; ++v) {
      int c[3]; for (int d = 0; d < n; ++d) c[d] = v >> (n - 1 - d) & 1;
      double got = fine[i]->vertex_time_step_scale(v);
      if (c[fdim] != fsign) { sx_near(got, before[i][v], 0, "vertices off the face keep their values"); continue; }
      double x[2]; int bits = 0; for (int j = 0; j < n - 1; ++j) if (!str[j]) ++bits;
      for (int j = 0, b = bits; j < n - 1; ++j) { if (str[j]) x[j] = c[tang[j]]; else { --b; x[j] = .5*((i >> b & 1) + c[tang[j]]); } }
      double want = 0; for (int k = 0; k < 1 << (n - 1); ++k) { double w = 1; for (int j = 0; j < n - 1; ++j) w *= (k >> (n - 2 - j) & 1) ? x[j] : 1 - x[j]; want += w*val[k]; }
      sx_near(got, want, 1e-12, "hanging vertices interpolate the coarse face");
    }
  }
  for (int f = 0; f < 2*n; ++f) { sx_assert(!coarse.is_connected(f), "coarse face is released"); for (auto& e : fine) sx_assert(!e->is_connected(f), "fine faces are released"); }
  sx_reach("end");
}
SX_ENTRY hang2() { hang<Deformed_element>(2); }
SX_ENTRY hang3() { hang<Deformed_element>(3); }
SX_ENTRY hang_cart() { hang<Element>(pick("n", 2, 3)); }
SX_ENTRY hang_bad()
{
  Element c(prm(3)); std::vector<std::unique_ptr<Element>> f; std::vector<Element*> p; int k = pick("count", 0, 5); if (k == 0) k = 3;
  int s0 = pick("stretch0", 0, 1), s1 = pick("stretch1", 0, 1); for (int i = 0; i < k; ++i) { f.emplace_back(new Element(prm(3))); p.push_back(f.back().get()); }
  bool threw = false; try { Refined_connection<Element> con(&c, p, Con_dir<Element>{0}, false, {bool(s0), bool(s1)}); } catch (std::exception&) { threw = true; }
  sx_assert(threw == (k != 4 >> (s0 + s1)), "a hanging-node connection with the wrong number of fine elements is rejected"); sx_reach("end");
}
// boundary connections
template <class E> static void bound(int n)
{
  E e(prm(n)); int d = pick("i_dim", 0, n - 1); bool s = pick("sign", 0, 1);
  {
    Typed_bound_connection<E> con(e, d, s, 3);
    for (int f = 0; f < 2*n; ++f) sx_assert(e.is_connected(f) == (f == 2*d + s), "boundary face is connected");
    sx_assert(e.face(2*d + s, false) == con.inside_face(false) && e.face(2*d + s, true) == con.inside_face(true), "inside face is the element's face");
    sx_assert(con.i_dim() == d && con.inside_face_sign() == s && con.bound_cond_serial_n() == 3 && &con.element() == &e, "attributes");
    auto dir = con.get_direction(); sx_assert(dir.i_face(0) == 2*d + s && dir.i_face(1) == 2*d + !s, "direction");
    int sz = (n + 2)*(1 << (n - 1)), nz = n*(1 << (n - 1)); double* blk[] {con.inside_face(false), con.inside_face(true), con.ghost_face(false), con.ghost_face(true), con.state_cache(), con.flux_cache(), con.surface_normal(), con.surface_position()}; int len[] {sz, sz, sz, sz, sz, sz, nz, nz};
    for (int b = 0; b < 8; ++b) for (int k = 0; k < len[b]; ++k) blk[b][k] = 1000*b + k;
    for (int b = 0; b < 8; ++b) for (int k = 0; k < len[b]; ++k) sx_assert(blk[b][k] == 1000*b + k, "boundary storage does not overlap");
    if constexpr (E::is_deformed) sx_assert(e.face_normal(2*d + s) == con.surface_normal(), "normal belongs to the boundary connection");
  }
  for (int f = 0; f < 2*n; ++f) { sx_assert(!e.is_connected(f), "destroying the connection releases the face"); if constexpr (E::is_deformed) sx_assert(!e.face_normal(f), "and the normal"); }
  sx_reach("end");
}
SX_ENTRY bound_cart() { bound<Element>(pick("n", 1, 3)); }
SX_ENTRY bound_def() { bound<Deformed_element>(pick("n", 1, 3)); }
