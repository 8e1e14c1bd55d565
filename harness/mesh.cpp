// Tree meshes: any history of refinement and unrefinement keeps the mesh conforming
#ifndef DEEP
#define DEEP 0
#endif
#include "sx.hpp"
#include <Accessible_mesh.hpp>
#include <Surface_geom.hpp>
#include <Simplex_geom.hpp>
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <vector>
using namespace hexed;
static int pick(const char* n, int lo, int hi) { return sx_concrete(sx_int(n, lo, hi)); }
static int ipow(int b, int e) { int r = 1; while (e-- > 0) r *= b; return r; }
constexpr int fine = 6; // level of the integer coordinates used by the oracle
struct Box { Element* e; int lev, lo[3], hi[3]; };
static Box box(Element& e, int n) { Box b {&e, e.refinement_level(), {}, {}}; auto p = e.nominal_position(); int s = ipow(2, fine - b.lev); for (int d = 0; d < n; ++d) { b.lo[d] = p[d]*s; b.hi[d] = b.lo[d] + s; } return b; }
struct World
{
  int n; double size; Mat<> org; std::unique_ptr<Accessible_mesh> mp; Accessible_mesh& m; Surface_geom* geom = nullptr;
  World(int nd, double sz, Mat<> o) : n{nd}, size{sz}, org{o}, mp{new Accessible_mesh(Storage_params{2, nd + 2, nd, 2}, sz)}, m{*mp} { std::vector<Flow_bc*> b; for (int i = 0; i < 2*n; ++i) b.push_back(new Nonpenetration); m.add_tree(b, o); }
  std::vector<Box> boxes() { std::vector<Box> v; auto& s = m.elements(); for (int i = 0; i < s.size(); ++i) if (s[i].tree) v.push_back(box(s[i], n)); return v; }
  // brute-force check of everything
  void check()
  {
    auto val = m.valid(); sx_assert(val.n_missing == 0 && val.n_redundant == 0, "every face has exactly one connection"); auto bs = boxes(); int N = bs.size();
    long vol = 0; for (auto& b : bs) { vol += ipow(2, n*(fine - b.lev)); Tree& t = *b.e->tree; sx_assert(t.is_leaf() && t.refinement_level() == b.lev && t.elem.get() == b.e, "elements correspond to leaves of the tree"); auto c = t.coordinates(); for (int d = 0; d < n; ++d) sx_assert(c(d)*ipow(2, fine - b.lev) == b.lo[d], "an element is where its leaf is"); }
    bool tiled = true; for (int i = 0; i < N; ++i) for (int j = 0; j < i; ++j) { bool sep = false; for (int d = 0; d < n; ++d) sep = sep || bs[i].hi[d] <= bs[j].lo[d] || bs[j].hi[d] <= bs[i].lo[d]; tiled = tiled && sep; } sx_assert(tiled, "elements do not overlap");
    if (!geom) sx_assert(vol == ipow(2, n*fine), "elements fill the domain");
    // connections
    std::set<std::pair<std::pair<Element*, int>, std::pair<Element*, int>>> links; bool dup = false;
    auto add = [&](Element_connection& c) { auto d = c.get_direction(); std::pair<Element*, int> a {&c.element(0), 2*d.i_dim[0] + d.face_sign[0]}, b {&c.element(1), 2*d.i_dim[1] + d.face_sign[1]}; dup = dup || links.count({a, b}); links.insert({a, b}); links.insert({b, a}); };
    auto& ec = m.element_connections(); for (int i = 0; i < ec.size(); ++i) add(ec[i]); sx_assert(!dup, "no connection is duplicated");
    int want = 0, level_jump = 0, unshared = 0, unlinked = 0, tree_links = 0, wrong_share = 0; for (auto& l : links) tree_links += l.first.first->tree && l.second.first->tree;
    for (auto& a : bs) for (auto& b : bs) for (int d = 0; d < n; ++d) if (a.hi[d] == b.lo[d]) {
      bool face = true; for (int k = 0; k < n; ++k) face = face && (k == d || (a.lo[k] < b.hi[k] && b.lo[k] < a.hi[k])); if (!face) continue;
      want += 2; level_jump += std::abs(a.lev - b.lev) > 1; unlinked += !links.count({{a.e, 2*d + 1}, {b.e, 2*d}});
      for (int v = 0; v < ipow(2, n); ++v) for (int w = 0; w < ipow(2, n); ++w) { bool same = true; for (int k = 0; k < n; ++k) { int bv = (v >> (n - 1 - k))&1, bw = (w >> (n - 1 - k))&1; same = same && (bv ? a.hi[k] : a.lo[k]) == (bw ? b.hi[k] : b.lo[k]); } if (same) unshared += &a.e->vertex(v) != &b.e->vertex(w); else wrong_share += &a.e->vertex(v) == &b.e->vertex(w); }
    }
    sx_assert(level_jump == 0, "face neighbours differ by one level at most"); sx_assert(unlinked == 0 && tree_links == want, "elements are connected exactly to the elements that share a face"); sx_assert(unshared == 0 && wrong_share == 0, "face neighbours share exactly the vertices that coincide");
    auto& bc = m.boundary_connections(); int wrong = 0, n_ext = 0, want_ext = 0; for (auto& b : bs) for (int d = 0; d < n; ++d) want_ext += (b.lo[d] == 0) + (b.hi[d] == ipow(2, fine));
    for (int i = 0; i < bc.size(); ++i) { int f = 2*bc[i].i_dim() + bc[i].inside_face_sign(), sn = bc[i].bound_cond_serial_n(); Element& e = bc[i].element(); if (e.tree) { Box b = box(e, n); wrong += sn != f || (f%2 ? b.hi[f/2] != ipow(2, fine) : b.lo[f/2] != 0); ++n_ext; } else wrong += !geom; }
    sx_assert(wrong == 0 && n_ext == want_ext, "the boundary conditions of the domain are on its boundary faces");
    // vertices
    std::set<Vertex*> own, seen; auto& es = m.elements(); for (int i = 0; i < es.size(); ++i) for (int v = 0; v < ipow(2, n); ++v) own.insert(&es[i].vertex(v)); auto vs = m.vertices(); bool once = true; for (int i = 0; i < vs.size(); ++i) { once = once && !seen.count(&vs[i]); seen.insert(&vs[i]); } sx_assert(once && own == seen, "the vertices of the mesh are those of its elements, each once");
    if (!geom) for (auto& b : bs) for (int v = 0; v < ipow(2, n); ++v) for (int d = 0; d < n; ++d) sx_near(b.e->vertex(v).pos(d), org(d) + size*((v >> (n - 1 - d))%2 ? b.hi[d] : b.lo[d])/ipow(2, fine), 1e-9, "vertices are at their nominal positions");
  }
  // one update with the given requests (1 refine, -1 unrefine, 2 both) for the elements in their current order
  void update(const std::vector<int>& req, const std::vector<int>& locked = {})
  {
    struct Old { Box b; int req, lock; }; std::vector<Old> old; std::map<Element*, int> by; auto& s = m.elements(); int k = 0;
    for (int i = 0; i < s.size(); ++i) { int r = k < int(req.size()) && s[i].tree ? req[k] : 0, l = k < int(locked.size()) && s[i].tree ? locked[k] : 0; if (s[i].tree) { old.push_back({box(s[i], n), r, l}); ++k; } by[&s[i]] = i; }
    std::vector<int> want(s.size(), 0), lk(s.size(), 0); for (auto& o : old) { want[by[o.b.e]] = o.req; lk[by[o.b.e]] = o.lock; }
    m.set_unref_locks([&](Element& e) { return lk[by[&e]] != 0; });
    bool changed = m.update([&](Element& e) { return want[by[&e]] > 0; }, [&](Element& e) { return want[by[&e]] == -1 || want[by[&e]] == 2; });
    check(); auto nw = boxes(); int not_refined = 0, lost = 0, stuck = 0; bool same = nw.size() == old.size();
    for (auto& o : old) {
      bool kept = false; for (auto& b : nw) { bool in = true, out = true; for (int d = 0; d < n; ++d) { in = in && b.lo[d] >= o.b.lo[d] && b.hi[d] <= o.b.hi[d]; out = out && b.lo[d] <= o.b.lo[d] && b.hi[d] >= o.b.hi[d]; } kept = kept || (in && out); if (in && b.lev == o.b.lev && o.req == 1) ++not_refined;
        if (out && b.lev < o.b.lev && !geom) { bool all = b.lev == o.b.lev - 1; int cnt = 0; for (auto& q : old) { bool sib = q.b.lev == o.b.lev; for (int d = 0; d < n; ++d) sib = sib && q.b.lo[d] >= b.lo[d] && q.b.hi[d] <= b.hi[d]; if (sib) { ++cnt; all = all && q.req == -1 && !(q.lock); } } all = all && cnt == ipow(2, n); if (!all) ++lost; } }
      same = same && kept;
    }
    if (!geom) { sx_assert(not_refined == 0, "elements are refined on request"); sx_assert(lost == 0, "elements are only unrefined if all siblings request it and none is locked"); sx_assert(changed == !same, "an update reports whether the mesh has changed");
      // unrefinement happens unless a neighbour forbids it
      for (auto& o : old) if (o.req == -1 && o.b.lev > 0) {
        int lo[3], hi[3], sz = 2*(o.b.hi[0] - o.b.lo[0]), cnt = 0; bool all = true; for (int d = 0; d < n; ++d) { lo[d] = o.b.lo[d]/sz*sz; hi[d] = lo[d] + sz; }
        for (auto& q : old) { bool sib = q.b.lev == o.b.lev; for (int d = 0; d < n; ++d) sib = sib && q.b.lo[d] >= lo[d] && q.b.hi[d] <= hi[d]; if (sib) { ++cnt; all = all && q.req == -1 && !q.lock; } } if (!all || cnt != ipow(2, n)) continue;
        bool tight = false, gone = true; for (auto& b : nw) { bool touch = true, out = true; for (int d = 0; d < n; ++d) { touch = touch && b.lo[d] <= hi[d] && b.hi[d] >= lo[d]; out = out && b.lo[d] >= lo[d] && b.hi[d] <= hi[d]; } if (!out) tight = tight || (touch && b.lev > o.b.lev); else gone = gone && b.lev < o.b.lev; } stuck += !gone && !tight;
      }
      sx_assert(stuck == 0, "unrefinement is carried out unless a finer neighbour forbids it");
    }
    same = true; if (req.empty()) { sx_assert(!changed, "an update without requests changes nothing"); }
  }
  int count() { int c = 0; auto& s = m.elements(); for (int i = 0; i < s.size(); ++i) c += bool(s[i].tree); return c; }
  std::vector<int> all(int r) { return std::vector<int>(count(), r); }
};
static Mat<> origin(int n) { Mat<> o(3); for (int d = 0; d < 3; ++d) o(d) = d < n ? sx_real("origin", -2, 2) : 0; return o; }
static void history(int n, int first, int steps)
{
  Mat<> o = origin(n); double size = sx_real("size", .5, 2); World w(n, size, o); w.check(); for (int i = 0; i < first; ++i) w.update(w.all(1)); int N = w.count();
  if (n < 3) { std::vector<int> r(N); for (int i = 0; i < N; ++i) r[i] = pick("refine", 0, 1); w.update(r); } else { std::vector<int> r(N); int a = pick("first", 0, N - 1), b = DEEP ? pick("second", 0, N - 1) : N - 1; r[a] = 1; r[b] = 1; w.update(r); }
  for (int s = 0; s < steps; ++s) {
    int mode = pick("mode", 0, 3); N = w.count(); std::vector<int> r(N, 0), l(N, 0); int k = n < 3 || DEEP ? pick("element", 0, N - 1) : pick("element", 0, 2)*(N - 1)/2;
    if (mode == 0) r[k] = 1; else { r.assign(N, -1); if (mode == 1) r[k] = 1; if (mode == 2) r[k] = 2; if (mode == 3) l[k] = 1; }
    w.update(r, l);
  }
  w.update({}); sx_reach("end");
}
SX_ENTRY mesh1() { history(1, 1, 2); }
SX_ENTRY mesh2() { history(2, 1, 1); }
SX_ENTRY mesh3() { history(3, 1, 1); }
// (in 3D, hanging surface vertices are on the face of the coarse element)
// a body inside of the domain: vertices of the surface are on the body and all connected faces are shared
static void surface(World& w, Mat<> c, double r)
{
  auto& bc = w.m.boundary_connections(); int n = w.n;
  for (int i = 0; i < bc.size(); ++i) { int d = bc[i].i_dim(), sg = bc[i].inside_face_sign(), sn = bc[i].bound_cond_serial_n(); Element& e = bc[i].element(); for (int v = 0; v < ipow(2, n); ++v) if ((v >> (n - 1 - d))%2 == sg) { auto& p = e.vertex(v).pos; if (sn == w.m.surface_bc_sn()) { sx_assert(!e.tree, "only extruded elements are on the surface"); double q = 0; for (int k = 0; k < n; ++k) q += (p(k) - c(k))*(p(k) - c(k)); bool rim = false; for (int k = 0; k < n; ++k) rim = rim || p(k) == 0 || p(k) == 1; if (n < 3 && !rim) sx_near(q, r*r, 1e-9, "surface vertices are on the surface"); } else sx_near(p(sn/2), sn%2, 1e-12, "boundary vertices are on the boundary of the domain"); } }
}
static void body(int n, int levels, int steps)
{
  World w(n, 1., Mat<>::Zero(3)); for (int i = 0; i < levels; ++i) w.update(w.all(1)); double cs[] {.5, .41, .6}; Mat<> c(n); for (int d = 0; d < n; ++d) c(d) = cs[d]; 
  double r = n == 1 ? .2 : .05 + .12*pick("radius", 0, 2); w.geom = new Hypersphere(c, r); w.m.set_surface(w.geom, new Nonpenetration, Mat<>::Constant(3, .01)); w.check();
  for (int s = 0; s < steps; ++s) { int N = w.count(), mode = pick("mode", 0, 2); if (!N) break; std::vector<int> q(N, mode == 2 ? -1 : 0); if (mode < 2) q[pick("element", 0, N - 1)] = mode ? -1 : 1; w.update(q); surface(w, c, r); if (pick("relax", 0, 1)) { w.m.relax(.5); surface(w, c, r); w.check(); } }
  sx_reach("end");
}
SX_ENTRY body2() { body(2, 3, 1); }
SX_ENTRY body3() { body(3, 2, 1); }
