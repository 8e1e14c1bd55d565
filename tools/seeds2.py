import sys; sys.path.insert(0,'/verif/tools')
from seedlib import mkseed
mkseed('s01','C01',[('src/Tree.cpp','''  double ns = nominal_size();
  for (int i_dim = 0; i_dim < n_dim; ++i_dim) {
    if ((nom_pos(i_dim) < np(i_dim)) || (nom_pos(i_dim) > np(i_dim) + ns)) return nullptr;''','''  double ns = nominal_size();
  double slack = 1e-3*ns; // tolerate round-off in the position
  for (int i_dim = 0; i_dim < n_dim; ++i_dim) {
    if ((nom_pos(i_dim) < np(i_dim) - slack) || (nom_pos(i_dim) > np(i_dim) + ns + slack)) return nullptr;''')],
 'a query point within a thousandth of a cell size of a cell boundary, or just outside the domain',
 'find_leaf returns a leaf that does not contain the point, or a leaf for a point outside the domain', r'''
#include <Tree.hpp>
using namespace hexed;
int main() {
  Tree t(2, 1.);
  t.refine();
  if (t.find_leaf(Mat<>(Mat<2>{1.0005, .5}))) return 1;
  Tree* l = t.find_leaf(Mat<>(Mat<2>{.5002, .2}));
  return !(l == t.children()[2]);
}
''')
mkseed('s02','C02',[('src/Tree.cpp','''  if (main_neighbor) {
    // find a neighbor, not''','''  // across an edge or corner there is only one leaf that touches this one
  if (main_neighbor && direction(Eigen::seqN(0, n_dim)).cwiseAbs().sum() > 1) neighbs.push_back(main_neighbor);
  else if (main_neighbor) {
    // find a neighbor, not''')],
 'three dimensions, an edge direction, and a finer neighbour across the edge',
 'only one of the several leaves that touch the edge is returned', r'''
#include <Tree.hpp>
using namespace hexed;
int main() {
  Tree t(3, 1.);
  t.refine();
  t.children()[6]->refine();
  Eigen::VectorXi d(3); d << 1, 1, 0;
  return t.children()[0]->find_neighbors(d).size() != 2;
}
''')
mkseed('s03','C03',[('src/Tree.cpp','''          for (Tree* neighb : t->find_neighbors(direct)) {
            to_process.push(neighb);
          }''','''          for (Tree* neighb : t->find_neighbors(direct)) {
            // coarser neighbors have already been visited, since that's how we got here
            if (neighb->ref_level >= t->ref_level) to_process.push(neighb);
          }''')],
 'a region that can only be entered from a finer leaf to a coarser one',
 'flood fill stops at coarser leaves', r'''
#include <Tree.hpp>
using namespace hexed;
int main() {
  Tree t(2, 1.);
  t.refine();
  t.children()[0]->refine();
  t.flood_fill(3);
  return t.children()[3]->get_status() != 3;
}
''')
mkseed('s05','C05',[('src/Vertex.cpp','''  ptr->trbl_ptrs.erase(this);
  ptr = other.ptr;
  ptr->trbl_ptrs.insert(this);''','''  ptr->trbl_ptrs.erase(this);
  ptr = other.ptr;
  mobile = mobile && other.mobile; // a vertex is mobile only if all its owners are
  ptr->trbl_ptrs.insert(this);''')],
 'a mobile owner is merged into a vertex with an immobile owner, which is then released',
 'the vertex stays immobile although its only remaining owner is mobile', r'''
#include <Vertex.hpp>
using namespace hexed;
int main() {
  Vertex::Transferable_ptr a(Mat<3>{0., 0., 0.}, true);
  {
    Vertex::Transferable_ptr b(Mat<3>{0., 0., 0.}, false);
    b->eat(*a);
  }
  return !a->is_mobile();
}
''')
mkseed('s06','C06',[('include/math.hpp','''    for (int i = 0; i < stride; ++i) {
      values(i) +=''','''    for (int i = 0; i < n_dim - i_dim; ++i) { // one value fewer for each dimension eliminated
      values(i) +=''')],
 'interpolation in three dimensions (in one and two dimensions the counts agree)',
 'one of the edges of the cube is not interpolated', r'''
#include <math.hpp>
using namespace hexed;
int main() {
  Mat<8> v; for (int i = 0; i < 8; ++i) v(i) = (i/4) + 10*((i/2)%2) + 100*(i%2);
  Mat<3> c {.25, .5, .75};
  return !(std::abs(math::interp<3>(v, c) - (.25 + 5. + 75.)) < 1e-9);
}
''')
mkseed('s07','C07',[('include/math.hpp','''  proj = std::min(1., std::max(0., proj));
  return endpoints[0] + proj*diff;''','''  if (proj >= 1.) return endpoints[1];
  return endpoints[0] + std::abs(proj)*diff;''')],
 'a target that lies behind the first endpoint of the segment but less than a segment length away',
 'the projection is the mirror image of the nearest point', r'''
#include <math.hpp>
using namespace hexed;
int main() {
  auto p = math::proj_to_segment<Eigen::Vector2d>({Eigen::Vector2d{0., 0.}, Eigen::Vector2d{1., 0.}}, Eigen::Vector2d{-.5, 1.});
  return !(p.norm() < 1e-12);
}
''')

mkseed('s13','C13',[('src/Hanging_vertex_matcher.cpp','int stride = math::pow(2, n_dim - 1 - id);','int stride = (id == 0) ? n_vert : math::pow(2, n_dim - 1 - id);'),
 ('src/Hanging_vertex_matcher.cpp','''  // compute interpolation
''','''  if ((values.array() == values(0)).all()) return; // nothing to interpolate
  // compute interpolation
''')],
 'the corners of the coarse face all have the same value but the hanging vertices do not',
 'hanging vertices keep their own values instead of the interpolated ones', r'''
#include <Hanging_vertex_matcher.hpp>
using namespace hexed;
int main() {
  Storage_params p{2, 4, 2, 2};
  Element a(p), b(p);
  std::vector<Element*> els {&a, &b};
  for (Element* e : els) for (int v = 0; v < 4; ++v) e->vertex_time_step_scale(v) = 1.;
  a.vertex_time_step_scale(3) = .25; b.vertex_time_step_scale(2) = .25;
  Hanging_vertex_matcher m(els, 0, true);
  m.match(&Element::vertex_time_step_scale);
  return !(a.vertex_time_step_scale(3) == 1. && b.vertex_time_step_scale(2) == 1.);
}
''')
