import sys; sys.path.insert(0,'/verif/tools')
from seedlib import mkseed
mkseed('s01','C01',[('src/Tree.cpp','Eigen::MatrixXi relative_coords = c*math::pow(2, max_level - rl) - bias(Eigen::seqN(0, n_dim)) - coords*cell_size;',
 'Eigen::MatrixXi relative_coords = (c - bias(Eigen::seqN(0, n_dim)))*math::pow(2, max_level - rl) - coords*cell_size;')],
 'a biased look-up whose refinement level is coarser than the leaf that contains the point',
 'find_leaf with a bias returns a leaf that does not touch the requested point', r'''
#include <Tree.hpp>
using namespace hexed;
int main() {
  Tree t(1, 1.);
  t.refine(); t.children()[0]->refine();
  Eigen::VectorXi c(1), b(1); c << 1; b << 1;
  // the point x = 1/2, seen from the left: leaf [1/4, 1/2]
  Tree* l = t.find_leaf(1, c, b);
  return !(l == t.children()[0]->children()[1]);
}
''')
mkseed('s02','C02',[('src/Tree.cpp','while (main_neighbor->refinement_level() > refinement_level()) main_neighbor','if (main_neighbor->refinement_level() > refinement_level()) main_neighbor')],
 'a leaf next to leaves that are two or more levels finer',
 'find_neighbors misses part of the adjacent leaves', r'''
#include <Tree.hpp>
using namespace hexed;
int main() {
  Tree t(2, 1.);
  t.refine();
  Tree* c = t.children()[2]; c->refine();
  c->children()[0]->refine(); c->children()[1]->refine();
  Eigen::VectorXi d(2); d << 1, 0;
  return t.children()[0]->find_neighbors(d).size() != 4;
}
''')
mkseed('s03','C03',[('src/Tree.cpp','for (Tree* neighb : t->find_neighbors(direct)) {\n            to_process.push(neighb);\n          }','Tree* neighb = t->find_neighbor(direct);\n          if (neighb) to_process.push(neighb);')],
 'a region whose only link to the rest is from a coarse leaf to one of its finer neighbours that is not the first',
 'flood fill leaves part of the connected region unfilled', r'''
#include <Tree.hpp>
using namespace hexed;
int main() {
  Tree t(2, 1.);
  t.refine();
  Tree* c = t.children()[2]; c->refine();
  c->children()[0]->set_status(7); t.children()[3]->set_status(7); c->children()[3]->set_status(7);
  t.children()[0]->flood_fill(3);
  return c->children()[1]->get_status() != 3;
}
''')
mkseed('s04','C04',[('include/Mutual_ptr.hpp','''    unpair();
    _mine = other._mine;
    if (other._partner) pair(*other._partner);''','''    _mine = other._mine;
    if (other._partner) pair(*other._partner);''')],
 'move assignment of an unpaired pointer onto a paired one',
 'the old partner stays paired and now sees a datum it was never paired with', r'''
#include <Mutual_ptr.hpp>
using namespace hexed;
int main() {
  int a = 1, b = 2; double d = .5;
  Mutual_ptr<int, double> p(&a), q(&b); Mutual_ptr<double, int> r(&d);
  p.pair(r);
  p = std::move(q);
  return p || r;
}
''')
mkseed('s05','C05',[('src/Vertex.cpp','''Vertex::Transferable_ptr::~Transferable_ptr()
{
  ptr->trbl_ptrs.erase(this);''','''Vertex::Transferable_ptr::~Transferable_ptr()
{
  if (ptr->trbl_ptrs.size() == 1) ptr->trbl_ptrs.erase(this);
  else ptr->trbl_ptrs.erase(ptr->trbl_ptrs.begin());''')],
 'destroying an owner that is not the first in the owner set while others remain',
 'the wrong owner is forgotten: mobility, smoothing and shared values refer to a destroyed owner', r'''
#include <Vertex.hpp>
#include <memory>
#include <new>
using namespace hexed;
int main() {
  alignas(Vertex::Transferable_ptr) static unsigned char buf[2][sizeof(Vertex::Transferable_ptr)];
  auto* a = new (buf[0]) Vertex::Transferable_ptr(Mat<3>{0., 0., 0.}, true);
  auto* b = new (buf[1]) Vertex::Transferable_ptr(Mat<3>{1., 0., 0.}, true);
  (*a)->eat(**b);
  a->shareable_value = 3.; b->shareable_value = 5.;
  b->~Transferable_ptr();
  b->shareable_value = 5.; // the memory of the destroyed owner keeps its old bits
  double v = (*a)->shared_value();
  return !(v == 3.);
}
''')
mkseed('s06','C06',[('include/math.hpp','''      stretched += ((ind/pow(2, n_dim - 2 - i_dim))%2)*stride;
      stride *= 2;
    }''','''      stretched += ((ind/pow(2, n_dim - 2 - i_dim))%2)*stride;
    }
    stride *= 2;''')],
 'three dimensions with stretching along the second face dimension only',
 'the sub-face index of a stretched refined face is doubled', r'''
#include <math.hpp>
using namespace hexed;
int main() {
  return math::stretched_ind(3, 2, {false, true}) != 1;
}
''')
mkseed('s07','C07',[('include/math.hpp','int i_repl = (mid_func*func_bounds[0] <= 0);','int i_repl = (mid_func*func_bounds[0] < 0);')],
 'an iterate that hits the root exactly',
 'bisection converges to the upper bound rather than to the root', r'''
#include <math.hpp>
using namespace hexed;
int main() {
  double r = math::bisection([](double x){return x - .25;}, {0., 1.}, 1e-6);
  return !(std::abs(r - .25) < 1e-5);
}
''')
mkseed('s12','C12',[('include/connection.hpp','''  for (int i_side = 0; i_side < 2; ++i_side) {
    elems[i_side]->face_normal(dir.i_face(i_side)) = nullptr;
  }''','''  for (int i_side = 0; i_side < 2; ++i_side) {
    elems[i_side]->face_normal(dir.i_face(0)) = nullptr;
  }''')],
 'destroying a connection of deformed elements across different faces',
 'the second element keeps a dangling pointer to the normals of a destroyed connection', r'''
#include <connection.hpp>
#include <memory>
using namespace hexed;
int main() {
  Storage_params p{2, 4, 2, 2};
  Deformed_element a(p, {0, 0}), b(p, {1, 0});
  { Element_face_connection<Deformed_element> c({&a, &b}, {{0, 0}, {true, false}}); }
  for (int i = 0; i < 4; ++i) if (a.face_normal(i) || b.face_normal(i)) return 1;
  return 0;
}
''')
mkseed('s13','C13',[('src/Hanging_vertex_matcher.cpp','int interp_ind = (i_elem*!str[n_dim - 2])%2','int interp_ind = (i_elem*!str[0])%2')],
 'three dimensions with stretching along exactly one of the two face dimensions',
 'values at hanging vertices are taken from the wrong point of the coarse face', r'''
#include <Hanging_vertex_matcher.hpp>
#include <Deformed_element.hpp>
using namespace hexed;
int main() {
  Storage_params p{2, 5, 3, 2};
  Element a(p), b(p);
  std::vector<Element*> els {&a, &b};
  // stretched along the last face dimension: the elements are side by side along the first
  for (int e = 0; e < 2; ++e) for (int v = 0; v < 8; ++v) els[e]->vertex_time_step_scale(v) = 1 + (v/2)%2 + e + 10.*(v%2);
  Hanging_vertex_matcher m(els, 0, true, {false, true});
  // the extremes are the corners of the coarse face
  for (int e = 0; e < 2; ++e) for (int v = 4; v < 8; ++v) els[e]->vertex_time_step_scale(v) = 2*((v/2)%2) + 10.*(v%2);
  m.match(&Element::vertex_time_step_scale);
  for (int e = 0; e < 2; ++e) for (int v = 4; v < 8; ++v) {
    double want = e + (v/2)%2 + 10.*(v%2);
    if (std::abs(els[e]->vertex_time_step_scale(v) - want) > 1e-12) return 1;
  }
  return 0;
}
''')
