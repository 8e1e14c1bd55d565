import sys; sys.path.insert(0,'/verif/tools')
from seedlib import mkseed
mkseed('s02','C02',[('src/Tree.cpp','''    // find a neighbor, not necessarily a leaf, with''','''    // a coarser leaf that also borders on one of the faces is a neighbor in that direction, not in this one
    if (main_neighbor->refinement_level() < refinement_level() && direction(Eigen::seqN(0, n_dim)).cwiseAbs().sum() > 1) {
      Eigen::VectorXi ancestor = coords/math::pow(2, refinement_level() - main_neighbor->refinement_level());
      for (int i_dim = 0; i_dim < n_dim; ++i_dim) {
        if (direction(i_dim) && ancestor(i_dim) == main_neighbor->coords(i_dim)) return neighbs;
      }
    }
    // find a neighbor, not necessarily a leaf, with''')],
 'a diagonal direction, and a coarser leaf that is at the corner and also on one of the faces',
 'the coarser leaf that touches the corner is not returned', r'''
#include <Tree.hpp>
using namespace hexed;
int main() {
  Tree t(2, 1.);
  t.refine();
  t.children()[0]->refine();
  Eigen::VectorXi d(2); d << 1, 1;
  return t.children()[0]->children()[1]->find_neighbors(d).size() != 1;
}
''')
mkseed('s03','C03',[('src/Tree.cpp','''          for (Tree* neighb : t->find_neighbors(direct)) {
            to_process.push(neighb);
          }''','''          for (Tree* neighb : t->find_neighbors(direct)) {
            // cells more than one level coarser are reached from the ones in between
            if (neighb->ref_level + 1 >= t->ref_level) to_process.push(neighb);
          }''')],
 'a region that can only be entered from a leaf to another one that is at least two levels coarser',
 'flood fill stops at much coarser leaves', r'''
#include <Tree.hpp>
using namespace hexed;
int main() {
  Tree t(1, 1.);
  t.refine();
  t.children()[0]->refine();
  t.children()[0]->children()[1]->refine();
  t.flood_fill(3);
  return t.children()[1]->get_status() != 3;
}
''')
mkseed('s05','C05',[('src/Vertex.cpp','''  ptr->trbl_ptrs.erase(this);
  ptr = other.ptr;
  ptr->trbl_ptrs.insert(this);
  return *this;''','''  ptr->trbl_ptrs.erase(this);
  ptr = other.ptr;
  shareable_value = other.shareable_value; // start with the value of the owner it is copied from
  ptr->trbl_ptrs.insert(this);
  return *this;''')],
 'setting the values of the owners before their vertices are merged',
 'the values of the owners of the vertex that is merged away are lost', r'''
#include <Vertex.hpp>
using namespace hexed;
int main() {
  Vertex::Transferable_ptr a(Mat<3>{0, 0, 0}), b(Mat<3>{1, 0, 0});
  a.shareable_value = .1; b.shareable_value = .3;
  a->eat(*b);
  return a->shared_value() != .3;
}
''')
