import sys; sys.path.insert(0,'/verif/tools')
from seedlib import mkseed
mkseed('s05','C05',[('src/Vertex.cpp',''': ptr{other.ptr}, shareable_value{other.shareable_value}, mobile{other.mobile}''',''': ptr{other.ptr}, shareable_value{other.shareable_value}, mobile{other.ptr->is_mobile()} // consistent with the other owners''')],
 'copying a mobile owner of a vertex that also has an immobile owner, and then releasing the immobile one',
 'the vertex stays immobile although none of its owners is immobile', r'''
#include <Vertex.hpp>
#include <memory>
using namespace hexed;
int main() {
  Vertex::Transferable_ptr a(Mat<3>{0., 0., 0.}, true);
  std::unique_ptr<Vertex::Transferable_ptr> b(new Vertex::Transferable_ptr(Mat<3>{0., 0., 0.}, false));
  a->eat(**b);
  Vertex::Transferable_ptr c(a);
  b.reset();
  return !a->is_mobile();
}
''')
