import sys; sys.path.insert(0,'/verif/tools')
from seedlib import mkseed
mkseed('s14','C14',[('include/Spatial.hpp','''              if (str[i_dim])
              {
                for (int i_qpoint = 0; i_qpoint < nfq; ++i_qpoint) var_face[i_qpoint] /= 1 + scl;
              }''','''              if (str[i_dim])
              {
                // the last dimension needs no averaging if there is only one fine face, since that face covers the whole coarse face
                if (i_dim == 0 || nf > 1) for (int i_qpoint = 0; i_qpoint < nfq; ++i_qpoint) var_face[i_qpoint] /= 1 + scl;
              }''')],
 'three dimensions and a hanging face that is unrefined in both directions',
 'the flux through the coarse face is twice what it should be', r'''
#include <kernels.hpp>
#include <Gauss_legendre.hpp>
#include <cmath>
#include <vector>
using namespace hexed;
template <class T> struct Seq : Sequence<T&> { std::vector<T*> v; int size() override { return v.size(); } T& operator[](int i) override { return *v[i]; } };
int main() {
  Gauss_legendre b(2);
  Seq<Kernel_connection> c; Seq<Kernel_element> e; Seq<Refined_face> r;
  Refined_face f; f.stretch = {true, true};
  std::vector<double> coarse(40, 0.), fine(40, 1.);
  f.coarse = coarse.data(); f.fine[0] = fine.data();
  r.v.push_back(&f);
  compute_restrict({3, 2, b, c, c, e, e, e, r}, true, false);
  // areas of the coarse element's face count half as much in each unrefined direction
  for (int i = 0; i < 20; ++i) if (std::abs(coarse[i] - .25) > 1e-12) return 1;
  return 0;
}
''')
