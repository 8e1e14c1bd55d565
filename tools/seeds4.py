import sys; sys.path.insert(0,'/verif/tools')
from seedlib import mkseed
mkseed('s05','C05',[('src/Vertex.cpp','''  ptr->trbl_ptrs.erase(this);
  ptr = other.ptr;
  ptr->trbl_ptrs.insert(this);
  return *this;''','''  ptr->trbl_ptrs.erase(this);
  ptr = other.ptr;
  needs_smooth = other.needs_smooth; // now refers to the same vertex, so it shall be treated in the same way
  ptr->trbl_ptrs.insert(this);
  return *this;''')],
 'two vertices whose owners disagree about smoothing, merged so that the one that needs smoothing disappears',
 'the merged vertex is not smoothed although one of its owners requires it', r'''
#include <Vertex.hpp>
using namespace hexed;
int main() {
  Vertex::Transferable_ptr a(Mat<3>{0, 0, 0}), b(Mat<3>{1, 0, 0});
  a.needs_smooth = false;
  a->eat(*b);
  return !a->needs_smooth();
}
''')
mkseed('s14','C14',[('include/Spatial.hpp','''                const int pow {n_dim - 2 - i_dim};
                const int face_stride {str[n_dim - 2] ? 1 : math::pow(2, pow)};
                const int qpoint_stride {math::pow(row_size, pow)};
                const int i_half {(i_face/face_stride)%2}; // is this face covering the upper or lower half of the coarse face with respect to the current dimension?
                for (int i_outer = 0; i_outer < nfq/(row_size*qpoint_stride); ++i_outer)
                {
                  for (int i_inner = 0; i_inner < qpoint_stride; ++i_inner)
                  {
                    Eigen::Matrix<double, row_size, 1> row;
                    for (int i_qpoint = 0; i_qpoint < row_size; ++i_qpoint) {
                      row(i_qpoint) = var_face[(i_outer*row_size + i_qpoint)*qpoint_stride + i_inner];
                    }
                    row = restrict_mat''','''                const int pow {n_dim - 2 - i_dim};
                const int face_stride {str[0] ? 1 : math::pow(2, pow)};
                const int qpoint_stride {math::pow(row_size, pow)};
                const int i_half {(i_face/face_stride)%2}; // is this face covering the upper or lower half of the coarse face with respect to the current dimension?
                for (int i_outer = 0; i_outer < nfq/(row_size*qpoint_stride); ++i_outer)
                {
                  for (int i_inner = 0; i_inner < qpoint_stride; ++i_inner)
                  {
                    Eigen::Matrix<double, row_size, 1> row;
                    for (int i_qpoint = 0; i_qpoint < row_size; ++i_qpoint) {
                      row(i_qpoint) = var_face[(i_outer*row_size + i_qpoint)*qpoint_stride + i_inner];
                    }
                    row = restrict_mat''')],
 'three dimensions and a hanging face that is refined only in the first direction',
 'both fine faces are projected onto the lower half of the coarse face', r'''
#include <kernels.hpp>
#include <Gauss_legendre.hpp>
#include <cmath>
#include <vector>
using namespace hexed;
template <class T> struct Seq : Sequence<T&> { std::vector<T*> v; int size() override { return v.size(); } T& operator[](int i) override { return *v[i]; } };
int main() {
  Gauss_legendre b(2);
  Seq<Kernel_connection> c; Seq<Kernel_element> e; Seq<Refined_face> r;
  Refined_face f; f.stretch = {false, true};
  std::vector<double> coarse(40, 0.), fine0(40, 0.), fine1(40, 0.);
  for (int i = 0; i < 20; ++i) { fine0[i] = 0.; fine1[i] = 1.; }
  f.coarse = coarse.data(); f.fine[0] = fine0.data(); f.fine[1] = fine1.data();
  r.v.push_back(&f);
  compute_restrict({3, 2, b, c, c, e, e, e, r}, false, false);
  // fine data is 0 on the lower half and 1 on the upper half, so the projection increases from the lower node to the upper one
  return !(coarse[2] > coarse[0] + .1 && std::abs(coarse[0] + coarse[2] - 1) < 1e-10);
}
''')
mkseed('s15','C15',[('include/Spatial.hpp','''        // apply mode filtering
        if (_use_filter) {''','''        // apply mode filtering (the residual of the first stage has been filtered already)
        if (_use_filter && !_stage) {''')],
 'the second stage of a step with the modal filter enabled',
 'the second stage subtracts a filtered residual from an unfiltered one', r'''
#include <Element.hpp>
#include <kernels.hpp>
#include <Gauss_legendre.hpp>
#include <cmath>
#include <vector>
using namespace hexed;
template <class T> struct Seq : Sequence<T&> { std::vector<T*> v; int size() override { return v.size(); } T& operator[](int i) override { return *v[i]; } };
int main() {
  Gauss_legendre b(3);
  Storage_params p {2, 3, 1, 3};
  Seq<Kernel_connection> c; Seq<Kernel_element> e, none; Seq<Refined_face> r;
  Element el(p); e.v.push_back(&el);
  double u [] {.1, .3, .2, 1., 1.2, 1.1, 2.5, 2.3, 2.6};
  std::vector<double> f0(20, 0.), f1(20, 0.);
  auto set = [&]() { for (int i = 0; i < 9; ++i) el.state()[i] = u[i]; for (int i = 0; i < 3; ++i) { f0[i] = .1*(i + 1); f1[i] = .3*(i + 1); el.time_step_scale()[i] = 1; } };
  el.set_face(0, f0.data()); el.set_face(1, f1.data());
  Stopwatch_tree s("a", {{"neighbor", Stopwatch_tree("c")}, {"local", Stopwatch_tree("e")}});
  set(); compute_euler({1, 3, b, c, c, e, none, e, r}, {s, s, s, .01, false, false, true});
  // a second stage with the same rate of change must not do anything
  set(); compute_euler({1, 3, b, c, c, e, none, e, r}, {s, s, s, .01, true, false, true});
  double diff = 0; for (int i = 0; i < 9; ++i) diff += std::abs(el.state()[i] - u[i]);
  return diff > 1e-10;
}
''')
mkseed('s16','C16',[('include/Spatial.hpp','''            for (int i_side = 0; i_side < 2; ++i_side) {
              for (int i_var = 0; i_var < Pde::n_update; ++i_var) {
                face[i_side][i_var*n_fqpoint + i_qpoint] = sign[i_side]*flux(i_var);''','''            // if all waves travel to the right, the flux is that of the left state
            if constexpr (Pde::n_update == n_dim + 2) {
              bool supersonic = true;
              for (int i_side = 0; i_side < 2; ++i_side) {
                double area = comp[0].normal.norm();
                double nrml_speed = comp[i_side].flux_conv(n_dim)/comp[i_side].update_state(n_dim)/area;
                double speed = comp[i_side].update_state(Eigen::seqN(0, n_dim)).norm()/comp[i_side].update_state(n_dim);
                supersonic = supersonic && nrml_speed > comp[i_side].char_speed - speed;
              }
              if (supersonic) flux = comp[0].flux_conv;
            }
            for (int i_side = 0; i_side < 2; ++i_side) {
              for (int i_var = 0; i_var < Pde::n_update; ++i_var) {
                face[i_side][i_var*n_fqpoint + i_qpoint] = sign[i_side]*flux(i_var);''')],
 'flow that is supersonic in the positive normal direction on both sides, with a jump',
 'the flux lacks the contribution of the downstream state and the dissipation by the largest wave speed', r'''
#include <connection.hpp>
#include <kernels.hpp>
#include <Gauss_legendre.hpp>
#include <cmath>
#include <vector>
using namespace hexed;
template <class T> struct Seq : Sequence<T&> { std::vector<T*> v; int size() override { return v.size(); } T& operator[](int i) override { return *v[i]; } };
int main() {
  Gauss_legendre b(2);
  Storage_params p {2, 3, 1, 2};
  Seq<Kernel_connection> c, none; Seq<Kernel_element> e; Seq<Refined_face> r;
  Element e0(p), e1(p); Element_face_connection<Element> con({&e0, &e1}, {0}); c.v.push_back(&con);
  double u [2][3] {{3., 1., 7.}, {2.8, 1.1, 6.5}};
  for (int s = 0; s < 2; ++s) for (int v = 0; v < 3; ++v) con.state(s, false)[v] = u[s][v];
  Stopwatch_tree s("a", {{"neighbor", Stopwatch_tree("c")}, {"local", Stopwatch_tree("e")}});
  compute_euler({1, 2, b, c, none, e, e, e, r}, {s, s, s, .01, false, false, false});
  double lam = 0; for (auto& w : u) lam = std::max(lam, std::sqrt(1.4*.4*w[2]/w[1]) + std::abs(w[0])/w[1]);
  double mass = .5*(u[0][0] + u[1][0] + lam*(u[0][1] - u[1][1]));
  return std::abs(con.state(0, false)[1] - mass) > 1e-8 || con.state(0, false)[1] != con.state(1, false)[1];
}
''')
mkseed('s17','C17',[('include/connection.hpp','''    bool trans = def_dir.transpose();
    return {str[trans], str[!trans]};''','''    // stretching is specified in the coordinates of the fine elements
    bool trans = def_dir.transpose() && !rev;
    return {str[trans], str[!trans]};''')],
 'three dimensions, faces whose axes are transposed, fine elements first, and refinement in one direction only',
 'the coarse face is treated as refined in the wrong direction', r'''
#include <connection.hpp>
#include <cmath>
using namespace hexed;
int main() {
  Storage_params p {2, 5, 3, 2};
  // faces: fine elements on side 0, coarse element on side 1. find directions whose axes are transposed
  for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) if (a != b) {
    Con_dir<Deformed_element> dir {{a, b}, {1, 0}};
    if (!dir.transpose()) continue;
    Deformed_element c(p), f0(p), f1(p);
    Refined_connection<Deformed_element> con(&c, {&f0, &f1}, dir, true, {true, false});
    // the first tangential direction of the fine face is the second one of the coarse face
    if (con.refined_face.stretch[0] || !con.refined_face.stretch[1]) return 1;
  }
  return 0;
}
''')
