import sys; sys.path.insert(0,'/verif/tools')
from seedlib import mkseed
mkseed('s22','C22',[('src/History_monitor.cpp','while (_sz > _samples || _iterations','if (_sz > _samples || _iterations')],
 'samples taken more sparsely than the buffer spacing, so that one sample makes several older ones leave the window at once',
 'only one stale sample is dropped per sample, so the bounds include values from before the window', r'''
#include <History_monitor.hpp>
int main() {
  hexed::History_monitor h(.5, 10);
  h.add_sample(1, 100.); h.add_sample(2, 50.); h.add_sample(3, 20.); h.add_sample(1000, 7.);
  return !(h.min() == 7. && h.max() == 7.);
}
''')
mkseed('s23','C23',[('src/Layer_sequence.cpp',r'''  // might as well just do it the brute force way
  double total = 0;
  for (int j_layer = 0; j_layer < i_layer; ++j_layer) total += spacing(j_layer);
  return total;''',r'''  if (i_layer <= nw) return i_layer*ws;
  // the outermost layer takes up half of the height, the one below it a quarter, and so on
  return std::pow(2., i_layer - n_layers());''')],
 'growth layers that are not exactly powers of 1/2, which is any realistic wall spacing, and a height in the middle of them',
 'the cumulative height of a growth layer is not the sum of the spacings below it', r'''
#include <Layer_sequence.hpp>
#include <cmath>
int main() {
  hexed::Layer_sequence l(.07, 3); double t = 0;
  for (int i = 0; i <= l.n_layers(); ++i) { if (std::abs(l.cumulative_height(i) - t) > 1e-10) return 1; t += l.spacing(i); }
  return 0;
}
''')
mkseed('s24','C24',[('src/criteria.cpp',r'''    for (int i_vert = 0; i_vert < params.n_vertices(); ++i_vert) {
      center += elem.vertex(i_vert).pos;
    }
    center /= params.n_vertices();''',r'''    // the center is halfway between opposite vertices
    center = (elem.vertex(0).pos + elem.vertex(params.n_vertices() - 1).pos)/2;''')],
 'an element deformed such that the diagonal does not pass through the mean of the vertices',
 'refinement criteria that depend on the position see a wrong centre for deformed elements', r'''
#include <criteria.hpp>
#include <Deformed_element.hpp>
#include <cmath>
int main() {
  hexed::Deformed_element e(hexed::Storage_params{2, 4, 2, 3}); e.vertex(1).pos(0) += .4; bool ok = false;
  hexed::criteria::criterion([&](bool, int, double, Eigen::Vector3d c, double) { ok = std::abs(c(0) - .6) < 1e-10 && std::abs(c(1) - .5) < 1e-10; return true; })(e);
  return !ok;
}
''')
mkseed('s25','C25',[('src/Surface_geom.cpp','nearest.merge(comp->nearest_point(point, max_distance, distance_guess));',r'''{
    // nothing farther away than the current candidate can be nearest
    nearest.merge(comp->nearest_point(point, std::min(max_distance, nearest.dist_squared()), distance_guess));
  }''')],
 'a query point closer than 1 to a component, with a later component that is nearer but farther than the square of that distance',
 'the search of later components is cut off at the square of the distance, so the nearest point of a compound surface is missed', r'''
#include <Surface_geom.hpp>
#include <cmath>
using namespace hexed;
int main() {
  Compound_geom g({new Hypersphere(Mat<>::Zero(2), .1), new Hypersphere(Mat<>(Mat<2>{1., 0.}), .1)});
  auto p = g.nearest_point(Mat<>(Mat<2>{.55, 0.})); // .45 from the first and .35 from the second
  return !(std::abs(p.point()(0) - .9) < 1e-10);
}
''')
mkseed('s18','C18',[('src/Boundary_condition.cpp','mmtm.dot(n)/inside(params.n_dim)/n.norm();','mmtm.dot(n)/inside(params.n_dim);')],
 'a face whose normal is not of unit length, as on any deformed element, and flow between the true and the scaled speed of sound',
 'subsonic outflow through a large face is treated as supersonic, so the specified pressure is not imposed', r'''
#include <Boundary_condition.hpp>
#include <connection.hpp>
#include <cmath>
using namespace hexed;
int main() {
  Storage_params params{2, 4, 2, 2}; Deformed_element e(params); Pressure_outflow bc(.5); Typed_bound_connection<Deformed_element> c(e, 0, true, 0);
  for (int q = 0; q < 2; ++q) { c.normal()[q] = 3.; c.normal()[2 + q] = 0.; double s[] {.6, .1, 1., 2.5}; for (int v = 0; v < 4; ++v) c.inside_face(false)[2*v + q] = s[v]; }
  bc.apply_state(c); double k = .5*(.36 + .01);
  return !(std::abs(c.ghost_face(false)[6] - (.5/.4 + k)) < 1e-10);
}
''')
mkseed('s30','C30',[('src/Accessible_mesh.cpp','if (!child->is_leaf() && has_existent_children(child)) unref = false;','if (!child->is_leaf() && exists(child)) unref = false;')],
 'an update which requests unrefinement of some elements whose sibling has been refined further and does not request it',
 'the parent is unrefined although one of its children is refined, which orphans the finer elements', r'''
#include <Accessible_mesh.hpp>
using namespace hexed;
int main() {
  Accessible_mesh m({2, 4, 2, 2}, 1.); std::vector<Flow_bc*> b; for (int i = 0; i < 4; ++i) b.push_back(new Nonpenetration); m.add_tree(b);
  m.update();
  m.update([](Element& e) { auto p = e.nominal_position(); return p[0] == 0 && p[1] == 0; });
  if (m.elements().size() != 7) return 2;
  m.update(criteria::never, [](Element& e) { return e.refinement_level() == 1; });
  auto v = m.valid(); return !(v.n_missing == 0 && v.n_redundant == 0 && m.elements().size() == 7);
}
''')
mkseed('s20','C20',[('src/Interpreter.cpp',"(_text.front() == '-' || _text.front() == '+') && std::tolower(value.back()) == 'e'","(_text.front() == '-' || _text.front() == '+') && value.back() == 'e'")],
 'a numeric literal with an upper-case exponent with a sign, such as 1E-3',
 'the literal ends before the sign and the rest becomes a subtraction or addition', r'''
#include <Interpreter.hpp>
#include <cmath>
int main() {
  hexed::Interpreter in({}); in.exec("x = 2E-3; y = 5E+1");
  return !(std::abs(in.variables->lookup<double>("x").value() - .002) < 1e-12 && in.variables->lookup<double>("y").value() == 50.);
}
''')
mkseed('s21','C21',[('include/Namespace.hpp','if (space->exists_recursive(name)) return space->lookup<T>(name);','if (auto value = space->lookup<T>(name)) return value;')],
 'two super-namespaces that hold variables of the same name and different types',
 'a lookup skips the first space that defines the name and reports a different variable from another one', r'''
#include <Namespace.hpp>
using namespace hexed;
int main() {
  auto a = std::make_shared<Namespace>(), b = std::make_shared<Namespace>(), c = std::make_shared<Namespace>();
  a->assign<std::string>("x", "text"); b->assign<int>("x", 3); c->supers = {a, b};
  return c->lookup<int>("x").has_value();
}
''')
