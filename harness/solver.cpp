#include "solver.hpp"
SX_ENTRY smoke()
{
  auto s = mk_solver(2, 2, 1.);
  std::vector<Flow_bc*> bcs; for (int i = 0; i < 4; ++i) bcs.push_back(new Nonpenetration);
  s->mesh().add_tree(bcs); s->mesh().update(); 
  s->mesh().valid().assert_valid();
  s->calc_jacobian();
  s->initialize(Init(4, [](std::vector<double>) { return any_state(2); }));
  State_variables sv; auto before = s->integral_field(sv);
  s->update();
  auto after = s->integral_field(sv);
  sx_near(after[2], before[2], 1e-9, "mass");
  sx_near(after[3], before[3], 1e-9, "energy");
  sx_reach("end");
}
