// Shared pieces of the harnesses that drive the public Solver interface with symbolic flow states
#pragma once
#include "sx.hpp"
#include <Solver.hpp>
#include <memory>
#include <vector>
#include <functional>
using namespace hexed;
static int pick(const char* n, int lo, int hi) { return sx_concrete(sx_int(n, lo, hi)); }
struct Mute : Printer { void print(std::string) override {} };
// initial condition given by a function object
struct Init : Spacetime_func
{
  std::function<std::vector<double>(std::vector<double>)> f; int nv;
  Init(int n, std::function<std::vector<double>(std::vector<double>)> g) : f{g}, nv{n} {}
  int n_var(int) const override { return nv; }
  std::vector<double> operator()(std::vector<double> p, double) const override { return f(p); }
};
static std::unique_ptr<Solver> mk_solver(int nd, int row, double size, bool local = false, Transport_model v = inviscid, Transport_model c = inviscid, bool implicit = false)
{ return std::make_unique<Solver>(nd, row, size, local, v, c, std::make_shared<Namespace>(), std::make_shared<Mute>(), implicit); }
// arbitrary admissible state with subsonic velocity, of order 1
static std::vector<double> any_state(int nd, double w = .15)
{
  std::vector<double> s(nd + 2); for (int i = 0; i < nd; ++i) s[i] = sx_real("momentum", -2*w, 2*w);
  s[nd] = sx_real("mass", 1 - w, 1 + w); s[nd + 1] = sx_real("energy", 2.5 - 2*w, 2.5 + 2*w); return s;
}
static Accessible_mesh& amesh(Solver& s) { return dynamic_cast<Accessible_mesh&>(s.mesh()); }
