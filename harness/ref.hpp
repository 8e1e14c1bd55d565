// Reference model of a connection between faces. Coordinates along the axes of element 1 that match coordinates `c0` (in [0,1])
// along the axes of element 0, for points in the shared face: elements are related by a proper rotation that takes face 0 to face 1
#pragma once
#include "sx.hpp"
static int pick(const char* n, int lo, int hi) { return sx_concrete(sx_int(n, lo, hi)); }
struct Ref { int n, a, b; bool s0, s1; };
template <class T> static void to1(Ref r, const T* c0, T* c1, T one)
{
  for (int d = 0; d < r.n; ++d) c1[d] = c0[d];
  if (r.a != r.b) { T v = c0[r.b]; c1[r.a] = r.s0 != r.s1 ? one - v : v; }
  c1[r.b] = r.s1 ? one : T(0);
}
template <class T> static void to0(Ref r, const T* c1, T* c0, T one)
{
  for (int d = 0; d < r.n; ++d) c0[d] = c1[d];
  if (r.a != r.b) { T v = c1[r.a]; c0[r.b] = r.s0 != r.s1 ? one - v : v; }
  c0[r.a] = r.s0 ? one : T(0);
}
static int face_ind(Ref r, int dim, const int* c, int row) { int k = 0; for (int d = 0; d < r.n; ++d) if (d != dim) k = k*row + c[d]; return k; }
static void face_coords(Ref r, int dim, int k, int row, int* c) { for (int d = r.n - 1; d >= 0; --d) if (d != dim) { c[d] = k%row; k /= row; } c[dim] = 0; }
static int vert_ind(int n, const int* c) { int k = 0; for (int d = 0; d < n; ++d) k = 2*k + c[d]; return k; }
static Ref any_dir(int n, bool proper)
{
  Ref r {n, pick("i_dim0", 0, n - 1), pick("i_dim1", 0, n - 1), bool(pick("sign0", 0, 1)), bool(pick("sign1", 0, 1))};
  if (proper) sx_assume(r.a != r.b || r.s0 != r.s1); // faces on the same axis meet only if they point opposite ways
  return r;
}
