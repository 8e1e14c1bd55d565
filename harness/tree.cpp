// Tree: partition, point location, neighbour lookup, flood fill
#include "sx.hpp"
#include <Tree.hpp>
#include <map>
#include <queue>
#include <set>
using namespace hexed;
typedef Eigen::VectorXi Vi;
static void collect(Tree* t, std::vector<Tree*>& leaves) { if (t->is_leaf()) leaves.push_back(t); else for (Tree* c : t->children()) collect(c, leaves); }
static void collect_all(Tree* t, std::vector<Tree*>& v) { v.push_back(t); for (Tree* c : t->children()) collect_all(c, v); }
// every subset of refinements down to `depth`
static void grow(Tree* t, int depth)
{
  if (depth <= 0) return;
  if (sx_concrete(sx_int("refine", 0, 1))) { t->refine(); for (Tree* c : t->children()) grow(c, depth - 1); }
}
// a history of refine/unrefine operations applied to arbitrary elements
static void history(Tree* root, int steps, bool unref)
{
  for (int i = 0; i < steps; ++i) {
    std::vector<Tree*> l;
    if (unref && sx_concrete(sx_int("op", 0, 1))) {
      collect_all(root, l);
      l[sx_concrete(sx_int("elem", 0, l.size() - 1))]->unrefine();
    } else {
      collect(root, l);
      l[sx_concrete(sx_int("leaf", 0, l.size() - 1))]->refine();
    }
  }
}
// lower corner and size of an element in units of 2^-fine of the root
static void box(Tree* t, int fine, long* lo, long& sz) { sz = 1l << (fine - t->refinement_level()); Vi c = t->coordinates(); for (int i = 0; i < t->n_dim; ++i) lo[i] = c(i)*sz; }
static int max_level(const std::vector<Tree*>& l) { int m = 0; for (Tree* t : l) m = std::max(m, t->refinement_level()); return m; }

static void check_structure(Tree& root, int fine)
{
  std::vector<Tree*> every; collect_all(&root, every);
  sx_assert(root.count() == int(every.size()), "count() is the number of elements");
  double vol = 0;
  for (Tree* t : every) {
    sx_assert(t->root() == &root, "root()");
    sx_assert(t->is_root() == (t == &root) && t->is_root() == !t->parent(), "is_root");
    sx_assert(t->is_leaf() == t->children().empty(), "is_leaf");
    long lo[3], sz; box(t, fine, lo, sz);
    auto ch = t->children();
    if (!ch.empty()) {
      sx_assert(int(ch.size()) == 1 << root.n_dim, "2^n_dim children");
      for (size_t i = 0; i < ch.size(); ++i) {
        sx_assert(ch[i]->parent() == t && ch[i]->refinement_level() == t->refinement_level() + 1, "child links");
        long clo[3], csz; box(ch[i], fine, clo, csz);
        for (int d = 0; d < root.n_dim; ++d) sx_assert(clo[d] == lo[d] + csz*long(i >> (root.n_dim - 1 - d) & 1), "children tile the parent in row-major order");
      }
    }
  }
}
static void check_real(Tree& root, double size, Mat<> origin)
{
  std::vector<Tree*> every; collect_all(&root, every);
  for (Tree* t : every) {
    double s = size; for (int i = 0; i < t->refinement_level(); ++i) s /= 2;
    sx_near(t->nominal_size(), s, 1e-9, "nominal_size");
    Mat<> p = t->nominal_position(), c = t->center(), o = t->origin();
    Vi k = t->coordinates();
    sx_assert(p.size() == root.n_dim && c.size() == root.n_dim, "position size");
    for (int d = 0; d < root.n_dim; ++d) {
      sx_near(o(d), origin(d), 1e-9, "origin");
      sx_near(p(d), origin(d) + s*k(d), 1e-9, "nominal_position");
      sx_near(c(d), origin(d) + s*(k(d) + .5), 1e-9, "center");
    }
  }
}
static void check_find_int(Tree& root, Tree* from, int max_rl, int range)
{
  int n = root.n_dim;
  std::vector<Tree*> leaves; collect(from, leaves);
  int rl = sx_concrete(sx_int("level", 0, max_rl));
  Vi c(n), b(n);
  for (int d = 0; d < n; ++d) { c(d) = sx_int("coord", -1, range*(1 << rl) + 1); b(d) = sx_int("bias", 0, 1); }
  Tree* got = from->find_leaf(rl, c, b);
  int fine = std::max(max_level(leaves), rl);
  int n_in = 0; 
  for (Tree* t : leaves) {
    long lo[3], sz; box(t, fine, lo, sz);
    int in = 1;
    for (int d = 0; d < n; ++d) { long x = long(c(d))*(1l << (fine - rl)) - b(d); in &= (x >= lo[d]) & (x < lo[d] + sz); }
    sx_assert(in == (got == t), "find_leaf returns exactly the leaf containing the point on the biased side");
    n_in += in;
  }
  sx_assert((n_in == 0) == (got == nullptr), "find_leaf returns null iff outside");
  sx_assert(n_in <= 1, "leaves do not overlap");
}
static void check_find_pos(Tree* from)
{
  int n = from->n_dim;
  std::vector<Tree*> leaves; collect(from, leaves);
  Mat<> x(n);
  for (int d = 0; d < n; ++d) x(d) = sx_real("x", -6, 6);
  Tree* got = from->find_leaf(x);
  auto inside = [&](Tree* t) { Mat<> p = t->nominal_position(); double s = t->nominal_size(); int in = 1; for (int d = 0; d < n; ++d) in &= (x(d) >= p(d)) & (x(d) <= p(d) + s); return in; };
  if (got) {
    sx_assert(got->is_leaf(), "find_leaf returns a leaf");
    sx_assert(inside(got), "the leaf returned contains the point");
    bool below = false; for (Tree* t : leaves) below = below || t == got;
    sx_assert(below, "the leaf returned is a descendent");
  } else {
    for (Tree* t : leaves) sx_assert(!inside(t), "null only if no leaf contains the point");
  }
}
static void check_neighbors(Tree& root, bool diag)
{
  int n = root.n_dim;
  std::vector<Tree*> leaves; collect(&root, leaves);
  int fine = max_level(leaves);
  std::map<Tree*, int> id; for (size_t i = 0; i < leaves.size(); ++i) id[leaves[i]] = i;
  int n_dir = 1; for (int d = 0; d < n; ++d) n_dir *= 3;
  for (Tree* t : leaves) {
    long lo[3], sz; box(t, fine, lo, sz);
    for (int k = 0; k < n_dir; ++k) {
      Vi dir(n); int nz = 0;
      for (int d = 0, kk = k; d < n; ++d, kk /= 3) { dir(d) = kk%3 - 1; nz += dir(d) != 0; }
      if (!nz || (nz > 1 && !diag)) continue;
      // oracle: leaves whose closure touches the face/edge/vertex of `t` in this direction from outside,
      // and which overlap it with positive measure in the dimensions the direction leaves free
      std::vector<Tree*> want;
      for (Tree* u : leaves) {
        long ul[3], us; box(u, fine, ul, us);
        bool is = true;
        for (int d = 0; d < n; ++d) {
          // the probe cell is `t` displaced by its own size along `dir`
          if (dir(d) == 0) is = is && ul[d] < lo[d] + sz && ul[d] + us > lo[d];
          else if (dir(d) > 0) is = is && ul[d] <= lo[d] + sz && ul[d] + us > lo[d] + sz;
          else is = is && ul[d] < lo[d] && ul[d] + us >= lo[d];
        }
        if (is) want.push_back(u);
      }
      std::vector<Tree*> got = t->find_neighbors(dir);
      sx_assert(got == want, "find_neighbors returns every adjacent leaf once, in depth-first order");
      Tree* one = t->find_neighbor(dir);
      sx_assert(bool(one) == !want.empty(), "find_neighbor finds a neighbour iff there is one");
      if (one) sx_assert(one == want[0] || nz > 1, "find_neighbor returns the neighbour with the lowest coordinates");
      if (one) { bool in = false; for (Tree* w : want) in = in || w == one; sx_assert(in, "find_neighbor agrees with find_neighbors"); }
      // symmetry
      if (nz == 1) for (Tree* u : got) {
        bool back = false; for (Tree* v : u->find_neighbors(-dir)) back = back || v == t;
        sx_assert(back, "neighbour relation is symmetric");
      }
    }
  }
}
static void check_flood(Tree& root, Tree* start, int n_mark)
{
  std::vector<Tree*> leaves; collect(&root, leaves);
  int n = root.n_dim, fine = max_level(leaves);
  std::vector<int> mark(leaves.size(), 0);
  for (size_t i = 0; i < leaves.size(); ++i) if (int(i) < n_mark) mark[i] = sx_concrete(sx_int("wall", 0, 1));
  int walls = sx_int("wall_status", -4, 9), fill = sx_int("fill_status", -4, 9); sx_assume((walls != Tree::unprocessed) & (fill != Tree::unprocessed));
  for (size_t i = 0; i < leaves.size(); ++i) if (mark[i]) leaves[i]->set_status(walls);
  std::vector<Tree*> every; collect_all(&root, every);
  Tree* s = start; while (!s->is_leaf()) s = s->children()[0];
  std::vector<std::vector<int>> adj(leaves.size());
  for (size_t i = 0; i < leaves.size(); ++i) for (size_t j = 0; j < leaves.size(); ++j) if (i != j) {
    long a[3], as, b[3], bs; box(leaves[i], fine, a, as); box(leaves[j], fine, b, bs);
    int touch = 0, over = 0;
    for (int d = 0; d < n; ++d) { if (a[d] + as == b[d] || b[d] + bs == a[d]) ++touch; else if (a[d] < b[d] + bs && b[d] < a[d] + as) ++over; }
    if (touch == 1 && over == n - 1) adj[i].push_back(j);
  }
  std::vector<int> want(leaves.size(), 0); std::queue<int> q; // 0 untouched, 1 wall, 2 filled
  for (size_t i = 0; i < leaves.size(); ++i) { if (mark[i]) want[i] = 1; if (leaves[i] == s) q.push(i); }
  while (!q.empty()) { int i = q.front(); q.pop(); if (want[i]) continue; want[i] = 2; for (int j : adj[i]) q.push(j); }
  start->flood_fill(fill);
  for (size_t i = 0; i < leaves.size(); ++i) sx_assert(leaves[i]->get_status() == (want[i] == 0 ? Tree::unprocessed : want[i] == 1 ? walls : fill), "exactly the connected unmarked region containing the start leaf is filled");
  root.clear_status();
  for (Tree* t : every) sx_assert(t->get_status() == Tree::unprocessed, "clear_status");
}

// ---- entries
template <int n> static void structure(int depth, int steps)
{
  Tree root(n, 1.); sx_concrete(0);
  if (depth) grow(&root, depth); else history(&root, steps, true);
  std::vector<Tree*> every; collect_all(&root, every);
  check_structure(root, max_level(every));
  sx_reach("end");
}
#ifndef HIST
#define HIST 3
#endif
#ifndef DEEP
#define DEEP 0
#endif
SX_ENTRY structure1() { structure<1>(3, 0); }
SX_ENTRY structure2() { structure<2>(2, 0); }
SX_ENTRY structure2h() { structure<2>(0, 3 + DEEP); }
SX_ENTRY structure3h() { structure<3>(0, 2 + DEEP); }
template <int n> static void realpos(int steps)
{
  Mat<> o(n + 1); for (int i = 0; i <= n; ++i) o(i) = sx_real("origin", -4, 4);
  double s = sx_real("size", .01, 10);
  Tree root(n, s, o); history(&root, steps, false);
  check_real(root, s, o);
  sx_reach("end");
}
SX_ENTRY real1() { realpos<1>(3); }
SX_ENTRY real2() { realpos<2>(2 + DEEP); }
SX_ENTRY real3() { realpos<3>(2); }
SX_ENTRY find_int1() { Tree root(1, 1.); grow(&root, 3); check_find_int(root, &root, 4, 1); sx_reach("end"); }
SX_ENTRY find_int2() { Tree root(2, 1.); history(&root, 2 + DEEP, false); check_find_int(root, &root, 3, 1); sx_reach("end"); }
SX_ENTRY find_int3() { Tree root(3, 1.); history(&root, 1 + DEEP, false); check_find_int(root, &root, 2, 1); sx_reach("end"); }
SX_ENTRY find_int_sub()
{
  Tree root(2, 1.); root.refine(); root.children()[2]->refine();
  Tree* from = root.children()[sx_concrete(sx_int("child", 0, 3))];
  check_find_int(root, from, 2, 1); sx_reach("end");
}
template <int n> static void find_pos(int steps)
{
  Mat<> o(n); for (int i = 0; i < n; ++i) o(i) = sx_real("origin", -4, 4);
  Tree root(n, sx_real("size", .01, 10), o); history(&root, steps, false);
  check_find_pos(&root); sx_reach("end");
}
SX_ENTRY find_pos1() { find_pos<1>(3); }
SX_ENTRY find_pos2() { find_pos<2>(2); }
SX_ENTRY find_pos3() { find_pos<3>(1); }
template <int n> static void neighb(int depth, int steps, bool diag) { Tree root(n, 1.); if (depth) grow(&root, depth); else history(&root, steps, false); check_neighbors(root, diag); sx_reach("end"); }
SX_ENTRY neighb1() { neighb<1>(4, 0, true); }
SX_ENTRY neighb2() { neighb<2>(2, 0, true); }
SX_ENTRY neighb2h() { neighb<2>(0, 3 + DEEP, true); }
SX_ENTRY neighb3() { neighb<3>(0, 2 + DEEP, true); }
SX_ENTRY flood1() { Tree root(1, 1.); grow(&root, 2 + DEEP); std::vector<Tree*> e; collect_all(&root, e); check_flood(root, e[sx_concrete(sx_int("start", 0, e.size() - 1))], 4); sx_reach("end"); }
SX_ENTRY flood2()
{
  Tree root(2, 1.); root.refine(); root.children()[sx_concrete(sx_int("sub", 0, 3))]->refine();
  std::vector<Tree*> e; collect_all(&root, e);
  check_flood(root, e[sx_concrete(sx_int("start", 0, e.size() - 1))], 7); sx_reach("end");
}
// large jumps in refinement level
template <int n> static void flood_jump(int depth, int marks)
{
  Tree root(n, 1.); Tree* t = &root; t->refine();
  for (int i = 1; i < depth; ++i) { t = t->children()[sx_concrete(sx_int("sub", 0, (1 << n) - 1))]; t->refine(); }
  std::vector<Tree*> e; collect(&root, e);
  check_flood(root, e[sx_concrete(sx_int("start", 0, e.size() - 1))], marks); sx_reach("end");
}
SX_ENTRY flood_jump1() { flood_jump<1>(4, 5); }
SX_ENTRY flood_jump2() { flood_jump<2>(3, 2 + DEEP); }
SX_ENTRY flood3() { Tree root(3, 1.); root.refine(); std::vector<Tree*> e; collect_all(&root, e); check_flood(root, e[sx_concrete(sx_int("start", 0, e.size() - 1))], 8); sx_reach("end"); }
SX_ENTRY flood_bad() { Tree root(2, 1.); bool threw = false; try { root.flood_fill(Tree::unprocessed); } catch (...) { threw = true; } sx_assert(threw, "flood_fill(unprocessed) is rejected"); sx_reach("end"); }
