// Surface geometry: nearest points and intersections with lines
#include "sx.hpp"
#include <Surface_geom.hpp>
#include <Simplex_geom.hpp>
#include <cmath>
#include <memory>
#include <vector>
using namespace hexed;
static int pick(const char* n, int lo, int hi) { return sx_concrete(sx_int(n, lo, hi)); }
static double sq(const Mat<>& a) { double s = 0; for (int i = 0; i < a.size(); ++i) s += a(i)*a(i); return s; }
// segments of several sizes; the corner (0, 0) of the bounding box is shared
static const double scales[] {.125, 1., 16.};
static std::vector<Mat<2, 2>> polyline(int shape, double s)
{
  static const double pts[3][5][2] {{{0, 0}, {.25, 1}, {1, .75}, {.625, .125}, {.875, .25}}, {{0, .5}, {1, .5}, {1, 0}, {.25, .25}, {.375, .375}}, {{1, 1}, {.125, .875}, {0, 0}, {.75, .25}, {.875, .75}}};
  Mat<dyn, dyn> p(2, 5); for (int i = 0; i < 5; ++i) for (int d = 0; d < 2; ++d) p(d, i) = s*(pts[shape][i][d] - .25); return segments(p);
}
// nearest point of a segment, by cases
static double seg_dist(const Mat<2, 2>& g, double x, double y, double* p)
{
  double dx = g(0, 1) - g(0, 0), dy = g(1, 1) - g(1, 0), l = dx*dx + dy*dy, t = ((x - g(0, 0))*dx + (y - g(1, 0))*dy)/l; if (t < 0) t = 0; else if (t > 1) t = 1;
  p[0] = g(0, 0) + t*dx; p[1] = g(1, 0) + t*dy; return (p[0] - x)*(p[0] - x) + (p[1] - y)*(p[1] - y);
}
static void near2(int shape, bool limit)
{
  double s = limit || pick("scale", 0, 1) ? 16. : 1.; auto seg = polyline(shape, s); int nseg = pick("several", 0, 1) ? 2 : 1, first = pick("first", 0, 1)*2; std::vector<Mat<2, 2>> g; for (int i = 0; i < nseg; ++i) g.push_back(seg[(i + first)%4]);
  static const double at[] {-.75, .125, .5}; bool vert = shape == 1; double z = s*(limit ? .5*pick("x", -2, 2) : sx_real("x", -1.5, 1.5)), f = s*at[pick("y", 0, 2)], x = vert ? f : z, y = vert ? z : f, mx = huge, guess = huge; bool hint = limit && pick("hint", 0, 1); if (hint) { guess = s*sx_real("guess", .2, 1); limit = false; } if (limit) mx = s*sx_real("limit", .02, 2); Simplex_geom<2> geom(g);
  auto np = geom.nearest_point(Mat<>{{x, y}}, mx, guess); double best = 0, bp[2] {}; for (int i = 0; i < nseg; ++i) { double p[2], d = seg_dist(g[i], x, y, p); if (!i || d < best) { best = d; bp[0] = p[0]; bp[1] = p[1]; } }
  sx_near(np.reference()(0), x, 0, "reference point"); if (limit) sx_assume((best <= mx*mx - s*s*1e-9) | (best >= mx*mx + s*s*1e-9));
  if (limit && best >= mx*mx) sx_assert(np.empty(), "nothing within the maximum distance");
  else { sx_assert(!np.empty(), "the nearest point is found"); if (!np.empty()) { sx_near(np.dist_squared(), best, 1e-9*s*s, "distance to the nearest point"); Mat<> p = np.point(); double px = p(0) - x, py = p(1) - y; sx_assert(std::abs(px) <= 8*s & std::abs(py) <= 8*s, "the nearest point is near"); if (nseg == 1) { sx_near(p(0), bp[0], 1e-9*s, "nearest point"); sx_near(p(1), bp[1], 1e-9*s, "nearest point"); } bool on = false; for (int i = 0; i < nseg; ++i) { double dx = g[i](0, 1) - g[i](0, 0), dy = g[i](1, 1) - g[i](1, 0), l = dx*dx + dy*dy, ex = p(0) - g[i](0, 0), ey = p(1) - g[i](1, 0), u = ex*dx + ey*dy, v = ex*dy - ey*dx; on = on | ((u >= -1e-9*l) & (u <= l*(1 + 1e-9)) & (v <= 1e-9*l) & (v >= -1e-9*l)); } sx_assert(on, "the nearest point is on the surface"); } }
  sx_reach("end");
}
SX_ENTRY near_a() { near2(0, false); }
SX_ENTRY near_b() { near2(1, true); }
SX_ENTRY near_c() { near2(2, true); }
// intersections of a line of given direction through any point
static const double dirs2[][2] {{1, 0}, {0, 1}, {1, 1}, {-.5, 2}, {3, -1}};
SX_ENTRY inter2()
{
  int shape = pick("shape", 0, 2), k = pick("dir", 0, 4); double s = pick("scale", 0, 1) ? 16. : 1., len = k%2 ? .5 : 2.; auto g = polyline(shape, s); Simplex_geom<2> geom(g);
  double x = s*sx_real("x", -2, 2), y = s*sx_real("y", -2, 2), dx = s*len*dirs2[k][0], dy = s*len*dirs2[k][1]; auto t = geom.intersections(Mat<>{{x, y}}, Mat<>{{x + dx, y + dy}}); std::vector<int> used(t.size(), 0);
  for (auto& m : g) {
    double ex = m(0, 1) - m(0, 0), ey = m(1, 1) - m(1, 0), det = dx*ey - dy*ex; if (std::abs(det) < 1e-6*s*s) { sx_assume(std::abs((m(0, 0) - x)*dy - (m(1, 0) - y)*dx) > 1e-3*s*s); continue; } // parallel
    double ax = m(0, 0) - x, ay = m(1, 0) - y, tt = (ax*ey - ay*ex)/det, u = (ax*dy - ay*dx)/det; if (u < -1e-3 || u > 1.001) continue; sx_assume(u > .001 && u < .999); // not through an end point
    bool found = false; for (size_t i = 0; i < t.size(); ++i) if (!found && !used[i] && std::abs(t[i] - tt) <= 1e-9) { found = true; used[i] = 1; } sx_assert(found, "every crossing of the line and the surface is returned");
  }
  for (int u : used) sx_assert(u, "nothing else is returned"); sx_reach("end");
}
// triangles
static const double tri[3][3][3] {{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}}, {{.1, 0, .3}, {.8, .2, 0}, {.3, .9, .6}}, {{1, 1, 1}, {0, .5, .2}, {.3, 0, 1}}};
static Mat<3, 3> triangle(int k, double s) { Mat<3, 3> m; for (int v = 0; v < 3; ++v) for (int d = 0; d < 3; ++d) m(d, v) = s*(tri[k][v][d] - .25); return m; }
SX_ENTRY near3()
{
  int k = pick("triangle", 0, 2); double s = k ? 16. : 1.; std::vector<Mat<3, 3>> g {triangle(k, s)}; Simplex_geom<3> geom(g); Mat<> r(3); int ax = pick("axis", 0, 2); static const double at[] {-.3, .17, .9}; for (int d = 0; d < 3; ++d) if (d == ax) r(d) = s*sx_real("x", -1, 1); else r(d) = s*at[pick("at", 0, 2)];
  auto np = geom.nearest_point(r); sx_assert(!np.empty(), "the nearest point is found"); Mat<> p = np.point();
  for (int v = 0; v < 3; ++v) { double dot = 0; for (int d = 0; d < 3; ++d) dot += (r(d) - p(d))*(g[0](d, v) - p(d)); sx_assert(dot <= 1e-6*s*s, "no corner is in the direction of the point"); }
  Mat<3> n; for (int d = 0; d < 3; ++d) { int a = (d + 1)%3, b = (d + 2)%3; n(d) = (g[0](a, 1) - g[0](a, 0))*(g[0](b, 2) - g[0](b, 0)) - (g[0](b, 1) - g[0](b, 0))*(g[0](a, 2) - g[0](a, 0)); }
  double off = 0; for (int d = 0; d < 3; ++d) off += n(d)*(p(d) - g[0](d, 0)); sx_near(off, 0, 1e-6*s*s*s, "the nearest point is in the plane");
  for (int e = 0; e < 3; ++e) { double c = 0; for (int d = 0; d < 3; ++d) { int a = (d + 1)%3, b = (d + 2)%3; c += n(d)*((g[0](a, (e + 1)%3) - g[0](a, e))*(p(b) - g[0](b, e)) - (g[0](b, (e + 1)%3) - g[0](b, e))*(p(a) - g[0](a, e))); } sx_assert(c >= -1e-6*s*s*s*s, "the nearest point is inside of the triangle"); }
  sx_near(np.dist_squared(), sq(p - r), 1e-9*s*s, "distance"); sx_reach("end");
}
// several triangles: the nearest of the nearest points, with and without limit
SX_ENTRY near3m()
{
  double s = 16; std::vector<Mat<3, 3>> g; for (int k = 0; k < 3; ++k) g.push_back(triangle(k, s)); Simplex_geom<3> geom(g); Mat<> r(3); r(0) = s*.4*pick("x", -2, 2); r(1) = s*.4*pick("y", -1, 1); r(2) = s*.6*pick("z", 0, 1);
  bool free = pick("unlimited", 0, 1); double mx = huge; if (!free) mx = s*sx_real("limit", .05, 2); auto np = geom.nearest_point(r, mx); double best = 0; for (int k = 0; k < 3; ++k) { Simplex_geom<3> one(std::vector<Mat<3, 3>>{g[k]}); auto n1 = one.nearest_point(r); double d = n1.dist_squared(); if (!k || d < best) best = d; }
  if (!free) sx_assume((best <= mx*mx - s*s*1e-9) | (best >= mx*mx + s*s*1e-9)); if (!free && best >= mx*mx) sx_assert(np.empty(), "nothing within the maximum distance"); else { sx_assert(!np.empty(), "the nearest point is found"); if (!np.empty()) sx_near(np.dist_squared(), best, 1e-9*s*s, "nearest of all"); }
  sx_reach("end");
}
static const double dirs3[][3] {{0, 0, 1}, {1, 0, 0}, {1, 2, -1}, {-.5, .25, 1}};
SX_ENTRY inter3()
{
  int k = pick("dir", 0, 3); double s = k%2 ? 16 : 1; std::vector<Mat<3, 3>> g; for (int i = 0; i < 2; ++i) g.push_back(triangle(i, s)); Simplex_geom<3> geom(g); Mat<3> d; for (int i = 0; i < 3; ++i) d(i) = s*dirs3[k][i];
  Mat<> p(3); int fr = pick("free", 0, 2); static const double at[] {-.125, .25, .625}; for (int i = 0; i < 3; ++i) if (i == fr) p(i) = s*sx_real("x", -1, 1); else p(i) = s*at[pick("at", 0, 2)]; Mat<> q(3); for (int i = 0; i < 3; ++i) q(i) = p(i) + d(i); auto t = geom.intersections(p, q); std::vector<int> used(t.size(), 0);
  for (auto& m : g) {
    double e[3], f[3], a[3]; for (int i = 0; i < 3; ++i) { e[i] = m(i, 1) - m(i, 0); f[i] = m(i, 2) - m(i, 0); a[i] = p(i) - m(i, 0); }
    auto tp = [](const double* x, const double* y, const double* z) { double r = 0; for (int i = 0; i < 3; ++i) r += x[i]*(y[(i + 1)%3]*z[(i + 2)%3] - y[(i + 2)%3]*z[(i + 1)%3]); return r; };
    double dd[3] {d(0), d(1), d(2)}, det = tp(dd, e, f); if (std::abs(det) < 1e-6*s*s*s) { sx_assume(std::abs(tp(a, e, f)) > 1e-3*s*s*s); continue; }
    double tt = -tp(a, e, f)/det, u = tp(dd, a, f)/det, v = tp(dd, e, a)/det; if (u < -1e-3 || v < -1e-3 || u + v > 1.001) continue; sx_assume(u > .001 && v > .001 && u + v < .999);
    bool found = false; for (size_t i = 0; i < t.size(); ++i) if (!found && !used[i] && std::abs(t[i] - tt) <= 1e-9) { found = true; used[i] = 1; } sx_assert(found, "every crossing of the line and the surface is returned");
  }
  for (int u : used) sx_assert(u, "nothing else is returned"); sx_reach("end");
}
// hyperspheres
SX_ENTRY sphere()
{
  int n = pick("n", 1, 3), ax = pick("axis", 0, 2); bool mode = pick("radius_or_distance", 0, 1); double rad = mode ? .75 : sx_real("radius", .5, 2), l = mode ? sx_real("distance", .1, 3) : pick("inside", 0, 1) ? .25 : 2.5; static const double dir[] {.6, -.8, 0}, at[] {-.5, 2, .25}; Mat<> c(n), r(n); if (n == 1) ax = 0;
  if (n == 2) ax = 0; for (int i = 0; i < n; ++i) { c(i) = at[i]; r(i) = c(i) + l*(n == 1 ? 1 : dir[(i + ax)%3]); } double mx = pick("limit", 0, 1) ? .6 : huge; double gap = l > rad ? l - rad : rad - l; sx_assume((gap < mx - 1e-6) | (gap > mx + 1e-6));
  Hypersphere h(c, rad); auto np = h.nearest_point(r, mx); if (gap >= mx) { sx_assert(np.empty(), "nothing within the maximum distance"); } else { sx_assert(!np.empty(), "found"); if (!np.empty()) { Mat<> p = np.point(); for (int i = 0; i < n; ++i) sx_near((p(i) - c(i))*l, rad*(r(i) - c(i)), 1e-9, "on the sphere, in the direction of the point"); } } 
  sx_reach("end");
}
SX_ENTRY sphere_line()
{
  int n = pick("n", 1, 3), k = pick("dir", 0, 3); double rad = sx_real("radius", .5, 2); Mat<> c(n), p(n), q(n); for (int i = 0; i < n; ++i) { c(i) = .5*i - .25; double z = i < 2 ? sx_real("x", -3, 3) : .5; p(i) = z; q(i) = z + (n == 1 ? 1 + k : dirs3[k][(i + (k == 0 ? 2 : 0))%3]); } 
  Hypersphere h(c, rad); auto t = h.intersections(p, q); double a = 0, b = 0, cc = -rad*rad; for (int i = 0; i < n; ++i) { double d = q(i) - p(i), s = p(i) - c(i); a += d*d; b += 2*d*s; cc += s*s; } double disc = b*b - 4*a*cc; sx_assume((disc > 1e-6) | (disc < -1e-6));
  if (disc < 0) sx_assert(t.empty(), "the line misses the sphere"); else { sx_assert(t.size() == 2, "number of intersections"); for (double x : t) sx_near(a*x*x + b*x + cc, 0, 1e-9, "intersections are on the sphere"); if (t.size() == 2) sx_near(t[0] + t[1], -b/a, 1e-9, "both intersections"); }
  sx_reach("end");
}
// a collection: the nearest of all, all intersections
SX_ENTRY compound()
{
  int n = 2, k = pick("parts", 0, 3); double x = .375*pick("x", -8, 8), cx[] {-2, 0, 2.5}, ra[] {.5, 1, .25}; std::vector<Surface_geom*> g; for (int i = 0; i < k; ++i) g.push_back(new Hypersphere(Mat<>{{cx[i], 0}}, ra[i])); Compound_geom c(g); double mx = huge; bool lim = pick("limited", 0, 1); if (lim) mx = sx_real("limit", .02, 3); Mat<> r(n); r(0) = x; r(1) = 0; bool centre = false; for (int i = 0; i < k; ++i) centre = centre | (std::abs(x - cx[i]) < .01); sx_assume(!centre);
  auto np = c.nearest_point(r, mx); double best = 1e9; for (int i = 0; i < k; ++i) { double d = std::abs(std::abs(x - cx[i]) - ra[i]); if (d < best) best = d; }
  if (lim && k) sx_assume((best < mx - 1e-9) | (best > mx + 1e-9)); if (!k || best >= mx) sx_assert(np.empty(), "nothing within the maximum distance"); else { sx_assert(!np.empty(), "found"); if (!np.empty()) sx_near(np.dist_squared(), best*best, 1e-9, "nearest of all"); }
  Mat<> q(n); q(0) = x; q(1) = 1; auto t = c.intersections(r, q); int want = 0; for (int i = 0; i < k; ++i) { double u = ra[i]*ra[i] - (x - cx[i])*(x - cx[i]); want += u > 0 ? 2 : u == 0 ? 1 : 0; } sx_assert(int(t.size()) == want, "intersections of all parts"); sx_reach("end");
}
// search state: the nearest candidate so far
SX_ENTRY nearest()
{
  double mx = pick("limited", 0, 1) ? 1.5 : huge, r0 = sx_real("ref", -1, 1); Nearest_point<2> np(Mat<2>{r0, .5}, mx); int n = pick("candidates", 0, 3); double best = 0; bool any = false, lim = mx != huge; double px = 0, py = 0;
  if (pick("convert", 0, 1)) { Nearest_point<dyn> d(np); Nearest_point<2> b(d); np = b; }
  for (int i = 0; i < n; ++i) { double x = sx_real("x", -4, 4), y = sx_real("y", -4, 4), d = (x - r0)*(x - r0) + (y - .5)*(y - .5); if (pick("kind", 0, 1)) np.merge(Mat<2>{x, y}); else np.merge(Nearest_point<2>(Mat<2>{r0, .5}, Mat<2>{x, y})); bool ok = any ? d < best : (!lim || d < mx*mx); if (ok) { any = true; best = d; px = x; py = y; } }
  sx_assert(np.empty() == !any, "empty until a candidate within the maximum distance is seen"); bool threw = false; try { Mat<2> p = np.point(); sx_near(p(0), px, 0, "nearest candidate"); sx_near(p(1), py, 0, "nearest candidate"); sx_near(np.dist_squared(), best, 1e-12, "its distance"); } catch (const std::exception&) { threw = true; } sx_assert(threw == !any, "an empty point has no position"); sx_reach("end");
}
