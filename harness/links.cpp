// Mutual_ptr and Vertex: arbitrary histories of operations against a reference model
#include "sx.hpp"
#include <Mutual_ptr.hpp>
#include <Vertex.hpp>
#include <map>
#include <memory>
#include <optional>
#include <vector>
using namespace hexed;
#ifndef STEPS
#define STEPS 3
#endif
struct A { int x; }; struct B { int y; };
typedef Mutual_ptr<A, B> PA; typedef Mutual_ptr<B, A> PB;
static int pick(const char* n, int k) { return sx_concrete(sx_int(n, 0, k - 1)); }
SX_ENTRY mutual()
{
  A a[2] {{0}, {1}}; B b[2] {{0}, {1}};
  std::unique_ptr<PA> p[2]; std::unique_ptr<PB> q[2]; int pd[2] = {0, 1}, qd[2] = {0, 1}; // which datum each belongs to
  int pp[2] = {-1, -1}, qq[2] = {-1, -1}; // model: partner index
  for (int i = 0; i < 2; ++i) { p[i].reset(new PA(&a[i])); q[i].reset(new PB(&b[i])); }
  auto cutp = [&](int i) { if (pp[i] >= 0) { qq[pp[i]] = -1; pp[i] = -1; } };
  auto cutq = [&](int j) { if (qq[j] >= 0) { pp[qq[j]] = -1; qq[j] = -1; } };
  for (int s = 0; s < STEPS; ++s) {
    int op = pick("op", 8), i = pick("i", 2);
    switch (op) {
      case 0: { int j = pick("j", 2); p[i]->pair(*q[j]); cutp(i); cutq(j); pp[i] = j; qq[j] = i; } break;
      case 1: { int j = pick("j", 2); q[j]->pair(*p[i]); cutp(i); cutq(j); pp[i] = j; qq[j] = i; } break;
      case 2: p[i]->unpair(); cutp(i); break;
      case 3: q[i]->unpair(); cutq(i); break;
      case 4: p[i].reset(new PA(&a[i])); cutp(i); pd[i] = i; break; // destroys the old one
      case 5: q[i].reset(new PB(&b[i])); cutq(i); qd[i] = i; break;
      case 6: { *p[i] = std::move(*p[!i]); cutp(i); pd[i] = pd[!i]; pp[i] = pp[!i]; pp[!i] = -1; if (pp[i] >= 0) qq[pp[i]] = i; } break; // move assignment steals
      case 7: { std::unique_ptr<PB> n(new PB(std::move(*q[i]))); q[i] = std::move(n); } break; // move construction keeps the pairing
    }
    for (int k = 0; k < 2; ++k) {
      sx_assert(bool(*p[k]) == (pp[k] >= 0) && bool(*q[k]) == (qq[k] >= 0), "paired iff the history says so");
      sx_assert(p[k]->partner() == (pp[k] >= 0 ? q[pp[k]].get() : nullptr), "partner");
      sx_assert(q[k]->partner() == (qq[k] >= 0 ? p[qq[k]].get() : nullptr), "partner is mutual");
      sx_assert(p[k]->get() == (pp[k] >= 0 ? &b[qd[pp[k]]] : nullptr) && (B*) *p[k] == p[k]->get(), "get");
      sx_assert(q[k]->get() == (qq[k] >= 0 ? &a[pd[qq[k]]] : nullptr), "get");
      sx_assert(&p[k]->mine() == &a[pd[k]] && &q[k]->mine() == &b[qd[k]], "mine");
      bool threw = false; try { B& v = p[k]->value(); sx_assert(&v == p[k]->get(), "value"); } catch (std::exception&) { threw = true; }
      sx_assert(threw == (pp[k] < 0), "value() throws iff unpaired");
    }
  }
  bool threw = false; try { PA bad(nullptr); } catch (std::exception&) { threw = true; } sx_assert(threw, "null data is rejected");
  sx_reach("end");
}
// vertices: four pointers to separate vertices, arbitrary edges, then merges / releases / copies
typedef Vertex::Transferable_ptr Tp; typedef Vertex::Non_transferable_ptr Np;
static void vert(int steps, int n, bool groups = false)
{
  // pointers 0...n-1 start with a vertex each; the others are made by copying
  int N = n + steps + (groups ? 2*n : 0), used = n; std::vector<std::unique_ptr<Tp>> t(N); std::vector<std::unique_ptr<Np>> nt(n); std::vector<int> ntof(n);
  struct G { bool alive = true; double pos[3]; std::vector<int> members, rec; }; std::vector<G> g(n); std::vector<int> of(N); std::vector<std::vector<bool>> adj(n, std::vector<bool>(n, false));
  std::vector<double> val(N); std::vector<bool> mob(N), smooth(N, true), tl(N, false); for (int i = 0; i < n; ++i) { tl[i] = true; ntof[i] = i; }
  for (int i = 0; i < n; ++i) {
    Mat<3> x; for (int d = 0; d < 3; ++d) { x(d) = sx_real("x", -5, 5); g[i].pos[d] = x(d); }
    mob[i] = n == 2 && !groups ? pick("mobile", 2) : i != 1;
    t[i].reset(new Tp(x, mob[i])); nt[i].reset(new Np(**t[i])); t[i]->shareable_value = val[i] = sx_real("value", -5, 5); (**t[i]).record.push_back(i); g[i].rec = {i}; g[i].members = {i}; of[i] = i;
  }
  for (int i = 0; i < n; ++i) { int j = (i + 1)%n; if (i != j && (n > 2 || i == 0) && (groups || pick("edge", 2))) { Vertex::connect(**t[i], **t[j]); adj[i][j] = adj[j][i] = true; } }
  auto die = [&](int k) { g[k].alive = false; for (int& x : ntof) if (x == k) x = -1; for (int m = 0; m < n; ++m) adj[k][m] = adj[m][k] = false; };
  auto copy = [&](int i, bool keep) { int k = used++; t[k].reset(new Tp(*t[i])); tl[k] = true; of[k] = of[i]; g[of[i]].members.push_back(k); mob[k] = mob[i]; if (keep) val[k] = val[i]; else t[k]->shareable_value = val[k] = sx_real("value", -5, 5); };
  if (groups) for (int i = 0; i < n; ++i) { int c = pick("owners", 3); for (int k = 0; k < c; ++k) copy(i, k == 1); } // up to three owners per vertex
  for (int s = 0; s < steps; ++s) {
    int op = pick("op", 6), i = pick("i", op == 4 ? n : used);
    if (op == 4) { int j = pick("j", n); *nt[i] = *nt[j]; ntof[i] = ntof[j]; continue; } // reassignment of a pointer that does not own
    if (!tl[i]) continue;
    switch (op) {
      case 0: { int j = pick("j", used); if (!tl[j]) break; int a = of[i], b = of[j]; (**t[i]).eat(**t[j]); if (a == b) break;
        double m = g[a].members.size(), o = g[b].members.size();
        for (int d = 0; d < 3; ++d) g[a].pos[d] = (m*g[a].pos[d] + o*g[b].pos[d])/(m + o);
        for (int k : g[b].members) { g[a].members.push_back(k); of[k] = a; } g[a].rec.insert(g[a].rec.end(), g[b].rec.begin(), g[b].rec.end());
        for (int k = 0; k < n; ++k) if (k != a && adj[b][k]) adj[a][k] = adj[k][a] = true;
        die(b); } break;
      case 1: { t[i].reset(); tl[i] = false; auto& v = g[of[i]].members; v.erase(std::find(v.begin(), v.end(), i)); if (v.empty()) die(of[i]); } break; // release
      case 2: { int j = pick("j", used); if (!tl[j]) break; int a = of[i], b = of[j]; *t[i] = *t[j]; if (a != b) { auto& v = g[a].members; v.erase(std::find(v.begin(), v.end(), i)); of[i] = b; g[b].members.push_back(i); if (v.empty()) die(a); } } break; // reassignment
      case 3: t[i]->needs_smooth = smooth[i] = false; break;
      case 5: copy(i, pick("keep", 2)); break; // copy
    }
  }
  for (int i = 0; i < n; ++i) sx_assert(bool(*nt[i]) == (ntof[i] >= 0) && Np::is_null(*nt[i]) == (ntof[i] < 0), "a non-transferable pointer is null iff its vertex was merged away or released");
  for (int i = 0; i < used; ++i) if (tl[i]) {
    Vertex& v = **t[i]; auto& h = g[of[i]];
    sx_assert(v.mass() == int(h.members.size()), "mass is the number of owners");
    for (int d = 0; d < 3; ++d) sx_near(v.pos(d), h.pos[d], 1e-9, "position is the mass-weighted average");
    bool mb = true, sm = false; for (int k : h.members) { mb = mb && mob[k]; sm = sm || smooth[k]; }
    sx_assert(v.is_mobile() == mb, "mobile iff all owners are"); sx_assert(v.needs_smooth() == sm, "needs smoothing iff any owner does");
    sx_assert(t[i]->mobile == mob[i], "an owner's mobility is what it was made with"); sx_near(t[i]->shareable_value, val[i], 0, "an owner's value is its own");
    sx_assert(v.record == h.rec, "records are concatenated");
    double mx = v.shared_value(), mn = v.shared_value(Vertex::vector_min); bool hitx = false, hitn = false; int okx = 1, okn = 1;
    for (int k : h.members) { okx &= val[k] <= mx; okn &= val[k] >= mn; hitx |= val[k] == mx; hitn |= val[k] == mn; }
    sx_assert(okx & okn, "shared value bounds every owner's value"); sx_assert(hitx & hitn, "shared value is one of the owners' values");
    for (int j = 0; j < used; ++j) if (tl[j]) {
      sx_assert((&v == &**t[j]) == (of[i] == of[j]), "pointers share a vertex iff merged");
      sx_assert(Vertex::are_neighbors(v, **t[j]) == adj[of[i]][of[j]], "edges survive merging, without self-loops");
    }
    int nn = 0; for (const Vertex& w : v.get_neighbors()) { (void) w; ++nn; } int want = 0; for (int k = 0; k < n; ++k) want += adj[of[i]][k]; sx_assert(nn == want, "neighbour count");
    for (int k = 0; k < n; ++k) if (ntof[k] == of[i]) sx_assert(&**nt[k] == &v, "non-transferable pointer still points to its vertex");
  }
  sx_reach("end");
}
SX_ENTRY vertex_groups() { vert(STEPS - 2, 2, true); }
SX_ENTRY vertex2() { vert(STEPS - 1, 2); }
SX_ENTRY vertex3() { vert(STEPS - 1, 3); }
