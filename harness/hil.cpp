// Hexed Interface Language: expressions, assignment, strings, macros, errors
#ifndef DEEP
#define DEEP 0
#endif
#include "sx.hpp"
#include <Interpreter.hpp>
#include <Printer.hpp>
#include <memory>
#include <string>
#include <vector>
#include <cmath>
using namespace hexed;
static int pick(const char* n, int lo, int hi) { return sx_concrete(sx_int(n, lo, hi)); }
struct Mute : Printer { std::string text; void print(std::string s) override { text += s; } };
struct Hil
{
  Interpreter in; Hil() : in(std::vector<std::string>{}) { in.printer = std::make_shared<Mute>(); }
  bool run(const std::string& c) { try { in.exec(c); return true; } catch (const std::exception&) { return false; } }
  std::optional<int> i(const char* n) { return in.variables->lookup<int>(n); }
  std::optional<double> d(const char* n) { return in.variables->lookup<double>(n); }
  std::optional<std::string> s(const char* n) { return in.variables->lookup<std::string>(n); }
};
// a number and the documented meaning of each operator
struct Num { bool real = 0; int i = 0; double d = 0; bool err = 0; double val() const { return real ? d : double(i); } };
static const char* const ops[] {"^", "%", "/", "*", "-", "+", "==", "!=", ">=", "<=", ">", "<", "&", "|"};
static const int prec[] {1, 2, 2, 2, 3, 3, 4, 4, 4, 4, 4, 4, 5, 5};
static Num num(int i) { return {0, i, 0, 0}; }
static Num apply(int op, Num a, Num b)
{
  Num r; if (a.err || b.err) { r.err = true; return r; }
  r.real = (a.real || b.real) && op < 6;
  if (op == 1) { if (a.real || b.real || b.i == 0) r.err = true; else r.i = a.i%b.i; return r; }
  if (a.real || b.real) {
    double x = a.val(), y = b.val();
    switch (op) { case 0: r.d = std::pow(x, y); break; case 2: r.d = x/y; break; case 3: r.d = x*y; break; case 4: r.d = x - y; break; case 5: r.d = x + y; break;
      case 6: r.i = x == y; break; case 7: r.i = x != y; break; case 8: r.i = x >= y; break; case 9: r.i = x <= y; break; case 10: r.i = x > y; break; case 11: r.i = x < y; break; case 12: r.i = (x != 0) & (y != 0); break; default: r.i = (x != 0) | (y != 0); }
    return r;
  }
  int x = a.i, y = b.i;
  switch (op) {
    case 0: if (x == 0 && y < 0) r.err = true; else if (y >= 0) { r.i = 1; for (int k = 0; k < y; ++k) r.i *= x; } else r.i = x == 1 ? 1 : x == -1 ? ((-y)%2 ? -1 : 1) : 0; break;
    case 2: if (y == 0) r.err = true; else r.i = x/y; break; case 3: r.i = x*y; break; case 4: r.i = x - y; break; case 5: r.i = x + y; break;
    case 6: r.i = x == y; break; case 7: r.i = x != y; break; case 8: r.i = x >= y; break; case 9: r.i = x <= y; break; case 10: r.i = x > y; break; case 11: r.i = x < y; break; case 12: r.i = (x != 0) & (y != 0); break; default: r.i = (x != 0) | (y != 0);
  }
  return r;
}
static void expect(Hil& h, bool ok, Num w, const char* m)
{
  sx_assert(ok == !w.err, "an expression fails exactly when one of its operations is undefined"); if (!ok || w.err) return;
  auto i = h.i("x"); auto d = h.d("x"); sx_assert(i.has_value() == !w.real, "integer operands give an integer, others a float"); sx_assert(!h.s("x"), "a number is not a string");
  if (!d || (!w.real && !i)) return;
  if (w.real) sx_near(*d, w.d, 1e-12, m); else sx_assert(*i == w.i, m);
}
static Num operand(Hil& h, const char* n, int lo, int hi, bool real, double rlo, double rhi)
{
  Num r; r.real = real; if (real) { r.d = sx_real(n, rlo, rhi); h.in.variables->assign<double>(n, r.d); } else { r.i = sx_int(n, lo, hi); h.in.variables->assign<int>(n, r.i); } return r;
}
SX_ENTRY binary()
{
  Hil h; int op = pick("op", 0, 13), types = pick("types", 0, 3); bool pw = op == 0;
  Num a = operand(h, "a", pw ? -3 : -9, pw ? 3 : 9, types & 1, pw ? .5 : -4, 4), b = operand(h, "b", pw ? -3 : -9, pw ? 4 : 9, types & 2, op == 2 || pw ? .5 : -4, 4);
  if (op == 2 && types == 1) sx_assume(b.i != 0);
  Num w = apply(op, a, b); bool ok = h.run(std::string("x = a") + (types == 2 ? " " : "") + ops[op] + (types & 1 ? " " : "") + "b");
  expect(h, ok, w, "binary operator"); sx_reach("end");
}
static void pair_of_ops(int lo1, int hi1)
{
  Hil h; int o1 = pick("op1", lo1, hi1), o2 = pick("op2", 0, 13), k = !o1 || !o2 ? 2 : 3; const char* nm[3] {"a", "b", "c"}; Num v[3]; for (int i = 0; i < 3; ++i) v[i] = operand(h, nm[i], i == 2 && o1 ? 0 : -k, k, false, 0, 0);
  bool left = prec[o1] <= prec[o2]; Num w = left ? apply(o2, apply(o1, v[0], v[1]), v[2]) : apply(o1, v[0], apply(o2, v[1], v[2]));
  bool ok = h.run(std::string("x = a") + ops[o1] + "b " + ops[o2] + " c; done = 1"); expect(h, ok, w, "operators of lower level first, left to right within a level"); if (ok) sx_assert(h.i("done") == 1, "the rest of the program is executed"); sx_reach("end");
}
SX_ENTRY pairs_a() { pair_of_ops(0, 0); }
SX_ENTRY pairs_b() { pair_of_ops(1, 5); }
SX_ENTRY pairs_c() { pair_of_ops(6, 13); }
SX_ENTRY unary()
{
  Hil h; int form = pick("form", 0, 6), op = pick("op", 1, 13), op2 = form == 4 || form == 5 ? pick("op2", 2, 6) : 2; Num a = operand(h, "a", -2, 2, false, 0, 0), b = operand(h, "b", -2, 3, false, 0, 0), c = operand(h, "c", -2, 2, false, 0, 0); std::string o = ops[op], p = ops[op2]; Num w; std::string e;
  Num na = num(-a.i), nb = num(-b.i), ia = num(!a.i), ib = num(!b.i), ab = num(a.i < 0 ? -a.i : a.i);
  switch (form) {
    case 0: e = "-a" + o + "b"; w = apply(op, na, b); break; case 1: e = "a" + o + "-b"; w = apply(op, a, nb); break; case 2: e = "!a" + o + "b"; w = apply(op, ia, b); break; case 3: e = "a" + o + "!b"; w = apply(op, a, ib); break;
    case 4: e = "a" + o + "(b" + p + "c)"; w = apply(op, a, apply(op2, b, c)); break; case 5: e = "(a" + o + " b )" + p + " c"; w = apply(op2, apply(op, a, b), c); break; default: e = "abs a" + o + "- -b"; w = apply(op, ab, b);
  }
  bool ok = h.run("x = " + e); expect(h, ok, w, "unary operators bind first and parentheses override"); sx_reach("end");
}
// variables
SX_ENTRY assignment()
{
  Hil h; int t0 = pick("was", 0, 3), t1 = pick("is", 0, 2); int i0 = sx_int("i0", -5, 5), i1 = sx_int("i1", -5, 5); double d0 = sx_real("d0", -5, 5), d1 = sx_real("d1", -5, 5); auto& v = *h.in.variables;
  if (t0 == 1) v.assign<int>("x", i0); if (t0 == 2) v.assign<double>("x", d0); if (t0 == 3) v.assign<std::string>("x", "old");
  v.assign<int>("i", i1); v.assign<double>("d", d1); v.assign<std::string>("s", "new");
  bool ok = h.run(std::string("y = x = ") + (t1 == 0 ? "i" : t1 == 1 ? "d" : "s") + "\nz = 1"); bool fits = !t0 || t0 == t1 + 1 || (t0 == 2 && t1 == 0);
  sx_assert(ok == fits, "a variable keeps its type, except that integers convert to floats");
  auto xi = h.i("x"); auto xd = h.d("x"); auto xs = h.s("x"); int t = fits ? (t0 ? t0 : t1 + 1) : t0;
  sx_assert(xi.has_value() == (t == 1) && xs.has_value() == (t == 3) && xd.has_value() == (t != 3), "type of the variable");
  if (t == 1 && xi) sx_assert(*xi == (fits ? i1 : i0), "integer value"); if (t == 2 && xd) sx_near(*xd, fits ? (t1 ? d1 : double(i1)) : d0, 0, "float value"); if (t == 3 && xs) sx_assert(*xs == (fits ? "new" : "old"), "string value");
  if (fits) { sx_assert(h.i("z") == 1, "the next statement is executed"); if (t1 == 0) sx_assert(h.i("y") == i1, "assignment evaluates to the assigned value"); if (t1 == 1) sx_near(h.d("y").value_or(1e9), d1, 0, "assignment evaluates to the assigned value"); if (t1 == 2) sx_assert(h.s("y") == std::string("new"), "assignment evaluates to the assigned value"); }
  sx_reach("end");
}
// string literals: every escaped text is reproduced, and balanced braces are literal
SX_ENTRY strings()
{
  Hil h; int n = pick("length", 0, 3); std::string t, e; for (int i = 0; i < n; ++i) { char c = sx_byte("char"); sx_assume(c != 0); t += c; if (c == '{' || c == '}' || c == '\\') e += '\\'; e += c; }
  bool wrap = pick("braces", 0, 1); if (wrap) { t = "{" + t + "}"; e = "{" + e + "}"; }
  sx_assert(h.run("x = {" + e + "}; n = #x; y = x + {ab}; e = x == {" + e + "}"), "a string literal is accepted");
  sx_assert(h.s("x") == t, "string literal"); sx_assert(h.i("n") == int(t.size()), "size of a string"); sx_assert(h.s("y") == t + "ab", "concatenation"); sx_assert(h.i("e") == 1, "equality of strings");
  sx_reach("end");
}
SX_ENTRY strings_ops()
{
  Hil h; int form = pick("form", 0, 3), n = pick("length", 0, form == 0 ? 3 : 1), k = form == 0 ? sx_int("index", -3, 6) : 0, r = DEEP ? 120 : 12, m = form ? sx_int("number", -r, r) : 0; std::string t; for (int i = 0; i < n; ++i) { char c = sx_byte("char"); sx_assume(c >= 'a' && c <= 'z'); t += c; }
  h.in.variables->assign<std::string>("s", t); h.in.variables->assign<int>("k", k); h.in.variables->assign<int>("m", m);
  if (form == 0) { bool ok = h.run("x = s#k"); bool in = k >= 0 && k < n; if (in) { sx_assert(ok, "character of a string"); sx_assert(h.s("x") == t.substr(sx_concrete(k), 1), "character of a string"); } else if (k != n) sx_assert(!ok, "an index outside of the string is rejected"); }
  else if (form < 3) { sx_assert(h.run(form == 1 ? "x = s + m" : "x = m + s"), "numbers convert to strings"); std::string d; int a = m < 0 ? -m : m; do { d = char('0' + a%10) + d; a /= 10; } while (a); if (m < 0) d = "-" + d; sx_assert(h.s("x") == (form == 1 ? t + d : d + t), "decimal representation"); }
  else { int op = pick("op", 0, 13); if (op == 5) op = 4; sx_assert(!h.run(std::string("x = s ") + ops[op] + " m"), "arithmetic on strings is rejected"); sx_assert(h.run("x = 5 + 2"), "the interpreter is usable afterwards"); sx_assert(h.i("x") == 7, "the interpreter is usable afterwards"); }
  sx_reach("end");
}
// control flow by substitution
SX_ENTRY macros()
{
  Hil h; int k = sx_int("n", -1, 4), p = sx_int("p", -3, 3); h.in.variables->assign<int>("n", k); h.in.variables->assign<int>("p", p);
  bool ok = h.run("case0 = {r = 10}\ncase1 = {r = 20}\n$$({case} + (p != 0))\ni = 0; s = 0\niterate = {\n case0 = {}\n case1 = {\n s = s + i\n i = i + 1\n $iterate}\n $$({case} + (i < n))}\n$iterate\nz = ${1 + ${p}}*2");
  sx_assert(ok, "macros run"); sx_assert(h.i("r") == (p ? 20 : 10), "conditional idiom"); int m = k > 0 ? k : 0; sx_assert(h.i("i") == m && h.i("s") == m*(m - 1)/2, "iteration idiom"); sx_assert(h.i("z") == 1 + 2*p, "substituted text is part of the expression");
  sx_reach("end");
}
SX_ENTRY errors()
{
  Hil h; int kind = pick("kind", 0, 9), p = sx_int("p", -3, 3); bool handled = pick("handled", 0, 1); h.in.variables->assign<int>("p", p);
  static const char* const bad[] {"x = nothing + p", "x = p/0", "x = p%0", "x = 0^-1", "x = (p +)", "x = (p*) + 1", "x = {abc}#7", "x = !1.5", "x = -{a}", "$p"};
  std::string c = std::string(bad[kind]) + "; y = 1"; if (handled) c = "except = {e = exception; q = p};" + c;
  bool ok = h.run(c); sx_assert(ok == handled, "an error is raised, and caught by a handler");
  if (handled) { sx_assert(h.i("q") == p, "the handler runs"); sx_assert(h.s("e").has_value() && !h.s("e")->empty(), "the handler sees the message"); sx_assert(h.i("y") == 1, "the program goes on after the failed statement"); sx_assert(h.s("except") == std::string() && h.s("exception") == std::string(), "the handler is used once"); sx_assert(!h.run("x = nothing"), "later errors are not caught"); }
  else sx_assert(!h.i("y"), "the program stops at the error");
  sx_assert(h.run("x = p + 1"), "the interpreter is usable afterwards"); sx_assert(h.i("x") == p + 1, "the interpreter is usable afterwards");
  sx_reach("end");
}
// arbitrary text neither corrupts memory nor the interpreter
static void arbitrary(int n)
{
  Hil h; h.in.variables->assign<int>("a", 3); std::string t; for (int i = 0; i < n; ++i) t += char(sx_byte("char"));
  h.run(t); h.in.variables->assign<std::string>("except", ""); sx_assert(h.run("\nok = 1 + 1"), "the interpreter is usable after any input"); sx_assert(h.i("ok") == 2, "the interpreter is usable after any input"); sx_reach("end");
}
SX_ENTRY arbitrary1() { arbitrary(1); }
SX_ENTRY arbitrary2() { arbitrary(2); }
#if DEEP
SX_ENTRY arbitrary3() { arbitrary(3); }
#endif
SX_ENTRY sub()
{
  Hil h; int a = sx_int("a", -5, 5), b = sx_int("b", -5, 5); h.in.variables->assign<int>("a", a); Interpreter s = h.in.make_sub();
  bool shadow = pick("shadow", 0, 1); if (shadow) s.variables->assign<int>("a", b);
  s.exec("c = a + 1"); sx_assert(s.variables->lookup<int>("c") == (shadow ? b : a) + 1, "a sub-interpreter sees the variables of its parent unless it has its own"); sx_assert(!h.i("c") && h.i("a") == a, "and does not change them");
  sx_reach("end");
}
// numeric literals: integer, fraction, exponent in either case with either sign; what follows is not part of it
SX_ENTRY literals()
{
  Hil h; static const char* const man[] {"2", "2.", "2.5", ".5", "0"}; static const double mv[] {2, 2, 2.5, .5, 0}; static const char* const ex[] {"0", "2", "01"}; static const int ev[] {0, 2, 1};
  int m = pick("mantissa", 0, 4), e = pick("exponent", 0, 2), sg = pick("sign", 0, 2), u = pick("case", 0, 1), has = pick("has_exponent", 0, 1); if (!has && (e || sg || u)) return sx_reach("end");
  Num lit; lit.real = has || (m > 0 && m < 4); double v = mv[m]; if (has) for (int k = 0; k < ev[e]; ++k) v = sg == 2 ? v/10 : v*10; lit.d = v; lit.i = int(mv[m]);
  std::string t = man[m]; if (has) { t += u ? "E" : "e"; t += sg == 0 ? "" : sg == 1 ? "+" : "-"; t += ex[e]; }
  bool real = pick("real", 0, 1); Num b = operand(h, "b", -1, 2, real, -4, 4); int follow = pick("follow", 0, 3); Num w = lit; std::string p = "x = ";
  if (follow == 0) p += t; else if (follow == 1) { p += t + "-b"; w = apply(4, lit, b); } else if (follow == 2) { p += t + "+b"; w = apply(5, lit, b); } else { p += "b-" + t; w = apply(4, b, lit); }
  bool ok = h.run(p); expect(h, ok, w, "numeric literals have their usual value"); sx_reach("end");
}
// division at the ends of the range of integers: the exact result, or an error if there is none
SX_ENTRY extremes()
{
  Hil h; int op = pick("op", 1, 2), a = pick("most", 0, 1) ? 2147483647 : -2147483647 - 1, b = pick("by", -2, 2); if (pick("extreme_divisor", 0, 1)) b = b < 0 ? -2147483647 - 1 : 2147483647; h.in.variables->assign<int>("a", a); h.in.variables->assign<int>("b", b);
  bool ok = h.run(std::string("x = a") + ops[op] + "b"); long r = b == 0 ? 0 : op == 1 ? long(a)%b : long(a)/b; bool fits = b != 0 && r <= 2147483647L;
  sx_assert(ok == fits, "integer division fails exactly when there is no result"); if (ok && fits) sx_assert(h.i("x") == int(r), "quotient or remainder"); sx_assert(h.run("y = 1"), "the interpreter is usable afterwards"); sx_reach("end");
}
