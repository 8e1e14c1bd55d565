// models of library functions and the harness interface (included by interp.hpp)
typedef std::function<bool(CallInfo*, std::vector<Val>&, Val*)> BF;
static std::vector<std::pair<std::string, BF>>& builtins();
static std::unordered_map<std::string, int>& builtin_ids()
{
  static std::unordered_map<std::string, int> m;
  if (m.empty()) { auto& b = builtins(); for (size_t i = 0; i < b.size(); ++i) m[b[i].first] = i; }
  return m;
}
static bool native_ignores_values(const std::string& n)
{
  // output formatting: the printed digits are not the subject of any property
  return n.find("_M_insert") != std::string::npos || n.find("ostream") != std::string::npos || n.find("_ZNSolsEd") == 0 || n == "snprintf" || n == "__snprintf_chk";
}
static u64 C(Val v, unsigned w = 64) { return concretize(v, w); }
static void free_heap(u64 a, const char* what)
{
  if (!a) return;
  auto it = heap_objs->find(a);
  if (it == heap_objs->end()) {
    if (in_arena(a)) mem_error(std::string("invalid or double ") + what, a, 0);
    free((void*) a); return;
  }
  set_invalid(a, it->second); shadow.clear(a, it->second); heap_objs->erase(it);
}
static int cmp_bytes(u64 a, u64 b, u64 n, bool str)
{
  for (u64 i = 0; i < n; ++i) {
    if (!valid(a + i, 1)) mem_error("comparison reads invalid memory", a + i, 1);
    if (!valid(b + i, 1)) mem_error("comparison reads invalid memory", b + i, 1);
    Val x = load(a + i, 8, 0), y = load(b + i, 8, 0);
    Val e = icmp(CmpInst::ICMP_EQ, 8, x, y);
    if (!truth(e)) return truth(icmp(CmpInst::ICMP_ULT, 8, x, y)) ? -1 : 1;
    if (str && truth(icmp(CmpInst::ICMP_EQ, 8, x, {0, 0}))) return 0;
  }
  return 0;
}
static u64 sym_strlen(u64 a, u64 max = ~0ull)
{
  for (u64 n = 0; n < max; ++n) {
    if (!valid(a + n, 1)) mem_error("string read past the end of memory", a, n);
    Val x = load(a + n, 8, 0);
    if (truth(icmp(CmpInst::ICMP_EQ, 8, x, {0, 0}))) return n;
  }
  return max;
}
static void path_done()
{
  // emit a concrete instance of this path for replay against the native build
  if (!want_traces || path_id > trace_limit) return;
  std::map<unsigned, z3::expr> m; 
  bool ok = full_model({}, m);
  if (!ok) return;
  std::string o;
  logline("{\"k\":\"trace\",\"path\":" + std::to_string(path_id) + ",\"uncertain\":" + (uncertain ? "true" : "false") + ",\"inputs\":" + inputs_json(m) + "}");
}
static bool throw_native(const std::function<void()>& fn)
{
  try { fn(); } catch (...) {
    std::exception_ptr* p = new std::exception_ptr(std::current_exception());
    cur_exc.obj = *(u64*) p; cur_exc.ti = const_cast<std::type_info*>(p->__cxa_exception_type()); cur_exc.adj = cur_exc.obj;
    unwind(); return false;
  }
  return true;
}
#define B(name) b.push_back({name, [](CallInfo* ci, std::vector<Val>& a, Val* r) -> bool { (void) ci; (void) a; (void) r;
#define E return true; }})

static std::vector<std::pair<std::string, BF>>& builtins()
{
  static std::vector<std::pair<std::string, BF>> b;
  if (b.size()) return b;
  // ---------------- harness interface
  B("sx_real") {
    std::string nm = cstr_check(C(a[0])); double lo = dbl(a[1].b), hi = dbl(a[2].b);
    nm += "#" + std::to_string(INPUTS->size());
    u32 at = R->var(nm, lo, hi); z3::expr e = R->atom_z3(at);
    INPUTS->push_back({nm, 'r', e, lo, hi, at});
    r[0] = mkreal(R->atom_poly(at));
  } E;
  auto mkint_input = [&](const char* fname, char kind, unsigned w) {
    b.push_back({fname, [kind, w](CallInfo*, std::vector<Val>& a, Val* r) -> bool {
      std::string nm = cstr_check(C(a[0])); nm += "#" + std::to_string(INPUTS->size());
      int64_t lo = kind == 'b' ? 0 : sext(a[1].b, 32), hi = kind == 'b' ? 255 : sext(a[2].b, 32);
      z3::expr e = Z->bv_const(nm.c_str(), w);
      unsigned id = Z3_get_ast_id(*Z, e);
      if (kind == 'i') { R->side[id].push_back(e >= Z->bv_val((int64_t) lo, w)); R->side[id].push_back(e <= Z->bv_val((int64_t) hi, w)); }
      INPUTS->push_back({nm, kind, e, (double) lo, (double) hi});
      r[0] = {0, ix(e)};
      if (kind == 'i' && lo == hi) r[0] = {u64(lo) & mask(w), 0};
      return true; }});
  };
  mkint_input("sx_int", 'i', 32);
  mkint_input("sx_byte", 'b', 8);
  B("sx_assume") {
    Val c = a[0];
    Val t = icmp(CmpInst::ICMP_NE, 32, c, {0, 0});
    if (!t.s) { if (!(t.b & 1)) { ++sh->assumed_dead; throw PathEnd{"assume", ""}; } return true; }
    z3::expr e = ie(t, 1);
    Res f = UNK_; if (has_reals(e)) for (auto w : witnesses()) if (w_bool(*w, e) == 1) { f = SAT_; ++sh->witnessed; break; }
    if (f != SAT_) f = feasible(e, rl_branch);
    if (f == UNSAT_) { ++sh->assumed_dead; throw PathEnd{"assume", ""}; }
    if (f == UNK_) uncertain = true;
    add_pc(e);
  } E;
  B("sx_assert") {
    std::string msg = cstr_check(C(a[1]));
    Val t = icmp(CmpInst::ICMP_NE, 32, a[0], {0, 0});
    if (!t.s) { ++sh->asserts; if (t.b & 1) ++sh->proved; else violation("assert", msg, nullptr, false); return true; }
    check_true(ie(t, 1), msg);
  } E;
  B("sx_near") {
    std::string msg = cstr_check(C(a[3])); double tol = dbl(a[2].b);
    if (!a[0].s && !a[1].s) {
      ++sh->asserts; ++sh->near_asserts;
      double d = dbl(a[0].b) - dbl(a[1].b);
      if (std::abs(d) <= tol) ++sh->proved; else { char t[200]; snprintf(t, 200, " (%.17g vs %.17g)", dbl(a[0].b), dbl(a[1].b)); violation("near", msg + t, nullptr, false); }
      return true;
    }
    if (nonfinite(a[0]) || nonfinite(a[1])) { ++sh->asserts; violation("near", msg + " (not finite)", nullptr, false); return true; }
    check_near(R->sub(poly(a[0]), poly(a[1])), tol, msg);
  } E;
  B("sx_reach") { logline("{\"k\":\"reach\",\"tag\":" + jstr(cstr_check(C(a[0]))) + ",\"path\":" + std::to_string(path_id) + "}"); } E;
  B("sx_note") { DECISIONS->push_back(cstr_check(C(a[0]))); } E;
  B("sx_concrete") { r[0] = {concretize(a[0], 32), 0}; } E;
  B("sx_symbolic") { r[0] = {1, 0}; } E;
  B("sx_config") {
    std::string k = cstr_check(C(a[0])); int v = (int) sext(a[1].b, 32);
    if (k == "fork_select") fork_select = v; else if (k == "expand_limit") R->expand_limit = v; else if (k == "fill") fill_byte = v; else if (k == "rl_assert") rl_assert = v; else if (k == "rl_branch") rl_branch = v;
    else throw Unsupported{"sx_config " + k};
  } E;
  B("sx_show") { std::string s = cstr_check(C(a[0])); s += " = "; if (!a[1].s) s += std::to_string(dbl(a[1].b)); else s += R->str(poly(a[1]), 40); logline("{\"k\":\"show\",\"s\":" + jstr(s) + "}"); } E;
  // ---------------- allocation
  auto alloc = [&](const char* nm, int kind) {
    b.push_back({nm, [kind](CallInfo*, std::vector<Val>& a, Val* r) -> bool {
      u64 n = 0, al = 16;
      if (kind == 1) n = C(a[0])*C(a[1]);          // calloc
      else if (kind == 3) { al = C(a[0]); n = C(a[1]); } // aligned_alloc
      else if (kind == 4) { n = C(a[0]); al = C(a[1]); } // aligned new
      else n = C(a[0]);
      u64 p = heap_alloc(n, std::max<u64>(al, 16));
      if (!p && kind == 2) return throw_native([]{ throw std::bad_alloc(); });
      if (kind == 1 && p) memset((void*) p, 0, n);
      r[0] = {p, 0};
      return true; }});
  };
  alloc("malloc", 0); alloc("calloc", 1); alloc("_Znwm", 2); alloc("_Znam", 2); alloc("aligned_alloc", 3); alloc("_ZnwmSt11align_val_t", 4); alloc("_ZnamSt11align_val_t", 4); alloc("_ZnwmRKSt9nothrow_t", 0); alloc("_ZnamRKSt9nothrow_t", 0);
  B("realloc") { u64 p = C(a[0]), n = C(a[1]); u64 q = heap_alloc(n); if (p) { auto it = heap_objs->find(p); u64 old = it == heap_objs->end() ? 0 : it->second; mem_move(q, p, std::min(n, old)); free_heap(p, "realloc"); } r[0] = {q, 0}; } E;
  B("posix_memalign") { u64 p = heap_alloc(C(a[2]), C(a[1])); store(C(a[0]), 64, 0, {p, 0}); r[0] = {0, 0}; } E;
  for (const char* nm : {"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) { B(nm) { free_heap(C(a[0]), "free"); } E; }
  // ---------------- exceptions
  B("__cxa_allocate_exception") { r[0] = {heap_alloc(C(a[0])), 0}; } E;
  B("__cxa_free_exception") { } E;
  B("__cxa_throw") { ++sh->exceptions; cur_exc = {a[0].b, (std::type_info*) a[1].b, a[0].b}; unwind(); return false; } E;
  B("__cxa_begin_catch") { Exc e = in_flight[a[0].b]; caught.push_back(e); r[0] = {e.adj, 0}; } E;
  B("__cxa_get_exception_ptr") { r[0] = {in_flight[a[0].b].adj, 0}; } E;
  B("__cxa_end_catch") { if (caught.size()) caught.pop_back(); } E;
  B("__cxa_rethrow") { if (caught.empty()) throw PathEnd{"terminate", "rethrow without exception"}; cur_exc = caught.back(); cur_exc.adj = cur_exc.obj; unwind(); return false; } E;
  B("_ZSt18uncaught_exceptionv") { r[0] = {0, 0}; } E;
  B("_ZSt19uncaught_exceptionsv") { r[0] = {0, 0}; } E;
  for (const char* nm : {"_ZSt9terminatev", "abort", "__cxa_pure_virtual", "__assert_fail", "_ZSt21__glibcxx_assert_failPKciS0_S0_", "__stack_chk_fail"}) { B(nm) { violation("terminate", "program terminated: " + ci->name, nullptr, false); throw PathEnd{"terminate", ci->name}; } E; }
  for (const char* nm : {"exit", "_exit", "_Exit"}) { B(nm) { throw PathEnd{"exit", std::to_string(a[0].b)}; } E; }
  B("__cxa_atexit") { r[0] = {0, 0}; } E;
  B("atexit") { r[0] = {0, 0}; } E;
  B("__cxa_thread_atexit") { r[0] = {0, 0}; } E;
  B("__cxa_guard_acquire") { u64 p = a[0].b; if (*(u8*) p) r[0] = {0, 0}; else r[0] = {1, 0}; } E;
  B("__cxa_guard_release") { *(u8*) a[0].b = 1; } E;
  B("__cxa_guard_abort") { } E;
  B("_ZNSt8ios_base4InitC1Ev") { } E;
  B("_ZNSt8ios_base4InitD1Ev") { } E;
  // ---------------- OpenMP: one thread
  for (const char* nm : {"omp_init_lock", "omp_destroy_lock", "omp_set_lock", "omp_unset_lock", "omp_set_num_threads"}) { B(nm) { } E; }
  B("omp_get_thread_num") { r[0] = {0, 0}; } E;
  B("omp_get_num_threads") { r[0] = {1, 0}; } E;
  B("omp_get_max_threads") { r[0] = {1, 0}; } E;
  B("omp_get_level") { r[0] = {0, 0}; } E;
  B("omp_in_parallel") { r[0] = {0, 0}; } E;
  B("omp_get_wtime") { static double t = 0; r[0] = {bits(t += 1e-3), 0}; } E;
  B("omp_test_lock") { r[0] = {1, 0}; } E;
  // ---------------- memory and strings
  B("memcpy") { mem_move(C(a[0]), C(a[1]), C(a[2])); r[0] = a[0]; } E;
  B("memmove") { mem_move(C(a[0]), C(a[1]), C(a[2])); r[0] = a[0]; } E;
  B("memset") { u64 p = C(a[0]), n = C(a[2]); if (n) { if (!valid(p, n)) mem_error("memset of invalid memory", p, n); Val v = a[1]; if (v.s) { Val c = mkint(ie(v, 32).extract(7, 0), 8); for (u64 i = 0; i < n; ++i) store(p + i, 8, 0, c); } else { memset((void*) p, v.b, n); shadow.clear(p, n); } } r[0] = a[0]; } E;
  B("memcmp") { r[0] = {u64(u32(cmp_bytes(C(a[0]), C(a[1]), C(a[2]), false))), 0}; } E;
  B("bcmp") { r[0] = {u64(u32(cmp_bytes(C(a[0]), C(a[1]), C(a[2]), false))), 0}; } E;
  B("strcmp") { r[0] = {u64(u32(cmp_bytes(C(a[0]), C(a[1]), ~0ull, true))), 0}; } E;
  B("strncmp") { r[0] = {u64(u32(cmp_bytes(C(a[0]), C(a[1]), C(a[2]), true))), 0}; } E;
  B("strlen") { r[0] = {sym_strlen(C(a[0])), 0}; } E;
  B("memchr") { u64 p = C(a[0]), n = C(a[2]); Val c = a[1].s ? mkint(ie(a[1], 32).extract(7, 0), 8) : Val{a[1].b & 255, 0}; for (u64 i = 0; i < n; ++i) if (truth(icmp(CmpInst::ICMP_EQ, 8, load(p + i, 8, 0), c))) { r[0] = {p + i, 0}; return true; } r[0] = {0, 0}; } E;
  B("strchr") { u64 p = C(a[0]); Val c = a[1].s ? mkint(ie(a[1], 32).extract(7, 0), 8) : Val{a[1].b & 255, 0}; for (u64 i = 0;; ++i) { Val x = load(p + i, 8, 0); if (truth(icmp(CmpInst::ICMP_EQ, 8, x, c))) { r[0] = {p + i, 0}; return true; } if (truth(icmp(CmpInst::ICMP_EQ, 8, x, {0, 0}))) { r[0] = {0, 0}; return true; } } } E;
  // character classification in the C locale, as a symbolic predicate; arguments outside [-1, 255] are undefined behaviour
  struct Cls { const char* nm; std::vector<std::pair<int, int>> rs; };
  static std::vector<Cls> cls {
    {"isalpha", {{'a','z'},{'A','Z'}}}, {"isdigit", {{'0','9'}}}, {"isalnum", {{'a','z'},{'A','Z'},{'0','9'}}}, {"isspace", {{9,13},{32,32}}}, {"isupper", {{'A','Z'}}}, {"islower", {{'a','z'}}}, {"ispunct", {{33,47},{58,64},{91,96},{123,126}}}, {"isprint", {{32,126}}}, {"isxdigit", {{'0','9'},{'a','f'},{'A','F'}}}, {"isblank", {{9,9},{32,32}}}, {"isgraph", {{33,126}}}, {"iscntrl", {{0,31},{127,127}}}};
  for (size_t k = 0; k < cls.size(); ++k) {
    b.push_back({cls[k].nm, [k](CallInfo*, std::vector<Val>& a, Val* r) -> bool {
      // glibc tables cover [-128, 255]; outside it the result is out of bounds
      if (!a[0].s) { int c = (int) sext(a[0].b, 32); bool t = false; for (auto& p : cls[k].rs) t = t || (c >= p.first && c <= p.second); r[0] = {u64(t), 0}; return true; }
      z3::expr e = ie(a[0], 32); z3::expr t = Z->bool_val(false);
      for (auto& p : cls[k].rs) t = t || (e >= Z->bv_val(p.first, 32) && e <= Z->bv_val(p.second, 32));
      r[0] = mkint(z3::ite(t, Z->bv_val(1, 32), Z->bv_val(0, 32)), 32);
      return true; }});
  }
  B("tolower") { if (!a[0].s) { r[0] = {u64(u32(tolower((int) sext(a[0].b, 32)))), 0}; return true; } z3::expr e = ie(a[0], 32); r[0] = mkint(z3::ite(e >= Z->bv_val(65, 32) && e <= Z->bv_val(90, 32), e + Z->bv_val(32, 32), e), 32); } E;
  B("toupper") { if (!a[0].s) { r[0] = {u64(u32(toupper((int) sext(a[0].b, 32)))), 0}; return true; } z3::expr e = ie(a[0], 32); r[0] = mkint(z3::ite(e >= Z->bv_val(97, 32) && e <= Z->bv_val(122, 32), e - Z->bv_val(32, 32), e), 32); } E;
  B("strtod") { conc_string(C(a[0])); char* end; double d = strtod((char*) a[0].b, &end); if (a[1].b) store(a[1].b, 64, 0, {u64(end), 0}); r[0] = {bits(d), 0}; } E;
  for (const char* nm : {"strtol", "__isoc23_strtol", "strtoll", "__isoc23_strtoll", "strtoul", "__isoc23_strtoul"}) { B(nm) { conc_string(C(a[0])); char* end; long d = strtol((char*) a[0].b, &end, (int) a[2].b); if (a[1].b) store(a[1].b, 64, 0, {u64(end), 0}); r[0] = {u64(d), 0}; } E; }
  for (const char* nm : {"atoi"}) { B(nm) { conc_string(C(a[0])); r[0] = {u64(u32(atoi((char*) a[0].b))), 0}; } E; }
  B("atof") { conc_string(C(a[0])); r[0] = {bits(atof((char*) a[0].b)), 0}; } E;
  B("__errno_location") { static int e; static u64 p = 0; if (!p) { p = heap_alloc(16); memset((void*) p, 0, 16); } (void) e; r[0] = {p, 0}; } E;
  // ---------------- output: formatted text is not modelled
  for (const char* nm : {"printf", "puts", "putchar", "fprintf", "fputs", "fputc", "fflush", "vprintf", "perror"}) { B(nm) { r[0] = {0, 0}; } E; }
  B("vsnprintf") {
    u64 va = C(a[3]); u64 dst = C(a[0]), n = C(a[1]); 
    // symbolic reals print as nan
    char buf[4096]; va_list* ap = (va_list*) va;
    va_list cp; va_copy(cp, *ap); int k = vsnprintf(buf, 4096, (char*) C(a[2]), cp); va_end(cp);
    if (dst && n) { u64 m = std::min<u64>(n - 1, std::min(k, 4095)); if (!valid(dst, m + 1)) mem_error("vsnprintf writes invalid memory", dst, m + 1); shadow.clear(dst, m + 1); memcpy((void*) dst, buf, m); *(char*) (dst + m) = 0; }
    r[0] = {u64(u32(k)), 0};
  } E;
  // ---------------- math
  for (const char* nm : {"sqrt", "fabs", "exp", "log", "sin", "cos", "tan", "atan", "asin", "acos", "sinh", "cosh", "tanh", "log10", "log2", "exp2", "cbrt", "floor", "ceil", "trunc", "round", "rint", "erf"}) { B(nm) { r[0] = f1(ci->name.c_str(), a[0]); } E; }
  for (const char* nm : {"pow", "atan2", "fmod", "fmin", "fmax", "hypot", "copysign"}) { B(nm) { r[0] = f2(ci->name, a[0], a[1]); } E; }
  for (const char* nm : {"lround", "llround", "lrint"}) { B(nm) { Val v = f1("round", a[0]); r[0] = {u64(int64_t(dbl(v.b))), 0}; } E; }
  return b;
}
#undef B
#undef E
