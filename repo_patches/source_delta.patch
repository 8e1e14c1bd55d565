From 8f0358441dea13c2c2ee5de3d95c08b50c5af9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:06 +0000
Subject: [PATCH 01/14] fix: Tree::flood_fill on a non-leaf element fills only
 the region of its first leaf descendent

---
 src/Tree.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Tree.cpp b/src/Tree.cpp
index 3d3a5b4..75dc987 100644
--- a/src/Tree.cpp
+++ b/src/Tree.cpp
@@ -158,7 +158,10 @@ void Tree::set_status(int new_status)
 void Tree::flood_fill(int new_status)
 {
   HEXED_ASSERT(new_status != unprocessed, "`flood_fill` may not be used to set status to `unprocessed`");
-  if (!is_leaf()) children_storage[0]->flood_fill(new_status); // find a leaf element to start
+  if (!is_leaf()) { // find a leaf element to start
+    children_storage[0]->flood_fill(new_status);
+    return;
+  }
   std::queue<Tree*> to_process;
   to_process.push(this);
   while (!to_process.empty()) {
-- 
2.43.0


From f6e5341b16407fe9242530f337452fdf80b2bdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 02/14] fix: self-assignment of Vertex::Non_transferable_ptr no
 longer nullifies it

---
 src/Vertex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Vertex.cpp b/src/Vertex.cpp
index 3636ab1..53bb981 100644
--- a/src/Vertex.cpp
+++ b/src/Vertex.cpp
@@ -154,8 +154,9 @@ Vertex::Non_transferable_ptr::~Non_transferable_ptr()
 
 Vertex::Non_transferable_ptr& Vertex::Non_transferable_ptr::operator=(const Vertex::Non_transferable_ptr& other)
 {
+  Vertex* target = other.ptr; // save this first, because `other` could be `*this`
   nullify();
-  ptr = other.ptr;
+  ptr = target;
   if (ptr) ptr->nont_ptrs.insert(this);
   return *this;
 }
-- 
2.43.0


From 69b1c77a936beae266310664cc5c3488714962e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 03/14] fix: copying a Vertex::Transferable_ptr initializes its
 shareable_value

---
 src/Vertex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Vertex.cpp b/src/Vertex.cpp
index 53bb981..c8f009a 100644
--- a/src/Vertex.cpp
+++ b/src/Vertex.cpp
@@ -97,7 +97,7 @@ Vertex::Transferable_ptr::Transferable_ptr(Mat<3> pos, bool mbl)
 }
 
 Vertex::Transferable_ptr::Transferable_ptr(const Vertex::Transferable_ptr& other)
-: ptr{other.ptr}, mobile{other.mobile}
+: ptr{other.ptr}, shareable_value{other.shareable_value}, mobile{other.mobile}
 {
   ptr->trbl_ptrs.insert(this);
 }
-- 
2.43.0


From 7b0f5e6a7d86ab09034a370a1a5a32557f6ebc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:13 +0000
Subject: [PATCH 04/14] fix: Copy::apply_advection copies all of the advected
 scalars

---
 src/Boundary_condition.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Boundary_condition.cpp b/src/Boundary_condition.cpp
index e941a43..1d76554 100644
--- a/src/Boundary_condition.cpp
+++ b/src/Boundary_condition.cpp
@@ -459,7 +459,13 @@ void Copy::apply_flux(Boundary_face& bf)
 
 void Copy::apply_advection(Boundary_face& bf)
 {
-  copy_state(bf);
+  // copies the advection velocity and all of the advected scalars, of which there can be more than there are state variables
+  auto params = bf.storage_params();
+  const int nq = params.n_qpoint()/params.row_size;
+  double* in_f = bf.inside_face(false);
+  double* gh_f = bf.ghost_face(false);
+  const int n_copy = (params.n_dim + params.n_advection(params.row_size))*nq;
+  for (int i_dof = 0; i_dof < n_copy; ++i_dof) gh_f[i_dof] = in_f[i_dof];
 }
 
 void Outflow::apply_state(Boundary_face& bf)
-- 
2.43.0


From cd05551d43a73f54f8f8284d9147a3289bea27d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 05/14] fix: HIL numeric operator with a missing operand throws
 instead of dereferencing an empty optional

---
 src/Interpreter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index da03e60..c53922c 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -171,6 +171,7 @@ template<double (*dop)(double, double), int (*iop)(int, int)>
 Interpreter::_Dynamic_value Interpreter::_arithmetic_op(Interpreter::_Dynamic_value o0, Interpreter::_Dynamic_value o1)
 {
   HEXED_ASSERT(!o0.s && !o1.s, "numeric binary operator does not accept strings", Hil_exception);
+  HEXED_ASSERT((o0.i || o0.d) && (o1.i || o1.d), "numeric binary operator is missing an operand", Hil_exception);
   Interpreter::_Dynamic_value v;
   if (o0.i && o1.i) v.i = iop(*o0.i, *o1.i);
   else {
@@ -185,6 +186,7 @@ template<bool (*dop)(double, double), bool (*iop)(int, int)>
 Interpreter::_Dynamic_value Interpreter::_comparison_op(Interpreter::_Dynamic_value o0, Interpreter::_Dynamic_value o1)
 {
   HEXED_ASSERT(!o0.s && !o1.s, "numeric binary operator does not accept strings", Hil_exception);
+  HEXED_ASSERT((o0.i || o0.d) && (o1.i || o1.d), "numeric binary operator is missing an operand", Hil_exception);
   Interpreter::_Dynamic_value v;
   if (o0.i && o1.i) v.i = iop(*o0.i, *o1.i);
   else {
-- 
2.43.0


From 9deed6d9bf950b3ea262d1b2b3239100a6a5a98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 06/14] fix: undefined integer arithmetic in HIL throws instead
 of crashing the process

---
 src/Interpreter.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index c53922c..13b32f8 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -157,13 +157,25 @@ Interpreter::_Dynamic_value Interpreter::_eval(int precedence)
   return val;
 }
 
-template<> int Interpreter::_pow<int>(int op0, int op1) {return math::pow(op0, op1);}
+template<> int Interpreter::_pow<int>(int op0, int op1)
+{
+  HEXED_ASSERT(op0 || op1 >= 0, "cannot raise 0 to a negative integer power", Hil_exception);
+  return math::pow(op0, op1);
+}
+
+template<> int Interpreter::_div<int>(int op0, int op1)
+{
+  HEXED_ASSERT(op1, "integer division by 0", Hil_exception);
+  HEXED_ASSERT(op1 != -1 || op0 != std::numeric_limits<int>::min(), "overflow in integer division", Hil_exception);
+  return op0/op1;
+}
 
 Interpreter::_Dynamic_value Interpreter::_mod(Interpreter::_Dynamic_value o0, Interpreter::_Dynamic_value o1)
 {
   HEXED_ASSERT(o0.i && o1.i, "binary operator `%` only accepts integers", Hil_exception);
   _Dynamic_value v;
-  v.i = *o0.i%*o1.i;
+  HEXED_ASSERT(*o1.i, "integer modulus by 0", Hil_exception);
+  v.i = *o1.i == -1 ? 0 : *o0.i%*o1.i; // special case prevents overflow
   return v;
 }
 
-- 
2.43.0


From e62e02b92a4237995b1e8c4747d7ff250cab7ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 07/14] fix: HIL string index out of bounds throws instead of
 reading outside the string

---
 src/Interpreter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index 13b32f8..9a264fe 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -315,6 +315,7 @@ Interpreter::Interpreter(std::vector<std::string> preload) :
     {"^" , {1, _arithmetic_op<_pow<double>, _pow<int>>}}, // note: 0 is for unary ops
     {"#" , {1, [this](_Dynamic_value str, _Dynamic_value i) {
       HEXED_ASSERT(str.s && i.i, "firt operand of binary `#` must be `string` and second must be `int`", Hil_exception);
+      HEXED_ASSERT(*i.i >= 0 && *i.i <= int(str.s->size()), "string index out of bounds", Hil_exception); // indexing the terminating null character is allowed
       return _Dynamic_value(std::string(1, (*str.s)[*i.i]));
     }}},
     {"%" , {2, _mod}},
-- 
2.43.0


From 0ab626ada5bc36de43f9c04e6c051aa86e401074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 08/14] fix: HIL `abs` of a string is an exception that HIL can
 handle

---
 src/Interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index 9a264fe..ca7efe0 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -285,7 +285,7 @@ Interpreter::Interpreter(std::vector<std::string> preload) :
     {"abs", [](_Dynamic_value val) {
       if      (val.i) *val.i = std::abs(*val.i);
       else if (val.d) *val.d = std::abs(*val.d);
-      else HEXED_ASSERT(false, "unary operator `abs` requires numeric argument")
+      else HEXED_ASSERT(false, "unary operator `abs` requires numeric argument", Hil_exception)
       return val;
     }},
     {"read", [this](_Dynamic_value val) {
-- 
2.43.0


From 0013e781db873b6ead8765a60db17ac9f29570ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 09/14] fix: Namespace::exists_recursive finds variables that
 exist in any ancestor namespace

---
 include/Namespace.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Namespace.hpp b/include/Namespace.hpp
index e35b80b..1b5ee3f 100644
--- a/include/Namespace.hpp
+++ b/include/Namespace.hpp
@@ -85,8 +85,8 @@ inline bool Namespace::exists_recursive(std::string name)
 {
   if (exists(name)) return true;
   if (!supers.empty()) {
-    auto predicate = [name](std::shared_ptr<Namespace>& space) {return space->exists(name);};
-    return std::all_of(supers.begin(), supers.end(), predicate);
+    auto predicate = [name](std::shared_ptr<Namespace>& space) {return space->exists_recursive(name);};
+    return std::any_of(supers.begin(), supers.end(), predicate);
   }
   return false;
 }
-- 
2.43.0


From 8574d435dec75b443be0904b200f8a9d23e158f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 10/14] fix: heights of the layers in a Layer_sequence add up
 to exactly 1

---
 src/Layer_sequence.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Layer_sequence.cpp b/src/Layer_sequence.cpp
index 1121d06..23f3204 100644
--- a/src/Layer_sequence.cpp
+++ b/src/Layer_sequence.cpp
@@ -18,7 +18,7 @@ int Layer_sequence::n_layers()
 double Layer_sequence::spacing(int i_layer)
 {
   double first_growth = std::pow(2., nw - n_layers());
-  return (i_layer < nw) ? ws : std::pow(2., i_layer - n_layers())*(1 - ws*nw + first_growth);
+  return (i_layer < nw) ? ws : std::pow(2., i_layer - n_layers())*(1 - ws*nw)/(1 - first_growth);
 }
 
 double Layer_sequence::cumulative_height(int i_layer)
-- 
2.43.0


From 51eb084a40a51b973ae5aae1bc4371093fcc16cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 11/14] fix: Simplex_geom finds intersections of geometry
 larger than 1 (second argument of Ball is the radius squared)

---
 include/Simplex_geom.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Simplex_geom.hpp b/include/Simplex_geom.hpp
index 7d9d4ea..26914c0 100644
--- a/include/Simplex_geom.hpp
+++ b/include/Simplex_geom.hpp
@@ -81,7 +81,7 @@ class Simplex_geom : public Surface_geom
 
   void recursive_intersections(std::vector<double>& inters, Tree& tree, Mat<n_dim> point0, Mat<n_dim> point1)
   {
-    if (!math::intersects(math::Ball<n_dim>(tree.center(), tree.nominal_size()*n_dim/4.), point0, point1)) return;
+    if (!math::intersects(math::Ball<n_dim>(tree.center(), math::pow(tree.nominal_size(), 2)*n_dim/4.), point0, point1)) return;
     Mat<n_dim> diff = point1 - point0;
     for (int i_simplex : tree.misc_data) {
       auto sim = _simplices[i_simplex];
-- 
2.43.0


From 512e466716e134e90ddb87bba897ab9675d6c8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 12/14] fix: converting an empty Nearest_point preserves its
 maximum distance

---
 include/Nearest_point.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/Nearest_point.hpp b/include/Nearest_point.hpp
index a411f4f..cd0584f 100644
--- a/include/Nearest_point.hpp
+++ b/include/Nearest_point.hpp
@@ -34,7 +34,10 @@ class Nearest_point
   //! \brief simple copy constructor that just converts the matrices
   template <int m_dim> Nearest_point(const Nearest_point<m_dim>& other)
   {
-    if (other.empty()) *this = Nearest_point(other.reference());
+    if (other.empty()) {
+      *this = Nearest_point(other.reference());
+      dist_sq = other.dist_squared(); // preserve the maximum distance
+    }
     else *this = Nearest_point(other.reference(), other.point());
   }
   Mat<n_dim> reference() const {return r;} //!< reference point that you want to find the nearest point to
-- 
2.43.0


From ee27362b1285c2662a83eaa5a21f841b72d8ef5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:04 +0000
Subject: [PATCH 13/14] fix: hanging vertex matching in 1D recursed infinitely

---
 src/Hanging_vertex_matcher.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Hanging_vertex_matcher.cpp b/src/Hanging_vertex_matcher.cpp
index 8ad9a44..40602fe 100644
--- a/src/Hanging_vertex_matcher.cpp
+++ b/src/Hanging_vertex_matcher.cpp
@@ -12,6 +12,7 @@ Hanging_vertex_matcher::Hanging_vertex_matcher(std::vector<Element*> fine_elemen
 
 void Hanging_vertex_matcher::match(std::function<double&(Element&, int i_vertex)> access_func)
 {
+  if (n_dim == 1) return; // faces are single vertices, which can't be hanging
   // extract the indices and values of the vertices on the desired face
   int inds [4]; // for `n_dim <= 3` the required size will be <= 4
   Eigen::VectorXd values (n_vert);
-- 
2.43.0


From 48513311942cde96fc6691c1509f690fe14bd857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:04 +0000
Subject: [PATCH 14/14] fix: unrefinement locks were ignored unless the locked
 element came before its siblings

---
 src/Accessible_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 1e52e0d..099d512 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -1181,7 +1181,7 @@ bool Accessible_mesh::update(std::function<bool(Element&)> refine_criterion, std
             for (Tree* child : parent->children()) {
               if (!child->is_leaf() && has_existent_children(child)) unref = false;
               else if (child->elem) if (child->elem->record != 2) {
-                unref = unref && child->elem->record == -1;
+                unref = unref && child->elem->record == -1 && !child->elem->unrefinement_locked;
                 is_def = is_def || child->elem->get_is_deformed();
               }
             }
-- 
2.43.0

