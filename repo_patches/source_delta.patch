From 3700ca78e86b354c96ee933f7bd53d6285c5b498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:32 +0000
Subject: [PATCH 01/18] fix: pass arguments of the types named in printf-style
 format strings

---
 src/Accessible_mesh.cpp | 2 +-
 src/Case.cpp            | 8 ++++----
 src/math.cpp            | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 1e52e0d..571517f 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -572,7 +572,7 @@ void Accessible_mesh::extrude(bool collapse, double offset, bool force)
         Vertex& fine_vert = elem.vertex(iv); \
         /* vertex should have exactly one record */ \
         HEXED_ASSERT(fine_vert.record.size() == n_record, \
-                     format_str(1000, "`fine_vert.record.size() == %li != n_record == %li` (position = [%e, %e, %e])", \
+                     format_str(1000, "`fine_vert.record.size() == %li != n_record == %i` (position = [%e, %e, %e])", \
                                 fine_vert.record.size(), n_record, \
                                 fine_vert.pos[0], fine_vert.pos[1], fine_vert.pos[2]).c_str()); \
         sn[1] = fine_vert.record[1]; \
diff --git a/src/Case.cpp b/src/Case.cpp
index a7c4e02..873ad47 100644
--- a/src/Case.cpp
+++ b/src/Case.cpp
@@ -155,8 +155,8 @@ Case::Case(std::string input_script)
     char utc [100];
     std::time_t time = std::chrono::system_clock::to_time_t(std::chrono::system_clock::now());
     std::strftime(utc, 100, "%Y-%m-%d %H:%M:%S", std::gmtime(&time));
-    printer->print(format_str(1000, "Commencing simulation with Hexed version %i.%i.%i (commit %s) at %s UTC (%i Unix Time).\n",
-                              config::version_major, config::version_minor, config::version_patch, config::commit.c_str(), utc, time));
+    printer->print(format_str(1000, "Commencing simulation with Hexed version %i.%i.%i (commit %s) at %s UTC (%li Unix Time).\n",
+                              config::version_major, config::version_minor, config::version_patch, config::commit.c_str(), utc, (long)time));
     // setup actual solver
     auto n_dim = _inter.variables->lookup<int>("n_dim");
     HEXED_ASSERT(n_dim && n_dim.value() > 0 && n_dim.value() <= 3,
@@ -235,7 +235,7 @@ Case::Case(std::string input_script)
         transport_models.emplace_back(Transport_model::sutherland(sub.variables->lookup<double>("ref_value").value(),
                                                                   sub.variables->lookup<double>("ref_temperature").value(),
                                                                   sub.variables->lookup<double>("offset").value()));
-      } else HEXED_ASSERT(false, format_str(200, "invalid transport model specification for %s", name));
+      } else HEXED_ASSERT(false, format_str(200, "invalid transport model specification for %s", name.c_str()));
     }
     _solver_ptr.reset(new Solver(*n_dim, *row_size, root_sz, true, transport_models[0], transport_models[1], _inter.variables, printer));
     _solver().mesh().add_tree(_make_extremal_bcs(), mesh_extremes(all, 0));
@@ -413,7 +413,7 @@ Case::Case(std::string input_script)
         report += format_str(1000, "%*.8e, ", width, vald.value());
         _inter.variables->assign(vars.names[i_var], vald.value());
       } else if ((vals = sub.variables->lookup<std::string>(vars.names[i_var]))) {
-        report += format_str(1000, "%*s, ", width, vals.value());
+        report += format_str(1000, "%*s, ", width, vals.value().c_str());
         _inter.variables->assign(vars.names[i_var], vals.value());
       }
     }
diff --git a/src/math.cpp b/src/math.cpp
index 091dc19..0c6d147 100644
--- a/src/math.cpp
+++ b/src/math.cpp
@@ -24,7 +24,7 @@ Eigen::VectorXd hypercube_matvec(const Eigen::MatrixXd& mat, const Eigen::Vector
     const int n {100};
     char buffer [n];
     auto format = "Incompatible matrix shapes in hypercube_matvec: cannot divide row of %i elements into %i sub-rows.";
-    snprintf(buffer, n, format, vec.size(), mat.cols());
+    snprintf(buffer, n, format, int(vec.size()), int(mat.cols()));
     throw std::runtime_error(buffer);
   }
   #endif
@@ -64,7 +64,7 @@ Eigen::VectorXd dimension_matvec(const Eigen::MatrixXd& mat, const Eigen::Vector
     const int n {100};
     char buffer [n];
     auto format = "Incompatible matrix shapes in dimension_matvec: cannot divide %i elements into %i^%i = %i rows.";
-    snprintf(buffer, n, format, vec.size(), mat.cols(), i_dim + 1, n_rows);
+    snprintf(buffer, n, format, int(vec.size()), int(mat.cols()), i_dim + 1, n_rows);
     throw std::runtime_error(buffer);
   }
   #endif
-- 
2.43.0


From b5c7748ed2bdc222d5d38272ca8b8bae53913e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 02/18] fix: reject a format_double that does not format
 exactly one double

---
 src/Interpreter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index da03e60..4fff5ee 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -4,6 +4,7 @@
 #include <fstream>
 #include <cstdlib>
 #include <chrono>
+#include <regex>
 #include <Interpreter.hpp>
 
 namespace hexed
@@ -212,6 +213,9 @@ Interpreter::_Dynamic_value Interpreter::_general_add(Interpreter::_Dynamic_valu
   if (!o0.s && !o1.s) return _arithmetic_op<_add<double>, _add<int>>(o0, o1);
   _Dynamic_value val;
   std::string fd = variables->lookup<std::string>("format_double").value();
+  // the format is set by the user, so make sure that it consumes exactly one `double`
+  static const std::regex valid_format("([^%]|%%)*%[-+ #0]*[0-9]*(\\.[0-9]+)?[aAeEfFgG]([^%]|%%)*");
+  HEXED_ASSERT(std::regex_match(fd, valid_format), "`format_double` must contain exactly one floating-point conversion specifier", Hil_exception);
   if (o0.s) {
     val.s.emplace(*o0.s);
     if (o1.i) *val.s += std::to_string(*o1.i);
-- 
2.43.0


From 108030064f584d22f3c938ff1aa1b83fe9b00d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:18 +0000
Subject: [PATCH 03/18] fix: raise HIL exceptions instead of undefined behavior
 for invalid operands in the interpreter

---
 src/Interpreter.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index 4fff5ee..5f8728d 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -32,7 +32,7 @@ bool Interpreter::_char_is(int index, char value)
     if (iter == _text.end()) return false;
     ++iter;
   }
-  return *iter == value;
+  return iter != _text.end() && *iter == value;
 }
 
 std::string Interpreter::_read_name()
@@ -158,20 +158,32 @@ Interpreter::_Dynamic_value Interpreter::_eval(int precedence)
   return val;
 }
 
-template<> int Interpreter::_pow<int>(int op0, int op1) {return math::pow(op0, op1);}
+template<> int Interpreter::_pow<int>(int op0, int op1)
+{
+  HEXED_ASSERT(op0 != 0 || op1 >= 0, "integer 0 cannot be raised to a negative power", Hil_exception);
+  return math::pow(op0, op1);
+}
+
+template<> int Interpreter::_div<int>(int op0, int op1)
+{
+  HEXED_ASSERT(op1 != 0, "integer division by zero", Hil_exception);
+  HEXED_ASSERT(op1 != -1 || op0 != std::numeric_limits<int>::min(), "result of integer division is not representable", Hil_exception);
+  return op0/op1;
+}
 
 Interpreter::_Dynamic_value Interpreter::_mod(Interpreter::_Dynamic_value o0, Interpreter::_Dynamic_value o1)
 {
   HEXED_ASSERT(o0.i && o1.i, "binary operator `%` only accepts integers", Hil_exception);
+  HEXED_ASSERT(*o1.i != 0, "integer modulo by zero", Hil_exception);
   _Dynamic_value v;
-  v.i = *o0.i%*o1.i;
+  v.i = *o1.i == -1 ? 0 : *o0.i%*o1.i; // the remainder of the most negative `int` modulo -1 would trap
   return v;
 }
 
 template<double (*dop)(double, double), int (*iop)(int, int)>
 Interpreter::_Dynamic_value Interpreter::_arithmetic_op(Interpreter::_Dynamic_value o0, Interpreter::_Dynamic_value o1)
 {
-  HEXED_ASSERT(!o0.s && !o1.s, "numeric binary operator does not accept strings", Hil_exception);
+  HEXED_ASSERT((o0.i || o0.d) && (o1.i || o1.d), "numeric binary operator requires numeric operands", Hil_exception);
   Interpreter::_Dynamic_value v;
   if (o0.i && o1.i) v.i = iop(*o0.i, *o1.i);
   else {
@@ -185,7 +197,7 @@ Interpreter::_Dynamic_value Interpreter::_arithmetic_op(Interpreter::_Dynamic_va
 template<bool (*dop)(double, double), bool (*iop)(int, int)>
 Interpreter::_Dynamic_value Interpreter::_comparison_op(Interpreter::_Dynamic_value o0, Interpreter::_Dynamic_value o1)
 {
-  HEXED_ASSERT(!o0.s && !o1.s, "numeric binary operator does not accept strings", Hil_exception);
+  HEXED_ASSERT((o0.i || o0.d) && (o1.i || o1.d), "numeric binary operator requires numeric operands", Hil_exception);
   Interpreter::_Dynamic_value v;
   if (o0.i && o1.i) v.i = iop(*o0.i, *o1.i);
   else {
@@ -275,7 +287,7 @@ Interpreter::Interpreter(std::vector<std::string> preload) :
     {"abs", [](_Dynamic_value val) {
       if      (val.i) *val.i = std::abs(*val.i);
       else if (val.d) *val.d = std::abs(*val.d);
-      else HEXED_ASSERT(false, "unary operator `abs` requires numeric argument")
+      else HEXED_ASSERT(false, "unary operator `abs` requires numeric argument", Hil_exception);
       return val;
     }},
     {"read", [this](_Dynamic_value val) {
@@ -305,6 +317,7 @@ Interpreter::Interpreter(std::vector<std::string> preload) :
     {"^" , {1, _arithmetic_op<_pow<double>, _pow<int>>}}, // note: 0 is for unary ops
     {"#" , {1, [this](_Dynamic_value str, _Dynamic_value i) {
       HEXED_ASSERT(str.s && i.i, "firt operand of binary `#` must be `string` and second must be `int`", Hil_exception);
+      HEXED_ASSERT(*i.i >= 0 && *i.i < int(str.s->size()), "index of binary `#` is out of bounds", Hil_exception);
       return _Dynamic_value(std::string(1, (*str.s)[*i.i]));
     }}},
     {"%" , {2, _mod}},
@@ -333,7 +346,7 @@ Interpreter::Interpreter(std::vector<std::string> preload) :
     return input;
   }));
   variables->create("exit", new Namespace::Heisenberg<std::string>([this]() {
-    _text.clear();
+    _text.assign(1, '\0'); // parser relies on `_text` ending with a null character
     return "";
   }));
   variables->create("throw", new Namespace::Heisenberg<std::string>([this]() {
-- 
2.43.0


From 8ed3805a6ebd1da087e750bcc2caecdbec864e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 04/18] fix: do not read past the end of short CSV rows

---
 src/read_csv.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read_csv.cpp b/src/read_csv.cpp
index 9e2218d..c06e15d 100644
--- a/src/read_csv.cpp
+++ b/src/read_csv.cpp
@@ -25,7 +25,7 @@ Eigen::Matrix<double, dyn, dyn, Eigen::RowMajor> read_csv(std::string file_name)
       } catch (...) {
         HEXED_ASSERT(false, format_str(1000, "could not convert `%s` to `double`", entry.c_str()))
       }
-      begin = end + 1;
+      begin = end == line.end() ? end : end + 1; // if the row is too short, the next entry is empty and cannot be converted
     }
     std::getline(file, line);
   }
-- 
2.43.0


From ce8dfac47f537da85defc0f7d99482e3cf2649d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 05/18] fix: do not access empty sides of structured
 expressions or step past their end

---
 src/Struct_expr.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Struct_expr.cpp b/src/Struct_expr.cpp
index 437dadc..3fe1f98 100644
--- a/src/Struct_expr.cpp
+++ b/src/Struct_expr.cpp
@@ -14,10 +14,11 @@ std::vector<std::string> get_side(std::string code, bool right = false)
     if (equal < end) {
       if (right) sides.emplace_back(equal + 1, end);
       else       sides.emplace_back(start, equal);
-      while (std::isspace(sides.back().front())) sides.back().erase(0, 1);
-      while (std::isspace(sides.back().back())) sides.back().pop_back();
+      auto& side = sides.back();
+      while (!side.empty() && std::isspace(side.front())) side.erase(0, 1);
+      while (!side.empty() && std::isspace(side.back())) side.pop_back();
     }
-    start = end + 1;
+    start = end == code.end() ? end : end + 1;
   }
   return sides;
 }
-- 
2.43.0


From d2a8012fd74536c95469a33a18693dd691eec7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 06/18] fix: handle empty print_vars and nonpositive print_freq

---
 src/Case.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Case.cpp b/src/Case.cpp
index 873ad47..f39bebb 100644
--- a/src/Case.cpp
+++ b/src/Case.cpp
@@ -378,7 +378,7 @@ Case::Case(std::string input_script)
       int width = std::max<int>(15, name.size());
       header += format_str(1000, "%*s, ", width, name.c_str());
     }
-    header.erase(header.end() - 2, header.end());
+    if (header.size() >= 2) header.erase(header.end() - 2, header.end());
     return header;
   }));
 
@@ -417,7 +417,7 @@ Case::Case(std::string input_script)
         _inter.variables->assign(vars.names[i_var], vals.value());
       }
     }
-    report.erase(report.end() - 2, report.end());
+    if (report.size() >= 2) report.erase(report.end() - 2, report.end());
     _solver().reset_counters();
     return report;
   }));
@@ -427,6 +427,7 @@ Case::Case(std::string input_script)
     bool avc = _vard("art_visc_constant").value() > 0;
     int iter = _vari("iteration").value();
     int print_freq = _vari("print_freq").value();
+    HEXED_ASSERT(print_freq > 0, "`print_freq` must be positive");
     int n = iter ? print_freq - iter%print_freq : 1;
     for (int i = 0; i < n; ++i) {
       if (_vari("diffusive_admissibility").value()) _solver().set_art_visc_admis();
-- 
2.43.0


From 9f07c59c143266a7527aef98b31018081d6a5b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 07/18] fix: reject history monitor sizes that would divide by
 zero or never terminate

---
 src/History_monitor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/History_monitor.cpp b/src/History_monitor.cpp
index 4c71625..b61f071 100644
--- a/src/History_monitor.cpp
+++ b/src/History_monitor.cpp
@@ -8,7 +8,10 @@ History_monitor::History_monitor(double window_size, int max_samples)
 : _samples{max_samples}, _start{0}, _sz{0},
   _iterations(_samples, 0), _values(_samples, 0.),
   _win_sz{window_size}, _add_threshold{1.}, _min{-huge}, _max{huge}
-{}
+{
+  HEXED_ASSERT(max_samples > 0, "history monitor must store at least 1 sample");
+  HEXED_ASSERT(window_size > 0, "history monitor window must have positive size");
+}
 
 void History_monitor::add_sample(int iteration, double value)
 {
-- 
2.43.0


From 36ec0ce0d88e52005eccdc9db243cfe666697eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:53 +0000
Subject: [PATCH 08/18] fix: actually compute the minimum element size when
 guessing snapping distance

---
 src/Accessible_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 571517f..5a12ebf 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -62,7 +62,7 @@ void Accessible_mesh::snap_vertices()
   double min_sz = huge;
   #pragma omp parallel for reduction(min : min_sz)
   for (int i_elem = 0; i_elem < elems.size(); ++i_elem) {
-    min_sz = std::max(min_sz, elems[i_elem].nominal_size());
+    min_sz = std::min(min_sz, elems[i_elem].nominal_size());
   }
   if (tree) {
     auto snap_extremes = [this]() {
-- 
2.43.0


From 881bec7c6b3697b176f67d066a7736da4f46918e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:19 +0000
Subject: [PATCH 09/18] fix: remove data races in mesh adaptation and hanging
 vertex matching

---
 src/Accessible_mesh.cpp        | 32 ++++++++++++++++++++++----------
 src/Hanging_vertex_matcher.cpp |  8 ++++++--
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 5a12ebf..8b86585 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -883,7 +883,10 @@ bool has_existent_children(Tree* t)
 // whether an element is currently set to be deformed at the end of the `update` sweep
 bool is_def(Element& elem)
 {
-  return (elem.get_is_deformed() && elem.record == 0) || (!elem.get_is_deformed() && elem.record == 3);
+  int record;
+  #pragma omp atomic read
+  record = elem.record;
+  return (elem.get_is_deformed() && record == 0) || (!elem.get_is_deformed() && record == 3);
 }
 
 // delete elements that would create pathological extrusion topology
@@ -1020,7 +1023,7 @@ void Accessible_mesh::deform()
   #pragma omp parallel for
   for (int i_elem = 0; i_elem < elems.size(); ++i_elem) {
     auto& elem = elems[i_elem];
-    if (elem.record != 2 && elem.tree) {
+    if (exists(elem.tree)) {
       // figure out if this element has a face on the boundary
       std::vector<Tree*> neighbors [6];
       bool surface [6] {};
@@ -1028,8 +1031,7 @@ void Accessible_mesh::deform()
       for (int i_face = 0; i_face < 2*nd; ++i_face) {
         neighbors[i_face] = elem.tree->find_neighbors(math::direction(nd, i_face));
         if (!neighbors[i_face].empty()) {
-          if (neighbors[i_face][0]->elem) surface[i_face] = neighbors[i_face][0]->elem->record == 2;
-          else surface[i_face] = true;
+          surface[i_face] = !exists(neighbors[i_face][0]);
         }
         boundary = boundary || surface[i_face];
       }
@@ -1043,7 +1045,7 @@ void Accessible_mesh::deform()
             if (j_face/2 != i_face/2 && surface[j_face]) def_face = true;
           }
           if (def_face) {
-            for (Tree* n : neighbors[i_face]) if (n->elem) if (n->elem->record != 2) {
+            for (Tree* n : neighbors[i_face]) if (exists(n)) {
               #pragma omp atomic write
               n->elem->record = 3*!n->elem->get_is_deformed();
             }
@@ -1152,11 +1154,20 @@ bool Accessible_mesh::update(std::function<bool(Element&)> refine_criterion, std
   // pass refinement requests of extruded elements to their extrusion parents
   #pragma omp parallel for
   for (auto con : extrude_cons) {
+    auto& outside = con->element(0);
+    int outside_record;
+    bool outside_locked;
+    {
+      // if there are multiple layers, this may be the inside element of another connection
+      Lock::Acquire a(outside.lock);
+      outside_record = outside.record;
+      outside_locked = outside.unrefinement_locked;
+    }
     auto& inside = con->element(1);
     Lock::Acquire a(inside.lock);
-    if (inside.record == 0) inside.record = con->element(0).record;
-    else inside.record = std::max(inside.record, con->element(0).record);
-    inside.unrefinement_locked = inside.unrefinement_locked || con->element(0).unrefinement_locked;
+    if (inside.record == 0) inside.record = outside_record;
+    else inside.record = std::max(inside.record, outside_record);
+    inside.unrefinement_locked = inside.unrefinement_locked || outside_locked;
   }
   int n_orig [2];
   // refine elements
@@ -1284,12 +1295,13 @@ bool Accessible_mesh::update(std::function<bool(Element&)> refine_criterion, std
   // ref level smoothing: refine elements to satisfy solver requirements on neighbors
   do {
     changed = false;
-    #pragma omp parallel for
+    #pragma omp parallel for reduction(||:changed)
     for (int i_elem = 0; i_elem < elems.size(); ++i_elem) {
       auto& elem = elems[i_elem];
       if (elem.record != 2 && elem.tree) {
         if (needs_refine(elem.tree)) {
           changed = true;
+          #pragma omp atomic write
           elem.record = 1;
         }
       }
@@ -1392,7 +1404,7 @@ void Accessible_mesh::reset_verts()
       }
     }
   }
-  #pragma omp parallel for
+  // when there are multiple layers, each one depends on the one inside it, so this has to be done in order
   for (unsigned i_con = 0; i_con < extrude_cons.size(); ++i_con) {
     auto con = extrude_cons[i_con];
     auto& elem = con->element(0);
diff --git a/src/Hanging_vertex_matcher.cpp b/src/Hanging_vertex_matcher.cpp
index 8ad9a44..512b8c0 100644
--- a/src/Hanging_vertex_matcher.cpp
+++ b/src/Hanging_vertex_matcher.cpp
@@ -18,7 +18,9 @@ void Hanging_vertex_matcher::match(std::function<double&(Element&, int i_vertex)
   for (int i_vert = 0; i_vert < n_vert; ++i_vert) {
     int stride = math::pow(2, n_dim - 1 - id);
     inds[i_vert] = i_vert/stride*stride*2 + i_vert%stride + isp*stride;
-    values(i_vert) = access_func(*elements[math::stretched_ind(n_dim, i_vert, str)], inds[i_vert]);
+    double& shared = access_func(*elements[math::stretched_ind(n_dim, i_vert, str)], inds[i_vert]); // other matchers might be accessing the same vertex
+    #pragma omp atomic read
+    values(i_vert) = shared;
   }
   // compute interpolation
   Eigen::MatrixXd interp_mat {
@@ -35,7 +37,9 @@ void Hanging_vertex_matcher::match(std::function<double&(Element&, int i_vertex)
       // compute corresponding index in interpolated array
       int interp_ind = (i_elem*!str[n_dim - 2])%2 + (i_vert%2)*(1 + str[n_dim - 2]); // account for inner stride
       if (n_dim == 3) interp_ind += ((i_elem*!str[0])/(1 + !str[1]) + i_vert/2*(1 + str[0]))*3; // account for outer stride
-      access_func(*elements[i_elem], inds[i_vert]) = interpolated(interp_ind);
+      double& shared = access_func(*elements[i_elem], inds[i_vert]);
+      #pragma omp atomic write
+      shared = interpolated(interp_ind);
     }
   }
 }
-- 
2.43.0


From c11bedee6a889ec724900b6210899401accafbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:59 +0000
Subject: [PATCH 10/18] fix: delete layers of extruded elements in order

---
 src/Accessible_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 8b86585..4fc36f5 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -1311,7 +1311,7 @@ bool Accessible_mesh::update(std::function<bool(Element&)> refine_criterion, std
   delete_bad_extrusions();
   deform();
   // delete extruded elements
-  #pragma omp parallel for
+  // when there are multiple layers, deleting one also deletes those outside it, so this has to be done in order
   for (auto con : extrude_cons) {
     bool del = false;
     if (con->element(1).record == 2) del = true;
-- 
2.43.0


From 278e5ef75366ae50450ce721dba5aec709147f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:50 +0000
Subject: [PATCH 11/18] fix: identify boundary elements serially since
 connections can share elements

---
 src/Solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Solver.cpp b/src/Solver.cpp
index 996294d..c0e57ce 100644
--- a/src/Solver.cpp
+++ b/src/Solver.cpp
@@ -701,7 +701,7 @@ void Solver::set_uncert_surface_rep(int bc_sn)
   }
   // identify boundary elements
   auto& bc_cons {acc_mesh->boundary_connections()};
-  #pragma omp parallel for
+  // not parallel because more than one connection can write to the same element
   for (int i_con = 0; i_con < bc_cons.size(); ++i_con) {
     auto& con = bc_cons[i_con];
     if (con.bound_cond_serial_n() == bc_sn) {
-- 
2.43.0


From 3b53ad3bc8798a04a24e0970c7b56ad700a7ce9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:04 +0000
Subject: [PATCH 12/18] fix: derive all freestream quantities however the
 freestream is specified

---
 src/Case.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/Case.cpp b/src/Case.cpp
index f39bebb..6e50eb1 100644
--- a/src/Case.cpp
+++ b/src/Case.cpp
@@ -166,8 +166,23 @@ Case::Case(std::string input_script)
                  format_str(300, "`row_size` must be between 2 and %i", config::max_row_size));
     // compute freestream
     Mat<> freestream(*n_dim + 2);
-    if (_vard("freestream0")) freestream = _get_vector("freestream", *n_dim + 2);
-    else {
+    if (_vard("freestream0")) {
+      freestream = _get_vector("freestream", *n_dim + 2);
+      // assign the quantities which follow from the freestream state, since macros and boundary conditions refer to them
+      Mat<> veloc = freestream(Eigen::seqN(0, *n_dim))/freestream(*n_dim);
+      double pressure = (heat_rat - 1)*(freestream(*n_dim + 1) - .5*freestream(*n_dim)*veloc.squaredNorm());
+      double sound_speed = std::sqrt(heat_rat*pressure/freestream(*n_dim));
+      Mat<> direction = Mat<>::Zero(3);
+      direction(Eigen::seqN(0, *n_dim)) = veloc.normalized();
+      _inter.variables->assign<double>("freestream_density", freestream(*n_dim));
+      _inter.variables->assign<double>("freestream_pressure", pressure);
+      _inter.variables->assign<double>("freestream_temperature", pressure/(constants::specific_gas_air*freestream(*n_dim)));
+      _inter.variables->assign<double>("freestream_sound_speed", sound_speed);
+      _inter.variables->assign<double>("freestream_speed", veloc.norm());
+      _inter.variables->assign<double>("freestream_mach", veloc.norm()/sound_speed);
+      _set_vector("freestream_velocity", veloc);
+      _set_vector("freestream_direction", direction);
+    } else {
       if (_vard("altitude")) {
         HEXED_ASSERT(!_vard("freestream_temperature"), "cannot specify both altitude and temperature (consider `temperature_offset`)");
         auto dens_pres = standard_atmosphere(_vard("altitude").value(), _vard("temperature_offset").value());
@@ -186,11 +201,13 @@ Case::Case(std::string input_script)
       Mat<> veloc;
       Mat<> full_direction = Mat<>::Zero(3);
       auto direction = full_direction(Eigen::seqN(0, *n_dim));
+      _inter.variables->assign<double>("freestream_sound_speed", std::sqrt(heat_rat*constants::specific_gas_air**_vard("freestream_temperature")));
       if (_vard("freestream_velocity0")) {
         veloc = _get_vector("freestream_velocity", *n_dim);
         direction = veloc.normalized();
+        _inter.variables->assign<double>("freestream_speed", veloc.norm());
+        _inter.variables->assign<double>("freestream_mach", veloc.norm()/ *_vard("freestream_sound_speed"));
       } else {
-        _inter.variables->assign<double>("freestream_sound_speed", std::sqrt(heat_rat*constants::specific_gas_air**_vard("freestream_temperature")));
         if (_vard("freestream_speed")) _inter.variables->assign<double>("freestream_mach", *_vard("freestream_speed")/ *_vard("freestream_sound_speed"));
         else _inter.variables->assign<double>("freestream_speed", *_vard("freestream_mach")**_vard("freestream_sound_speed"));
         if (_vard("freestream_direction0")) direction = _get_vector("freestream_direction", *n_dim).normalized();
@@ -211,10 +228,11 @@ Case::Case(std::string input_script)
       freestream(Eigen::seqN(0, *n_dim)) = *_vard("freestream_density")*veloc;
       freestream(*n_dim) = *_vard("freestream_density");
       freestream(*n_dim + 1) = *_vard("freestream_pressure")/(heat_rat - 1) + .5**_vard("freestream_density")*veloc.squaredNorm();
-      freestream.conservativeResize(5);
-      freestream(Eigen::seqN(*n_dim + 2, 5 - (*n_dim + 2))).setZero();
-      _set_vector("freestream", freestream);
     }
+    // `init_cond` refers to all 5 components regardless of the dimensionality
+    freestream.conservativeResize(5);
+    freestream(Eigen::seqN(*n_dim + 2, 5 - (*n_dim + 2))).setZero();
+    _set_vector("freestream", freestream);
     // create solver
     Mat<dyn, dyn> mesh_extremes(*n_dim, 2);
     for (int i_dim = 0; i_dim < *n_dim; ++i_dim) {
-- 
2.43.0


From 3c0ebe34ca74814d8a33dc9c85509e892f278a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:40 +0000
Subject: [PATCH 13/18] fix: bring the documented case parameters in line with
 the code

Several defaults, types and names in the parameter documentation did not match
the interface that Case actually provides (e.g. transport_model, compute_forces,
input_file and the thermal_bc key conduction do not exist).
---
 doc/parameters.dox | 66 ++++++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 32 deletions(-)

diff --git a/doc/parameters.dox b/doc/parameters.dox
index c4ee904..e75f1bd 100644
--- a/doc/parameters.dox
+++ b/doc/parameters.dox
@@ -57,13 +57,23 @@ If you intend for your time stepping to be CFL driven, simply keep this number l
 \note Not defined until \ref create_solver is evaluated.
 
 <hr>
-\subsubsection transport_model
+\subsubsection viscosity_model
 __type:__ string \n
-__default:__ `{inviscid}` \n
-Specifies model to use for molecular transport coefficients (viscosity and thermal conductivity).
+__default:__ `{}` \n
+\ref struct_expr "Structured expression" specifying the model to use for the viscosity.
 Accepted values:
-- `{inviscid}`
-- `{sutherland}`: Uses sutherland's law for air (non-constant Prandtl number)
+- `{}`: inviscid
+- `{ref_value = x; ref_temperature = y; offset = z}`: Sutherland's law with the viscosity at the reference temperature `y` being `x`
+  and a temperature offset (a.k.a. Sutherland temperature) of `z`.
+  The predefined variable `air_viscosity` contains a suitable model for air.
+
+<hr>
+\subsubsection conductivity_model
+__type:__ string \n
+__default:__ `{}` \n
+Like \ref viscosity_model, but specifies the model to use for the thermal conductivity.
+The predefined variable `air_conductivity` contains a suitable model for air.
+Using both `air_viscosity` and `air_conductivity` results in a non-constant Prandtl number.
 
 <hr>
 \subsubsection thermal_bc
@@ -77,7 +87,7 @@ Accepted values:
 - `{temperature = x}`: Prescribes the temperature at the wall to be `x`.
 - `{internal_energy = x}`: Prescribes the internal energy at the wall to be `x`.
   For now, since you're stuck in the CPG world, this is equivalent to `{temperature = x*(heat_rat - 1)/specific_gas_air}`.
-- `{emissivity = x; conduction = y; temperature = z}`: \anchor thermal_equilibrium_bc
+- `{emissivity = x; heat_transfer_coef = y; temperature = z}`: \anchor thermal_equilibrium_bc
   Specifies that the wall is in thermal equalibrium according to a simple 1D heat equation.
   Specifically, sets the heat flux equal to the sum of the radiative cooling flux and the thermal conduction through the wall.
   The radiative cooling flux is determined by the [Stefan-Boltzmann Law](https://en.wikipedia.org/wiki/Stefan%E2%80%93Boltzmann_law)
@@ -85,11 +95,11 @@ Accepted values:
   The conductive flux is determined by assuming that the wall has a small but finite thickness and the temperature on the non-air side is known.
   Specifically, it is equal to \f$ kL(T_w - T_p) \f$ where \f$ k \f$ is the thermal conductivity of the wall material,
   \f$ L \f$ is the wall thickness, \f$ T_w \f$ is the current wall temperature, and \f$ T_p \f$ is the prescribed temperature.
-  The product \f$ kL \f$ is equal to `conduction`
+  The product \f$ kL \f$ is equal to `heat_transfer_coef`
   and the prescribed temperature \f$ T_p \f$ is `temperature`.
   You don't have to specify all 3 parameters---they all default to 0.
   You may specify `emissivity` __and/or__ you may specify the other parameters,
-  but if you specify either `conduction` or `temperature` you must specify both.
+  but if you specify either `heat_transfer_coef` or `temperature` you must specify both.
   If your wall is highly conductive, you might need to reduce \ref heat_flux_coercion to maintain stability.
 
 <hr>
@@ -155,7 +165,7 @@ Also, it seems to be difficult to maintain stability if this number is greater t
 <hr>
 \subsubsection n_cheby_av
 __type:__ integer \n
-__default:__ 0.7 \n
+__default:__ 1 \n
 Number of Chebyshev acceleration stages to use for diffusion equation for smoothness-based artificial viscosity.
 Increasing this number will help the artificial viscosity coefficient converge faster
 but cause a larger fraction of the time to be spent in the aritificial viscosity calculation.
@@ -195,7 +205,7 @@ and significantly more layers are often required for hypersonic simulations with
 
 <hr>
 \subsubsection max_ref_level
-__type:__ float \n
+__type:__ integer \n
 __default:__ 10 \n
 When performing geometry-based refinement with \ref set_geometry_refinement,
 elements will not be refined beyond this refinement level.
@@ -219,8 +229,8 @@ May be any nonnegative integer, up to time and memory constraints.
 __type:__ string \n
 __default:__ `{auto}` \n
 Specifies surface boundary condition.
-If `{auto}`, surface boundary condition will be determined automatically depending on the value of \ref transport_model.
-`{inviscid}` &rarr; `{nonpenetration}` and `{sutherland}` &rarr; `{no_slip}`.
+If `{auto}`, surface boundary condition will be determined automatically depending on the value of \ref viscosity_model.
+`{}` &rarr; `{nonpenetration}` and anything else &rarr; `{no_slip}`.
 Otherwise, the name of a supported \ref boundary_conditions "Boundary condition type".
 
 <hr>
@@ -243,7 +253,7 @@ Sets the temperature offset passed to `hexed::standard_atmosphere`.
 <hr>
 \subsubsection geometry_uncertainty
 __type:__ float \n
-__default:__ 3e-3 \n
+__default:__ 1e-2 \n
 When performing geometry-based refinement with \ref set_geometry_refinement,
 a nondimensional uncertainty metric for the surface representation will be compared to this value,
 and any elements with a larger value will be refined.
@@ -356,7 +366,7 @@ __default:__ `state_vars + art_visc_expr` \n
 <hr>
 \subsubsection vis_surface_vars
 __type:__ string \n
-__default:__ `state_vars + visc_stress_expr + heat_flux_expr` \n
+__default:__ `state_vars + visc_stress_expr + heat_flux_expr + pressure_coef_expr + skin_friction_coef_expr` \n
 \ref struct_expr "Structured expression" specifying which surface variables to visualize.
 
 <hr>
@@ -369,7 +379,7 @@ If you want, you can think of this as the visualization \ref basis_row_size "row
 <hr>
 \subsubsection print_vars
 __type:__ string \n
-__default:__ `iteration_expr + residual_expr + av_advection_residual_expr + av_diffusion_residual_expr + flow_time_expr + time_step_expr` \n
+__default:__ `iteration_expr + normalized_residual_expr + flow_time_expr + time_step_expr` \n
 \ref struct_expr "Structured expression" specifying what quantities to print when the solver status is printed.
 
 <hr>
@@ -505,7 +515,7 @@ Increasing \ref n_cheby_av instead will usually be more productive, up to the li
 <hr>
 \subsubsection av_diff_ratio
 __type:__ float\n
-__default:__ 0.1 \n
+__default:__ 0.3 \n
 Determines amount of to smear artificial viscosity coefficient for smoothness-based artificial viscosity.
 A larger number means that the artificial viscosity field will be smoother but also spread further from the shocks.
 \note Not defined until \ref create_solver is evaluated.
@@ -513,27 +523,19 @@ A larger number means that the artificial viscosity field will be smoother but a
 <hr>
 \subsubsection av_visc_mult
 __type:__ float\n
-__default:__ 30. \n
+__default:__ 100. \n
 Final linear scaling parameter on smoothness-based artificial viscosity coefficient.
 \note Not defined until \ref create_solver is evaluated.
 
 <hr>
 \subsubsection av_unscaled_max
 __type:__ float\n
-__default:__ 2e-4 \n
+__default:__ 5. \n
 Maximum amount of artificial viscosity allowed before dimensional scaling.
 If this value is too small, artificial viscosity will not be sufficient to fully capture shocks.
 If it is too large, excessively small time steps may be encountered during the initial transient phase of the simulation.
 \note Not defined until \ref create_solver is evaluated.
 
-<hr>
-\subsubsection av_advect_max_res
-__type:__ float\n
-__default:__ 1e-3 \n
-Limit on the residual in the advection equation for smoothness-based artificial viscosity determination
-to improve robustness when weak instabilities are encountered.
-\note Not defined until \ref create_solver is evaluated.
-
 <hr>
 \subsubsection vis_lts_constraints
 __type:__ integer \n
@@ -610,7 +612,7 @@ Otherwise, it will be continuous and piecewise n-linear.
 <hr>
 \subsubsection elementwise_art_visc_diff_ratio
 __type:__ float \n
-__default:__ 0.5 \n
+__default:__ 5. \n
 If \ref elementwise_art_visc_pde "PDE-based" \ref elementwise_art_visc "elementwise artificial viscosity" is used,
 this controls the amount of diffusion used to smooth the artificial viscosity coefficient.
 
@@ -734,7 +736,7 @@ Evaluates the residuals and assigns them to float variables \ref residual_moment
 Returns the empty string.
 
 <hr>
-\subsubsection compute_forces
+\subsubsection compute_force
 __type:__ string (macro) \n
 Computes aerodynamic forces and force coefficients.
 Will assign values to the following variables
@@ -752,9 +754,9 @@ Any of the above which are not applicable to the dimensionality of the problem a
 This macro involves computing integrals, so it has non-negligible performance overhead if called very frequently.
 
 <hr>
-\subsubsection print_forces
+\subsubsection print_force
 __type:__ string (macro) \n
-Calls \ref compute_forces and prints the results in a pretty way.
+Calls \ref compute_force and prints the results in a pretty way.
 
 <hr>
 \subsubsection plot_history
@@ -879,9 +881,9 @@ See individual documentation for details.
 \subsection output_list List of Output Parameters
 
 <hr>
-\subsubsection input_file
+\subsubsection input_script
 __type:__ string \n
-If \ref hexecute was invoked from an input file, `input_file` will be the path to the input file (relative or absolute as provided by user).
+If \ref hexecute was invoked from an input file, `input_script` will be the path to the input file (relative or absolute as provided by user).
 If this is an interactive session, it will be an empty string.
 
 <hr>
-- 
2.43.0


From da41e056a7e8e81102193ac1c07a8eee4e9a2119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 14/18] fix: copy the shareable value along with a vertex
 pointer

---
 src/Vertex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Vertex.cpp b/src/Vertex.cpp
index 3636ab1..2b1e53d 100644
--- a/src/Vertex.cpp
+++ b/src/Vertex.cpp
@@ -97,7 +97,7 @@ Vertex::Transferable_ptr::Transferable_ptr(Mat<3> pos, bool mbl)
 }
 
 Vertex::Transferable_ptr::Transferable_ptr(const Vertex::Transferable_ptr& other)
-: ptr{other.ptr}, mobile{other.mobile}
+: ptr{other.ptr}, shareable_value{other.shareable_value}, mobile{other.mobile}
 {
   ptr->trbl_ptrs.insert(this);
 }
-- 
2.43.0


From 15dfdeecf8c5128edffec4cd09545e4df48db018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:51 +0000
Subject: [PATCH 15/18] fix: write the fine elements of refined connections in
 the order the reader expects

---
 include/connection.hpp  | 7 +++++++
 src/Accessible_mesh.cpp | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/connection.hpp b/include/connection.hpp
index b1ee26e..dd95e5b 100644
--- a/include/connection.hpp
+++ b/include/connection.hpp
@@ -195,6 +195,7 @@ class Refined_connection
   Con_dir<element_t> dir;
   Con_dir<Deformed_element> def_dir;
   bool rev;
+  std::vector<element_t*> fine_elems;
   std::vector<std::unique_ptr<Fine_connection>> fine_cons;
   std::array<bool, 2> str;
   int n_fine;
@@ -229,6 +230,7 @@ class Refined_connection
     dir{con_dir},
     def_dir{Con_dir<Deformed_element>(dir)},
     rev{reverse_order},
+    fine_elems{fine},
     str{stretch_arg},
     coarse_state_data{3*params.n_dof()/params.row_size},
     matcher{to_elementstar(fine), def_dir.i_dim[!reverse_order], def_dir.face_sign[!reverse_order], str}
@@ -278,6 +280,11 @@ class Refined_connection
   Con_dir<element_t> direction() {return dir;}
   //! fetch an object represting a connection between the face of a fine element and one of the mortar faces
   Fine_connection& connection(int i_fine) {return *fine_cons[i_fine];}
+  /*!
+   * fetch a fine element.
+   * Unlike `connection()`, this uses the natural order in which the fine elements were passed to the constructor.
+   */
+  element_t& fine_element(int i_fine) {return *fine_elems[i_fine];}
   bool order_reversed() {return rev;}
   auto stretch() {return str;}
   int n_fine_elements() {return n_fine;}
diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 4fc36f5..0b8854e 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -1589,7 +1589,7 @@ void Accessible_mesh::write(std::string name)
       int data[11] {}; \
       data[0] = con.coarse_element().record; \
       for (int i_fine = 0; i_fine < con.n_fine_elements(); ++i_fine) { \
-        data[1 + i_fine] = con.connection(i_fine).element(!con.order_reversed()).record; \
+        data[1 + i_fine] = con.fine_element(i_fine).record; \
       } \
       for (int i_fine = con.n_fine_elements(); i_fine < 4; ++i_fine) data[1 + i_fine] = -1; \
       for (int i_dim : {0, 1}) data[5 + i_dim] = con.stretch()[i_dim]; \
-- 
2.43.0


From 39d42ca0f097a3248cb29dda30354c0ff33f97e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:51 +0000
Subject: [PATCH 16/18] fix: number the documented entries of boundary
 connections from 0

---
 doc/mesh_io.dox | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doc/mesh_io.dox b/doc/mesh_io.dox
index 00369f3..af453dc 100644
--- a/doc/mesh_io.dox
+++ b/doc/mesh_io.dox
@@ -244,8 +244,8 @@ __group__ `/`:
     Each row provides the data for 1 boundary connection.
     Entry 0 is the index of the element being connected.
     Entry 1 is the index of the boundary condition being applied.
-    Entry 3 is the face dimension index.
-    Entry 4 is the face sign (0|1).
+    Entry 2 is the face dimension index.
+    Entry 3 is the face sign (0|1).
     The mesh file does not record what the boundary conditions are---those are specific to each simulation.
     However, there is a convention for mapping boundary condition indices to input file parameters:
     - Boundary conditions [0, `2*n_dim`) are the extremal \ref extremal_bc "boundary conditions".
-- 
2.43.0


From 6ee4f992f36320675410a29bd5b249ec9749775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:12 +0000
Subject: [PATCH 17/18] fix: Copy::apply_advection copies every advected scalar

copy_state copies 2*(n_dim + 2) rows of face data but the face holds
n_dim + row_size rows during advection, so for large row sizes the last
advected scalars of the ghost state were never set.
---
 src/Boundary_condition.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Boundary_condition.cpp b/src/Boundary_condition.cpp
index e941a43..b57f741 100644
--- a/src/Boundary_condition.cpp
+++ b/src/Boundary_condition.cpp
@@ -459,7 +459,12 @@ void Copy::apply_flux(Boundary_face& bf)
 
 void Copy::apply_advection(Boundary_face& bf)
 {
-  copy_state(bf);
+  // `copy_state` copies only as many variables as the flow state and flux have, which can be less than there are advected scalars
+  auto params = bf.storage_params();
+  const int n_dof = (params.n_dim + params.n_advection(params.row_size))*params.n_qpoint()/params.row_size;
+  double* in_f = bf.inside_face(false);
+  double* gh_f = bf.ghost_face(false);
+  for (int i_dof = 0; i_dof < n_dof; ++i_dof) gh_f[i_dof] = in_f[i_dof];
 }
 
 void Outflow::apply_state(Boundary_face& bf)
-- 
2.43.0


From eddad4724a261bd8050a4d852e784534c5944da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:30 +0000
Subject: [PATCH 18/18] fix: report files that cannot be created, read or
 written

Reading a directory (or any file with a read error) with the HIL operator
`read` gave an empty string, `read_csv` an empty matrix, and neither PolyMesh
files, the log nor images were checked for having been created and written.
---
 src/Accessible_mesh.cpp | 3 +++
 src/Case.cpp            | 4 +++-
 src/Interpreter.cpp     | 1 +
 src/Occt.cpp            | 2 +-
 src/read_csv.cpp        | 1 +
 5 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Accessible_mesh.cpp b/src/Accessible_mesh.cpp
index 0b8854e..403d826 100644
--- a/src/Accessible_mesh.cpp
+++ b/src/Accessible_mesh.cpp
@@ -1820,6 +1820,7 @@ Accessible_mesh::Accessible_mesh(std::string file_name, std::vector<Flow_bc*> fl
 void write_polymesh_file(std::string dir_name, std::string name, std::string cls, int n_entries, std::function<std::string(int)> entries, std::string note = "")
 {
   std::ofstream file(dir_name + name);
+  HEXED_ASSERT(file.good(), format_str(1000, "failed to create file `%s`", (dir_name + name).c_str()));
   file
     << "// this file was generated for OpenFOAM by Hexed, an open-source mesher and CFD solver\n"
     << "// https://github.com/ARTLab-GT/hexed\n\n"
@@ -1836,6 +1837,8 @@ void write_polymesh_file(std::string dir_name, std::string name, std::string cls
     << "\n" << n_entries << "\n(\n";
   for (int i_entry = 0; i_entry < n_entries; ++i_entry) file << "    " << entries(i_entry) << "\n";
   file << ")\n";
+  file.close();
+  HEXED_ASSERT(file.good(), format_str(1000, "failed to write file `%s`", (dir_name + name).c_str()));
 }
 
 void Accessible_mesh::export_polymesh(std::string dir_name)
diff --git a/src/Case.cpp b/src/Case.cpp
index 6e50eb1..c9879b1 100644
--- a/src/Case.cpp
+++ b/src/Case.cpp
@@ -148,7 +148,9 @@ Case::Case(std::string input_script)
   // create custom Heisenberg variables
   _inter.variables->create("create_solver", new Namespace::Heisenberg<int>([this]() {
     // basic IO setup
-    _output_file.reset(new std::ofstream(_vars("working_dir").value() + "output.txt"));
+    std::string output_file_name = _vars("working_dir").value() + "output.txt";
+    _output_file.reset(new std::ofstream(output_file_name));
+    HEXED_ASSERT(_output_file->good(), format_str(1000, "failed to create file `%s`", output_file_name.c_str()));
     auto printer = std::make_shared<Stream_printer>();
     printer->streams.emplace_back(_output_file.get());
     _inter.printer = printer;
diff --git a/src/Interpreter.cpp b/src/Interpreter.cpp
index 5f8728d..49d5ecb 100644
--- a/src/Interpreter.cpp
+++ b/src/Interpreter.cpp
@@ -298,6 +298,7 @@ Interpreter::Interpreter(std::vector<std::string> preload) :
       str.s = "";
       char c;
       while (file.get(c)) str.s->push_back(c);
+      HEXED_ASSERT(!file.bad(), format_str(1000, "failed to read file `%s`", (*val.s).c_str()), Hil_exception);
       file.close();
       return str;
     }},
diff --git a/src/Occt.cpp b/src/Occt.cpp
index 11b6127..b612f47 100644
--- a/src/Occt.cpp
+++ b/src/Occt.cpp
@@ -252,7 +252,7 @@ void Occt::write_image(const TopoDS_Shape& shape, std::string file_name, Mat<3>
   view->TriedronDisplay(Aspect_TOTP_LEFT_LOWER, Quantity_NOC_WHITE, .1);
   // render/save
   view->Redraw();
-  view->Dump(file_name.c_str());
+  HEXED_ASSERT(view->Dump(file_name.c_str()), format_str(1000, "failed to write image `%s`", file_name.c_str()));
 }
 
 template <typename reader_t>
diff --git a/src/read_csv.cpp b/src/read_csv.cpp
index c06e15d..63d5f57 100644
--- a/src/read_csv.cpp
+++ b/src/read_csv.cpp
@@ -29,6 +29,7 @@ Eigen::Matrix<double, dyn, dyn, Eigen::RowMajor> read_csv(std::string file_name)
     }
     std::getline(file, line);
   }
+  HEXED_ASSERT(!file.bad(), format_str(1000, "failed to read file `%s`", file_name.c_str()));
   Eigen::Matrix<double, dyn, dyn, Eigen::RowMajor> mat(rows, cols);
   for (unsigned i = 0; i < data.size(); ++i) mat(i) = data[i];
   return mat;
-- 
2.43.0

