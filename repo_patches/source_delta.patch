From f4cb78d16791aff01d0adaa0b26c582cbc84bd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:10 +0000
Subject: [PATCH 1/9] fix: json_encode must not escape bytes above 0x7f as
 negative code units

---
 src/utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 57eb5a1..72424de 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -54,10 +54,10 @@ std::string url_encode(const std::string &str) {
  */
 std::string json_encode(const std::string &str) {
     auto ret = std::string{};
-    std::for_each(str.begin(), str.end(), [&ret](char c) {
+    std::for_each(str.begin(), str.end(), [&ret](unsigned char c) {
         ret += (c == '"' || c == '\\' || c <= '\x1f')
             ? fmt::format("\\u{:04X}", static_cast<int>(c))
-            : std::string{ c };
+            : std::string{ static_cast<char>(c) };
     });
     return ret;
 }
-- 
2.43.0


From 07ab7a9ac6e6fedbd2cd843f6bfa37d7911c826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:41 +0000
Subject: [PATCH 2/9] fix: constant integer division and modulo by zero or of
 the minimum by -1 must not crash

---
 .../v3x/register_consteval_core_functions.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/libqasm/v3x/register_consteval_core_functions.hpp b/include/libqasm/v3x/register_consteval_core_functions.hpp
index 9845d22..5690997 100644
--- a/include/libqasm/v3x/register_consteval_core_functions.hpp
+++ b/include/libqasm/v3x/register_consteval_core_functions.hpp
@@ -1,9 +1,11 @@
 #pragma once
 
 #include <cmath>
+#include <cstdint>  // uint64_t
 #include <functional>
 #include <numeric>
 
+#include "libqasm/error.hpp"
 #include "libqasm/v3x/analyzer.hpp"
 #include "libqasm/v3x/primitives.hpp"
 
@@ -83,8 +85,21 @@ constexpr auto op_sub_ii = bf_cp<values::ConstInt, values::ConstInt, std::minus{
 constexpr auto op_mul_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::multiplies{}>{};
 constexpr auto op_mul_ii = bf_cp<values::ConstInt, values::ConstInt, std::multiplies{}>{};
 constexpr auto op_div_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::divides{}>{};
-constexpr auto op_div_ii = bf_cp<values::ConstInt, values::ConstInt, std::divides{}>{};
-constexpr auto op_mod_ii = bf_cp<values::ConstInt, values::ConstInt, std::modulus{}>{};
+inline constexpr auto div = [](primitives::Int a, primitives::Int b) -> primitives::Int {
+    if (b == 0) {
+        throw error::AnalysisError{ "division by zero" };
+    }
+    // Dividing by -1 is negating, modulo 2^64
+    return (b == -1) ? static_cast<primitives::Int>(-static_cast<std::uint64_t>(a)) : a / b;
+};
+constexpr auto op_div_ii = bf_cp<values::ConstInt, values::ConstInt, div>{};
+inline constexpr auto mod = [](primitives::Int a, primitives::Int b) -> primitives::Int {
+    if (b == 0) {
+        throw error::AnalysisError{ "modulo by zero" };
+    }
+    return (b == -1) ? 0 : a % b;
+};
+constexpr auto op_mod_ii = bf_cp<values::ConstInt, values::ConstInt, mod>{};
 
 inline constexpr auto pow = [](auto base, auto exp) { return std::pow(base, exp); };
 constexpr auto op_pow_ff = bf_cp<values::ConstFloat, values::ConstFloat, pow>{};
-- 
2.43.0


From 0567b7fdc9c698288ad31bf2059d02fcb4f0932e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:41 +0000
Subject: [PATCH 3/9] fix: constant shifts by a negative count or by 64 or more
 must be reported as errors

---
 .../libqasm/v3x/register_consteval_core_functions.hpp  | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/libqasm/v3x/register_consteval_core_functions.hpp b/include/libqasm/v3x/register_consteval_core_functions.hpp
index 5690997..df87bf5 100644
--- a/include/libqasm/v3x/register_consteval_core_functions.hpp
+++ b/include/libqasm/v3x/register_consteval_core_functions.hpp
@@ -130,9 +130,15 @@ constexpr auto op_band_ii = bf_cp<values::ConstInt, values::ConstInt, std::bit_a
 constexpr auto op_bxor_ii = bf_cp<values::ConstInt, values::ConstInt, std::bit_xor{}>{};
 constexpr auto op_bor_ii = bf_cp<values::ConstInt, values::ConstInt, std::bit_or{}>{};
 
-inline constexpr auto shl = [](primitives::Int a, primitives::Int b) { return a << b; };
+inline primitives::Int check_shift_count(primitives::Int count) {
+    if (count < 0 || count > 63) {
+        throw error::AnalysisError{ "shift count out of range" };
+    }
+    return count;
+}
+inline constexpr auto shl = [](primitives::Int a, primitives::Int b) { return a << check_shift_count(b); };
 constexpr auto op_shl_ii = bf_cp<values::ConstInt, values::ConstInt, shl>{};
-inline constexpr auto shr = [](primitives::Int a, primitives::Int b) { return a >> b; };
+inline constexpr auto shr = [](primitives::Int a, primitives::Int b) { return a >> check_shift_count(b); };
 constexpr auto op_shr_ii = bf_cp<values::ConstInt, values::ConstInt, shr>{};
 
 constexpr auto op_linv_b = uf_cp<values::ConstBool, values::ConstBool, std::logical_not{}>{};
-- 
2.43.0


From 234a822bd183fe6ae1b9ed3eefed3fc65bd3c00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:08 +0000
Subject: [PATCH 4/9] fix: constant integer arithmetic wraps around instead of
 overflowing

---
 .../v3x/register_consteval_core_functions.hpp   | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/libqasm/v3x/register_consteval_core_functions.hpp b/include/libqasm/v3x/register_consteval_core_functions.hpp
index df87bf5..ab6d8b8 100644
--- a/include/libqasm/v3x/register_consteval_core_functions.hpp
+++ b/include/libqasm/v3x/register_consteval_core_functions.hpp
@@ -75,15 +75,21 @@ struct tf_cp : public f_cp<ParamValue, ParamValue, F> {
 };
 
 constexpr auto op_neg_f = uf_cp<values::ConstFloat, values::ConstFloat, std::negate<double>{}>{};
-constexpr auto op_neg_i = uf_cp<values::ConstInt, values::ConstInt, std::negate{}>{};
+// Integer arithmetic wraps around, modulo 2^64
+template <typename Op>
+constexpr auto wrap = [](primitives::Int a, primitives::Int b) {
+    return static_cast<primitives::Int>(Op{}(static_cast<std::uint64_t>(a), static_cast<std::uint64_t>(b)));
+};
+inline constexpr auto neg = [](primitives::Int a) { return wrap<std::minus<>>(0, a); };
+constexpr auto op_neg_i = uf_cp<values::ConstInt, values::ConstInt, neg>{};
 
 constexpr auto op_add_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::plus{}>{};
-constexpr auto op_add_ii = bf_cp<values::ConstInt, values::ConstInt, std::plus{}>{};
+constexpr auto op_add_ii = bf_cp<values::ConstInt, values::ConstInt, wrap<std::plus<>>>{};
 constexpr auto op_sub_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::minus{}>{};
-constexpr auto op_sub_ii = bf_cp<values::ConstInt, values::ConstInt, std::minus{}>{};
+constexpr auto op_sub_ii = bf_cp<values::ConstInt, values::ConstInt, wrap<std::minus<>>>{};
 
 constexpr auto op_mul_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::multiplies{}>{};
-constexpr auto op_mul_ii = bf_cp<values::ConstInt, values::ConstInt, std::multiplies{}>{};
+constexpr auto op_mul_ii = bf_cp<values::ConstInt, values::ConstInt, wrap<std::multiplies<>>>{};
 constexpr auto op_div_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::divides{}>{};
 inline constexpr auto div = [](primitives::Int a, primitives::Int b) -> primitives::Int {
     if (b == 0) {
@@ -184,7 +190,8 @@ inline constexpr auto atanh = [](auto num) { return std::atanh(num); };
 constexpr auto fn_atanh_f = uf_cp<values::ConstFloat, values::ConstFloat, atanh>{};
 inline constexpr auto abs = [](auto num) { return std::abs(num); };
 constexpr auto fn_abs_f = uf_cp<values::ConstFloat, values::ConstFloat, abs>{};
-constexpr auto fn_abs_i = uf_cp<values::ConstInt, values::ConstInt, abs>{};
+inline constexpr auto abs_i = [](primitives::Int num) { return (num < 0) ? neg(num) : num; };
+constexpr auto fn_abs_i = uf_cp<values::ConstInt, values::ConstInt, abs_i>{};
 
 /**
  * Registers a bunch of consteval core functions.
-- 
2.43.0


From 72d58bebcc91cbdad546f74dd4e74658b1c1a66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:17 +0000
Subject: [PATCH 5/9] fix: analyzing a program must not leave its variables and
 statements in the analyzer

---
 src/v3x/analyzer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/v3x/analyzer.cpp b/src/v3x/analyzer.cpp
index 74a1371..41bdd3f 100644
--- a/src/v3x/analyzer.cpp
+++ b/src/v3x/analyzer.cpp
@@ -85,7 +85,11 @@ void Analyzer::register_default_instructions() {
  * Analyzes the given AST.
  */
 AnalysisResult Analyzer::analyze(syntactic::Program& ast) {
-    auto analyze_visitor_up = std::make_unique<SemanticAnalyzer>(*this);
+    // Work on a copy of this analyzer,
+    // so that the variables and statements of this program are not there anymore when analyzing another one
+    auto analyzer = *this;
+    analyzer.current_scope().block = current_block().clone();
+    auto analyze_visitor_up = std::make_unique<SemanticAnalyzer>(analyzer);
     auto result = std::any_cast<AnalysisResult>(analyze_visitor_up->visit_program(ast));
     if (result.errors.empty()) {
         try {
-- 
2.43.0


From 95e76bcb612aad8993e3d4adea015a66eac85de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:17 +0000
Subject: [PATCH 6/9] fix: indexing something that is not a variable must be
 reported instead of crashing

---
 src/v3x/semantic_analyzer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v3x/semantic_analyzer.cpp b/src/v3x/semantic_analyzer.cpp
index 5645992..72baa18 100644
--- a/src/v3x/semantic_analyzer.cpp
+++ b/src/v3x/semantic_analyzer.cpp
@@ -578,6 +578,10 @@ std::any SemanticAnalyzer::visit_index(syntactic::Index& node) {
     try {
         auto expression = std::any_cast<values::Value>(visit_expression(*node.expr));
         auto variable_ref_ptr = expression->as_variable_ref();
+        if (variable_ref_ptr == nullptr) {
+            throw error::AnalysisError{ fmt::format(
+                "indexation is not supported for value of type '{}'", values::type_of(expression)) };
+        }
         const auto variable_link = variable_ref_ptr->variable;
         const auto variable_type = variable_link->typ;
         if (variable_type->as_qubit_array() || variable_type->as_bit_array()) {
-- 
2.43.0


From ae91cb379aeff8bf9421c8d3e1d3811e6524c3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:17 +0000
Subject: [PATCH 7/9] fix: a variable whose declaration is rejected must not be
 added to the scope

---
 src/v3x/semantic_analyzer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/v3x/semantic_analyzer.cpp b/src/v3x/semantic_analyzer.cpp
index 72baa18..d0f7516 100644
--- a/src/v3x/semantic_analyzer.cpp
+++ b/src/v3x/semantic_analyzer.cpp
@@ -108,11 +108,11 @@ std::any SemanticAnalyzer::visit_variable(syntactic::Variable& node) {
         ret->annotations = std::any_cast<tree::Any<semantic::AnnotationData>>(visit_annotated(*node.as_annotated()));
         ret->copy_annotation<parser::SourceLocation>(*identifier);
 
-        // Add the variable to the current scope
-        analyzer_.add_variable_to_current_scope(ret);
-
         // Register the variable
         analyzer_.register_variable(identifier->name, tree::make<values::VariableRef>(ret));
+
+        // Add the variable to the current scope
+        analyzer_.add_variable_to_current_scope(ret);
     } catch (error::AnalysisError& err) {
         err.context(node);
         result_.errors.push_back(std::move(err));
-- 
2.43.0


From d2bcb2883a4626d1d91f63f70c3e0e6e4a1baeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:17 +0000
Subject: [PATCH 8/9] fix: an out of range index range must be reported before
 it is expanded

---
 src/v3x/semantic_analyzer.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/v3x/semantic_analyzer.cpp b/src/v3x/semantic_analyzer.cpp
index d0f7516..67adfd5 100644
--- a/src/v3x/semantic_analyzer.cpp
+++ b/src/v3x/semantic_analyzer.cpp
@@ -1,6 +1,6 @@
 #include "libqasm/v3x/semantic_analyzer.hpp"
 
-#include <algorithm>  // any_of, for_each, transform
+#include <algorithm>  // any_of, for_each, max, transform
 #include <any>
 #include <iterator>  // back_inserter
 
@@ -574,6 +574,17 @@ void check_out_of_range(const IndexListT& indices, primitives::Int size) {
     }
 }
 
+/**
+ * Check out of range accesses from any index in an inclusive range to an array of a given size
+ * An inverted range contains no indices
+ */
+void check_out_of_range(primitives::Int first, primitives::Int last, primitives::Int size) {
+    if (first <= last && (first < 0 || last >= size)) {
+        throw error::AnalysisError{ fmt::format(
+            "index {} out of range (size {})", first < 0 ? first : std::max(first, size), size) };
+    }
+}
+
 std::any SemanticAnalyzer::visit_index(syntactic::Index& node) {
     try {
         auto expression = std::any_cast<values::Value>(visit_expression(*node.expr));
@@ -585,6 +596,14 @@ std::any SemanticAnalyzer::visit_index(syntactic::Index& node) {
         const auto variable_link = variable_ref_ptr->variable;
         const auto variable_type = variable_link->typ;
         if (variable_type->as_qubit_array() || variable_type->as_bit_array()) {
+            // Check index ranges before expanding them, since an out of range one can be too big to be expanded
+            for (const auto& index_entry : node.indices->items) {
+                if (auto index_range = index_entry->as_index_range()) {
+                    check_out_of_range(visit_const_int(*index_range->first),
+                        visit_const_int(*index_range->last),
+                        types::size_of(variable_type));
+                }
+            }
             auto indices = std::any_cast<IndexListT>(visit_index_list(*node.indices));
             check_out_of_range(indices, types::size_of(variable_type));
             auto ret = tree::make<values::IndexRef>(variable_link, indices);
-- 
2.43.0


From 0676866abdf82140de33842459b8b3455843eb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:24 +0000
Subject: [PATCH 9/9] fix: decode instruction references in Python under the
 keys the library writes

The C++ serialization of an InstructionRef has the keys 'name' and
'operand_types'; the Python package looked for 'n' and 't' and so decoded
every resolved instruction reference as an unresolved one.
---
 python/module/cqasm/v3x/primitives.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/module/cqasm/v3x/primitives.py b/python/module/cqasm/v3x/primitives.py
index 8e38071..879d11f 100644
--- a/python/module/cqasm/v3x/primitives.py
+++ b/python/module/cqasm/v3x/primitives.py
@@ -35,8 +35,8 @@ def serialize(typ, val):
             return {}
         else:
             return {
-                'n': val.data.name,
-                't': [x.serialize() for x in val.data.types]
+                'name': val.data.name,
+                'operand_types': [x.serialize() for x in val.data.types]
             }
     else:
         assert False
@@ -61,10 +61,10 @@ def deserialize(typ, val):
     elif typ is Version:
         return Version(val['x'])
     elif typ is cqasm.v3x.instruction.InstructionRef:
-        if 'n' in val:
+        if 'name' in val:
             return cqasm.v3x.instruction.InstructionRef(
-                val['n'],
-                [cqasm.v3x.types.Node.deserialize(x) for x in val['t']]
+                val['name'],
+                [cqasm.v3x.types.Node.deserialize(x) for x in val['operand_types']]
             )
         else:
             return cqasm.v3x.instruction.InstructionRef()
-- 
2.43.0

