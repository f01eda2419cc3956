From e86a420fc9df3ad0df4036b88ecf5f7b560f4bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:38 +0000
Subject: [PATCH 01/17] fix: json_encode leaves the bytes of non-ASCII
 characters alone

Where char is signed, bytes >= 0x80 compared <= 0x1f and were written as
\u-0XX, which is not JSON.
---
 src/utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 57eb5a1..eab3723 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -54,10 +54,10 @@ std::string url_encode(const std::string &str) {
  */
 std::string json_encode(const std::string &str) {
     auto ret = std::string{};
-    std::for_each(str.begin(), str.end(), [&ret](char c) {
+    std::for_each(str.begin(), str.end(), [&ret](unsigned char c) {
         ret += (c == '"' || c == '\\' || c <= '\x1f')
-            ? fmt::format("\\u{:04X}", static_cast<int>(c))
-            : std::string{ c };
+            ? fmt::format("\\u{:04X}", static_cast<unsigned int>(c))
+            : std::string{ static_cast<char>(c) };
     });
     return ret;
 }
-- 
2.43.0


From e1c2ac7478c4601c878a88a1c02eaab2d33f9c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:38 +0000
Subject: [PATCH 02/17] fix: indexing a constant is an analysis error

An identifier naming a constant (pi[0]) does not resolve to a variable
reference, and the null pointer was dereferenced.
---
 src/v3x/semantic_analyzer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v3x/semantic_analyzer.cpp b/src/v3x/semantic_analyzer.cpp
index 5645992..bd2d0a5 100644
--- a/src/v3x/semantic_analyzer.cpp
+++ b/src/v3x/semantic_analyzer.cpp
@@ -578,6 +578,10 @@ std::any SemanticAnalyzer::visit_index(syntactic::Index& node) {
     try {
         auto expression = std::any_cast<values::Value>(visit_expression(*node.expr));
         auto variable_ref_ptr = expression->as_variable_ref();
+        if (!variable_ref_ptr) {
+            throw error::AnalysisError{ fmt::format(
+                "indexation is not supported for value of type '{}'", values::type_of(expression)) };
+        }
         const auto variable_link = variable_ref_ptr->variable;
         const auto variable_type = variable_link->typ;
         if (variable_type->as_qubit_array() || variable_type->as_bit_array()) {
-- 
2.43.0


From 4b6fe6a2d12ddf5d5820c9d4010dd65e7dca03a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:15 +0000
Subject: [PATCH 03/17] fix: integer division and modulo by zero are analysis
 errors

Constant expressions such as 1 / 0, 1 % 0 and INT64_MIN / -1 raised SIGFPE.
---
 .../v3x/register_consteval_core_functions.hpp | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/libqasm/v3x/register_consteval_core_functions.hpp b/include/libqasm/v3x/register_consteval_core_functions.hpp
index 9845d22..ecbb789 100644
--- a/include/libqasm/v3x/register_consteval_core_functions.hpp
+++ b/include/libqasm/v3x/register_consteval_core_functions.hpp
@@ -2,8 +2,10 @@
 
 #include <cmath>
 #include <functional>
+#include <limits>
 #include <numeric>
 
+#include "libqasm/error.hpp"
 #include "libqasm/v3x/analyzer.hpp"
 #include "libqasm/v3x/primitives.hpp"
 
@@ -83,8 +85,23 @@ constexpr auto op_sub_ii = bf_cp<values::ConstInt, values::ConstInt, std::minus{
 constexpr auto op_mul_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::multiplies{}>{};
 constexpr auto op_mul_ii = bf_cp<values::ConstInt, values::ConstInt, std::multiplies{}>{};
 constexpr auto op_div_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::divides{}>{};
-constexpr auto op_div_ii = bf_cp<values::ConstInt, values::ConstInt, std::divides{}>{};
-constexpr auto op_mod_ii = bf_cp<values::ConstInt, values::ConstInt, std::modulus{}>{};
+inline constexpr auto div = [](primitives::Int a, primitives::Int b) {
+    if (b == 0) {
+        throw error::AnalysisError{ "division by zero" };
+    }
+    if (a == std::numeric_limits<primitives::Int>::min() && b == -1) {
+        throw error::AnalysisError{ "integer overflow" };
+    }
+    return a / b;
+};
+constexpr auto op_div_ii = bf_cp<values::ConstInt, values::ConstInt, div>{};
+inline constexpr auto mod = [](primitives::Int a, primitives::Int b) {
+    if (b == 0) {
+        throw error::AnalysisError{ "division by zero" };
+    }
+    return (b == -1) ? primitives::Int{ 0 } : a % b;
+};
+constexpr auto op_mod_ii = bf_cp<values::ConstInt, values::ConstInt, mod>{};
 
 inline constexpr auto pow = [](auto base, auto exp) { return std::pow(base, exp); };
 constexpr auto op_pow_ff = bf_cp<values::ConstFloat, values::ConstFloat, pow>{};
-- 
2.43.0


From eb42513838e81d181ed8d72ef6abab5c5d09d3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:15 +0000
Subject: [PATCH 04/17] fix: integer overflow and bad shift counts are analysis
 errors

They were undefined behaviour in the evaluation of constant expressions.
---
 .../v3x/register_consteval_core_functions.hpp | 55 ++++++++++++++++---
 1 file changed, 48 insertions(+), 7 deletions(-)

diff --git a/include/libqasm/v3x/register_consteval_core_functions.hpp b/include/libqasm/v3x/register_consteval_core_functions.hpp
index ecbb789..7749b15 100644
--- a/include/libqasm/v3x/register_consteval_core_functions.hpp
+++ b/include/libqasm/v3x/register_consteval_core_functions.hpp
@@ -75,15 +75,44 @@ struct tf_cp : public f_cp<ParamValue, ParamValue, F> {
 };
 
 constexpr auto op_neg_f = uf_cp<values::ConstFloat, values::ConstFloat, std::negate<double>{}>{};
-constexpr auto op_neg_i = uf_cp<values::ConstInt, values::ConstInt, std::negate{}>{};
+inline constexpr auto neg_i = [](primitives::Int a) {
+    if (a == std::numeric_limits<primitives::Int>::min()) {
+        throw error::AnalysisError{ "integer overflow" };
+    }
+    return -a;
+};
+constexpr auto op_neg_i = uf_cp<values::ConstInt, values::ConstInt, neg_i>{};
 
 constexpr auto op_add_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::plus{}>{};
-constexpr auto op_add_ii = bf_cp<values::ConstInt, values::ConstInt, std::plus{}>{};
+inline constexpr auto add_ii = [](primitives::Int a, primitives::Int b) {
+    if ((b > 0 && a > std::numeric_limits<primitives::Int>::max() - b) ||
+        (b < 0 && a < std::numeric_limits<primitives::Int>::min() - b)) {
+        throw error::AnalysisError{ "integer overflow" };
+    }
+    return a + b;
+};
+constexpr auto op_add_ii = bf_cp<values::ConstInt, values::ConstInt, add_ii>{};
 constexpr auto op_sub_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::minus{}>{};
-constexpr auto op_sub_ii = bf_cp<values::ConstInt, values::ConstInt, std::minus{}>{};
+inline constexpr auto sub_ii = [](primitives::Int a, primitives::Int b) {
+    if ((b < 0 && a > std::numeric_limits<primitives::Int>::max() + b) ||
+        (b > 0 && a < std::numeric_limits<primitives::Int>::min() + b)) {
+        throw error::AnalysisError{ "integer overflow" };
+    }
+    return a - b;
+};
+constexpr auto op_sub_ii = bf_cp<values::ConstInt, values::ConstInt, sub_ii>{};
 
 constexpr auto op_mul_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::multiplies{}>{};
-constexpr auto op_mul_ii = bf_cp<values::ConstInt, values::ConstInt, std::multiplies{}>{};
+inline constexpr auto mul_ii = [](primitives::Int a, primitives::Int b) {
+    constexpr auto min = std::numeric_limits<primitives::Int>::min();
+    constexpr auto max = std::numeric_limits<primitives::Int>::max();
+    if (a != 0 && b != 0 &&
+        ((a > 0) ? ((b > 0) ? a > max / b : b < min / a) : ((b > 0) ? a < min / b : b < max / a))) {
+        throw error::AnalysisError{ "integer overflow" };
+    }
+    return a * b;
+};
+constexpr auto op_mul_ii = bf_cp<values::ConstInt, values::ConstInt, mul_ii>{};
 constexpr auto op_div_ff = bf_cp<values::ConstFloat, values::ConstFloat, std::divides{}>{};
 inline constexpr auto div = [](primitives::Int a, primitives::Int b) {
     if (b == 0) {
@@ -132,9 +161,20 @@ constexpr auto op_band_ii = bf_cp<values::ConstInt, values::ConstInt, std::bit_a
 constexpr auto op_bxor_ii = bf_cp<values::ConstInt, values::ConstInt, std::bit_xor{}>{};
 constexpr auto op_bor_ii = bf_cp<values::ConstInt, values::ConstInt, std::bit_or{}>{};
 
-inline constexpr auto shl = [](primitives::Int a, primitives::Int b) { return a << b; };
+inline constexpr auto check_shift_count = [](primitives::Int count) {
+    if (count < 0 || count > std::numeric_limits<primitives::Int>::digits) {
+        throw error::AnalysisError{ "shift count out of range" };
+    }
+};
+inline constexpr auto shl = [](primitives::Int a, primitives::Int b) {
+    check_shift_count(b);
+    return a << b;
+};
 constexpr auto op_shl_ii = bf_cp<values::ConstInt, values::ConstInt, shl>{};
-inline constexpr auto shr = [](primitives::Int a, primitives::Int b) { return a >> b; };
+inline constexpr auto shr = [](primitives::Int a, primitives::Int b) {
+    check_shift_count(b);
+    return a >> b;
+};
 constexpr auto op_shr_ii = bf_cp<values::ConstInt, values::ConstInt, shr>{};
 
 constexpr auto op_linv_b = uf_cp<values::ConstBool, values::ConstBool, std::logical_not{}>{};
@@ -180,7 +220,8 @@ inline constexpr auto atanh = [](auto num) { return std::atanh(num); };
 constexpr auto fn_atanh_f = uf_cp<values::ConstFloat, values::ConstFloat, atanh>{};
 inline constexpr auto abs = [](auto num) { return std::abs(num); };
 constexpr auto fn_abs_f = uf_cp<values::ConstFloat, values::ConstFloat, abs>{};
-constexpr auto fn_abs_i = uf_cp<values::ConstInt, values::ConstInt, abs>{};
+inline constexpr auto abs_i = [](primitives::Int a) { return (a < 0) ? neg_i(a) : a; };
+constexpr auto fn_abs_i = uf_cp<values::ConstInt, values::ConstInt, abs_i>{};
 
 /**
  * Registers a bunch of consteval core functions.
-- 
2.43.0


From 7c33f5bf0807b809faa5a9e1cd8b50f3067c527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:17 +0000
Subject: [PATCH 05/17] fix: bound the expansion of index ranges by the array
 size

q[0:9223372036854775807] was expanded into a list of nodes before its bounds
were checked, which exhausted memory (and overflowed the loop variable).
---
 include/libqasm/v3x/semantic_analyzer.hpp |  6 +++++
 src/v3x/semantic_analyzer.cpp             | 30 ++++++++++++++++++++---
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/include/libqasm/v3x/semantic_analyzer.hpp b/include/libqasm/v3x/semantic_analyzer.hpp
index 0260b4c..839fbfa 100644
--- a/include/libqasm/v3x/semantic_analyzer.hpp
+++ b/include/libqasm/v3x/semantic_analyzer.hpp
@@ -125,6 +125,12 @@ private:
     values::Value visit_function_call(
         const tree::One<syntactic::Identifier>& name, const tree::Maybe<syntactic::ExpressionList>& arguments);
 
+    /**
+     * Visit the indices of an array of a given size
+     */
+    IndexListT visit_index_list(syntactic::IndexList& node, primitives::Int size);
+    IndexListT visit_index_range(syntactic::IndexRange& node, primitives::Int size);
+
     /**
      * Convenience function for visiting unary operators
      */
diff --git a/src/v3x/semantic_analyzer.cpp b/src/v3x/semantic_analyzer.cpp
index bd2d0a5..f860cc8 100644
--- a/src/v3x/semantic_analyzer.cpp
+++ b/src/v3x/semantic_analyzer.cpp
@@ -3,6 +3,7 @@
 #include <algorithm>  // any_of, for_each, transform
 #include <any>
 #include <iterator>  // back_inserter
+#include <limits>
 
 #include "libqasm/v3x/analyzer.hpp"
 #include "libqasm/v3x/instruction.hpp"
@@ -563,12 +564,19 @@ std::any SemanticAnalyzer::visit_ternary_conditional_expression(syntactic::Terna
             tree::Any<syntactic::Expression>{ node.cond, node.if_true, node.if_false }));
 }
 
+/**
+ * Whether an index is out of range for an array of a given size
+ */
+bool is_out_of_range(primitives::Int index, primitives::Int size) {
+    return index < 0 || index >= size;
+}
+
 /**
  * Check out of range accesses from any index in an input list to an array of a given size
  */
 void check_out_of_range(const IndexListT& indices, primitives::Int size) {
     for (const auto& index_item : indices) {
-        if (index_item->value < 0 || index_item->value >= size) {
+        if (is_out_of_range(index_item->value, size)) {
             throw error::AnalysisError{ fmt::format("index {} out of range (size {})", index_item->value, size) };
         }
     }
@@ -585,7 +593,7 @@ std::any SemanticAnalyzer::visit_index(syntactic::Index& node) {
         const auto variable_link = variable_ref_ptr->variable;
         const auto variable_type = variable_link->typ;
         if (variable_type->as_qubit_array() || variable_type->as_bit_array()) {
-            auto indices = std::any_cast<IndexListT>(visit_index_list(*node.indices));
+            auto indices = visit_index_list(*node.indices, types::size_of(variable_type));
             check_out_of_range(indices, types::size_of(variable_type));
             auto ret = tree::make<values::IndexRef>(variable_link, indices);
             return values::Value{ ret };
@@ -600,6 +608,10 @@ std::any SemanticAnalyzer::visit_index(syntactic::Index& node) {
 }
 
 std::any SemanticAnalyzer::visit_index_list(syntactic::IndexList& index_list_ast) {
+    return visit_index_list(index_list_ast, std::numeric_limits<primitives::Int>::max());
+}
+
+IndexListT SemanticAnalyzer::visit_index_list(syntactic::IndexList& index_list_ast, primitives::Int size) {
     auto ret = IndexListT{};
     for (const auto& index_entry : index_list_ast.items) {
         if (auto index_item = index_entry->as_index_item()) {
@@ -607,7 +619,7 @@ std::any SemanticAnalyzer::visit_index_list(syntactic::IndexList& index_list_ast
             ret.add(std::any_cast<tree::One<IndexT>>(visit_index_item(*index_item)));
         } else if (auto index_range = index_entry->as_index_range()) {
             // Range notation
-            ret.extend(std::any_cast<IndexListT>(visit_index_range(*index_range)));
+            ret.extend(visit_index_range(*index_range, size));
         } else {
             throw std::runtime_error{ "unknown IndexEntry AST node" };
         }
@@ -623,6 +635,15 @@ std::any SemanticAnalyzer::visit_index_item(syntactic::IndexItem& index_item_ast
 }
 
 std::any SemanticAnalyzer::visit_index_range(syntactic::IndexRange& index_range_ast) {
+    return visit_index_range(index_range_ast, std::numeric_limits<primitives::Int>::max());
+}
+
+/**
+ * Expands an index range into a list of indices.
+ * The expansion stops at the first index that is out of range for an array of the given size,
+ * so that its cost is bounded by that size.
+ */
+IndexListT SemanticAnalyzer::visit_index_range(syntactic::IndexRange& index_range_ast, primitives::Int size) {
     auto first = visit_const_int(*index_range_ast.first);
     auto last = visit_const_int(*index_range_ast.last);
     if (first > last) {
@@ -633,6 +654,9 @@ std::any SemanticAnalyzer::visit_index_range(syntactic::IndexRange& index_range_
         auto index_value_sp = tree::make<IndexT>(index);
         index_value_sp->copy_annotation<parser::SourceLocation>(index_range_ast);
         ret.add(index_value_sp);
+        if (is_out_of_range(index, size)) {
+            break;
+        }
     }
     return ret;
 }
-- 
2.43.0


From 115d13808613793d2bb2b1396cd92d99bd698fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 06/17] fix: analyze() leaves the configuration of the analyzer
 alone

Variables and statements of one program stayed in the scope of the analyzer,
and showed up in (or clashed with) those of the next one.
---
 src/v3x/analyzer.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/v3x/analyzer.cpp b/src/v3x/analyzer.cpp
index 74a1371..11f4e41 100644
--- a/src/v3x/analyzer.cpp
+++ b/src/v3x/analyzer.cpp
@@ -85,6 +85,19 @@ void Analyzer::register_default_instructions() {
  * Analyzes the given AST.
  */
 AnalysisResult Analyzer::analyze(syntactic::Program& ast) {
+    // The state of the analyzer is its configuration
+    // Whatever the program adds to the current scope is only there while the program is being analyzed
+    struct ScopeGuard {
+        Scope& scope;
+        Scope saved_scope;
+        explicit ScopeGuard(Scope& s)
+        : scope{ s }
+        , saved_scope{ s } {
+            scope.block = tree::make<semantic::Block>(*saved_scope.block);
+        }
+        ~ScopeGuard() { scope = std::move(saved_scope); }
+    } scope_guard{ current_scope() };
+
     auto analyze_visitor_up = std::make_unique<SemanticAnalyzer>(*this);
     auto result = std::any_cast<AnalysisResult>(analyze_visitor_up->visit_program(ast));
     if (result.errors.empty()) {
-- 
2.43.0


From 32155244471229348ad9f8288528881c22a3bbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:35 +0000
Subject: [PATCH 07/17] fix: Error::what() does not write to the error

It rebuilt a cached string on every call, so that two threads reading the same
error (e.g. that of a shared, const result) raced.
---
 include/libqasm/error.hpp |  7 ++++++-
 src/error.cpp             | 20 ++++++++++++++++----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/libqasm/error.hpp b/include/libqasm/error.hpp
index f7b575d..33e0704 100644
--- a/include/libqasm/error.hpp
+++ b/include/libqasm/error.hpp
@@ -40,13 +40,18 @@ class Error : public std::runtime_error {
      * The error message, decorated with a header and location information.
      * This is the string returned by the what() method.
      */
-    mutable std::string what_message_;
+    std::string what_message_;
 
     /**
      * Attached location in the source file, if any.
      */
     std::shared_ptr<annotations::SourceLocation> location_;
 
+    /**
+     * Updates the message returned by what().
+     */
+    void update_what_message();
+
 public:
     /**
      * Constructs a new error.
diff --git a/src/error.cpp b/src/error.cpp
index 9274c03..4f65ede 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -17,6 +17,7 @@ namespace cqasm::error {
 Error::Error(const std::string& message, const tree::Annotatable* node)
 : std::runtime_error{ !message.empty() ? message : unknown_error_message }
 , message_{ !message.empty() ? message : unknown_error_message } {
+    update_what_message();
     if (node) {
         context(*node);
     }
@@ -28,7 +29,9 @@ Error::Error(const std::string& message, const tree::Annotatable* node)
 Error::Error(const std::string& message, std::shared_ptr<annotations::SourceLocation> location)
 : std::runtime_error{ !message.empty() ? message : unknown_error_message }
 , message_{ !message.empty() ? message : unknown_error_message }
-, location_{ std::move(location) } {}
+, location_{ std::move(location) } {
+    update_what_message();
+}
 
 /**
  * Constructs a new error from a message and all the fields of a source location.
@@ -37,7 +40,9 @@ Error::Error(const std::string& message, const std::optional<std::string>& file_
     const annotations::SourceLocation::Range& range)
 : std::runtime_error{ !message.empty() ? message.c_str() : unknown_error_message }
 , message_{ !message.empty() ? message : unknown_error_message }
-, location_{ std::make_shared<annotations::SourceLocation>(file_name, range) } {}
+, location_{ std::make_shared<annotations::SourceLocation>(file_name, range) } {
+    update_what_message();
+}
 
 /**
  * Sets the context of this error to the SourceLocation annotation of the given node,
@@ -48,17 +53,24 @@ void Error::context(const tree::Annotatable& node) {
     if (!location_) {
         if (auto loc = node.get_annotation_ptr<annotations::SourceLocation>()) {
             location_ = std::make_shared<annotations::SourceLocation>(*loc);
+            update_what_message();
         }
     }
 }
 
 /**
- * Returns the exception-style message.
+ * Updates the message returned by what().
  */
-const char* Error::what() const noexcept {
+void Error::update_what_message() {
     what_message_ = fmt::format("Error{}: {}",
         location_ ? fmt::format(" at {}", *location_) : std::string{},
         !message_.empty() ? message_ : unknown_error_message);
+}
+
+/**
+ * Returns the exception-style message.
+ */
+const char* Error::what() const noexcept {
     return what_message_.c_str();
 }
 
-- 
2.43.0


From 0867019ab1739a4a7974533afc55a634862d750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:44 +0000
Subject: [PATCH 08/17] fix: Python reads and writes instruction references as
 the library does

primitives.cpp serialises them as 'name' and 'operand_types'; the Python module
looked for 'n' and 't', so every instruction_ref came out unresolved.
---
 python/module/cqasm/v3x/primitives.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/module/cqasm/v3x/primitives.py b/python/module/cqasm/v3x/primitives.py
index 8e38071..879d11f 100644
--- a/python/module/cqasm/v3x/primitives.py
+++ b/python/module/cqasm/v3x/primitives.py
@@ -35,8 +35,8 @@ def serialize(typ, val):
             return {}
         else:
             return {
-                'n': val.data.name,
-                't': [x.serialize() for x in val.data.types]
+                'name': val.data.name,
+                'operand_types': [x.serialize() for x in val.data.types]
             }
     else:
         assert False
@@ -61,10 +61,10 @@ def deserialize(typ, val):
     elif typ is Version:
         return Version(val['x'])
     elif typ is cqasm.v3x.instruction.InstructionRef:
-        if 'n' in val:
+        if 'name' in val:
             return cqasm.v3x.instruction.InstructionRef(
-                val['n'],
-                [cqasm.v3x.types.Node.deserialize(x) for x in val['t']]
+                val['name'],
+                [cqasm.v3x.types.Node.deserialize(x) for x in val['operand_types']]
             )
         else:
             return cqasm.v3x.instruction.InstructionRef()
-- 
2.43.0


From 20b707ee4394e98afeeb4a78ab42a41694ba2ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:43 +0000
Subject: [PATCH 09/17] fix: report exceptions of the ANTLR runtime as parse
 errors

A text that is not valid UTF-8 makes ANTLRInputStream throw an
IllegalArgumentException, which derives from std::exception but not from
std::runtime_error, and so left parse_string and parse_file.
---
 src/v3x/parse_helper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v3x/parse_helper.cpp b/src/v3x/parse_helper.cpp
index 016d6c3..b183213 100644
--- a/src/v3x/parse_helper.cpp
+++ b/src/v3x/parse_helper.cpp
@@ -54,7 +54,8 @@ ParseResult ParseHelper::parse() {
         result = scanner_up_->parse();
     } catch (error::AnalysisError& err) {
         result.errors.push_back(std::move(err));
-    } catch (const std::runtime_error& err) {
+    } catch (const std::exception& err) {
+        // ANTLR exceptions, e.g. the one for a text that is not valid UTF-8, are not runtime errors
         result.errors.emplace_back(err.what());
     }
 
-- 
2.43.0


From 71fd6f4f7f27a8d48ab4c1e78ea5408dfd8d0a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:16 +0000
Subject: [PATCH 10/17] fix: a path that cannot be examined is a parse error,
 like a missing file

---
 src/v3x/antlr_scanner.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/v3x/antlr_scanner.cpp b/src/v3x/antlr_scanner.cpp
index ab860ad..9b4de92 100644
--- a/src/v3x/antlr_scanner.cpp
+++ b/src/v3x/antlr_scanner.cpp
@@ -4,6 +4,7 @@
 #include <fmt/format.h>
 
 #include <filesystem>
+#include <system_error>
 
 #include "libqasm/v3x/CqasmLexer.h"
 #include "libqasm/v3x/CqasmParser.h"
@@ -48,7 +49,8 @@ FileAntlrScanner::FileAntlrScanner(std::unique_ptr<BaseSyntacticAnalyzer> build_
     std::unique_ptr<AntlrCustomErrorListener> error_listener_up, std::string file_path)
 : AntlrScanner{ std::move(build_visitor_up), std::move(error_listener_up) }
 , file_path_{ std::move(file_path) } {
-    if (!fs::exists(file_path_) || !fs::is_regular_file(file_path_)) {
+    std::error_code error_code{};
+    if (!fs::is_regular_file(file_path_, error_code)) {
         throw cqasm::error::ParseError{ fmt::format("FileAntlrScanner couldn't access file '{}'.", file_path_) };
     }
 }
-- 
2.43.0


From bdff0ec047a65a9a8df9aba672ec219ab20e082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:21 +0000
Subject: [PATCH 11/17] fix: the Python package writes Str the way the library
 reads it

primitives.serialize wrote a CBOR text string where the C++ library writes and
expects a binary string, so that it could not read a tree written by Python.
---
 python/module/cqasm/v3x/primitives.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/module/cqasm/v3x/primitives.py b/python/module/cqasm/v3x/primitives.py
index 879d11f..da76cbb 100644
--- a/python/module/cqasm/v3x/primitives.py
+++ b/python/module/cqasm/v3x/primitives.py
@@ -21,7 +21,8 @@ def serialize(typ, val):
     if isinstance(typ, str):
         return None
     elif typ is Str:
-        return {'x': val}
+        # The C++ library reads and writes Str as a CBOR binary string, hence a bytes object.
+        return {'x': val.encode('utf-8')}
     elif typ is Bool:
         return {'x': val}
     elif typ is Int:
-- 
2.43.0


From 47f1f9bef0016c02e864b96b6c90e71a7bfe06a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:58 +0000
Subject: [PATCH 12/17] fix: keep the operand types of a Python Instruction
 that are given by an iterator

The loop that checks the types used up a generator, so the instruction was
made without any operand types.
---
 python/module/cqasm/v3x/instruction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/module/cqasm/v3x/instruction.py b/python/module/cqasm/v3x/instruction.py
index 271a075..52b2b04 100644
--- a/python/module/cqasm/v3x/instruction.py
+++ b/python/module/cqasm/v3x/instruction.py
@@ -8,10 +8,10 @@ class Instruction(object):
         if types is None:
             self._types = ()
         else:
-            for typ in types:
+            self._types = tuple(types)
+            for typ in self._types:
                 if not isinstance(typ, cqasm.v3x.types.Node):
                     raise TypeError('types must be an iterable of cqasm.v3x.types.Node if specified')
-            self._types = tuple(types)
 
     @property
     def name(self):
-- 
2.43.0


From 2c4f782f563dec9846ad8aecb9e4db40bb09743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:33 +0000
Subject: [PATCH 13/17] fix: read float literals with a dot in every locale

---
 src/v3x/syntactic_analyzer.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/v3x/syntactic_analyzer.cpp b/src/v3x/syntactic_analyzer.cpp
index b781aa1..e69e1e3 100644
--- a/src/v3x/syntactic_analyzer.cpp
+++ b/src/v3x/syntactic_analyzer.cpp
@@ -3,8 +3,10 @@
 #include <antlr4-runtime.h>
 
 #include <algorithm>  // for_each
+#include <array>
 #include <cassert>  // assert
 #include <cstdint>  // uint32_t
+#include <cstdio>  // snprintf
 #include <regex>
 #include <stdexcept>  // runtime_error
 #include <string>  // stod, stoll
@@ -80,7 +82,16 @@ std::int64_t SyntacticAnalyzer::get_int_value(
 
 double SyntacticAnalyzer::get_float_value(size_t line, size_t char_position_in_line, const std::string& text) const {
     try {
-        return std::stod(text);
+        // std::stod expects the decimal point of the current C locale, whichever that is.
+        std::array<char, 16> buffer{};
+        std::snprintf(buffer.data(), buffer.size(), "%.1f", 0.5);
+        const auto one_half = std::string{ buffer.data() };
+        const auto decimal_point = one_half.substr(1, one_half.size() - 2);
+        auto number = text;
+        if (const auto pos = number.find('.'); pos != std::string::npos) {
+            number.replace(pos, 1, decimal_point);
+        }
+        return std::stod(number);
     } catch (std::out_of_range&) {
         syntaxError(line, char_position_in_line, fmt::format("value '{}' is out of the FLOAT_LITERAL range", text));
     }
-- 
2.43.0


From c0ab9715804e8c047c1bf36a9a0702334411b473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:33 +0000
Subject: [PATCH 14/17] fix: do not let the locale decide which bytes are
 letters

---
 src/utils.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index eab3723..8800b36 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -8,7 +8,6 @@
 
 #include <algorithm>  // for_each
 #include <cassert>  // assert
-#include <cctype>  // isalnum, tolower, toupper
 #include <range/v3/algorithm/equal.hpp>
 #include <range/v3/range/conversion.hpp>  // to
 #include <range/v3/view/transform.hpp>
@@ -16,6 +15,20 @@
 
 namespace cqasm::utils {
 
+namespace {
+
+// The functions in <cctype> depend on the current C locale.
+
+bool is_alnum(unsigned char c) {
+    return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z');
+}
+
+unsigned char to_lower(unsigned char c) {
+    return (c >= 'A' && c <= 'Z') ? static_cast<unsigned char>(c - 'A' + 'a') : c;
+}
+
+}  // namespace
+
 // clang-format off
 
 /**
@@ -23,7 +36,7 @@ namespace cqasm::utils {
 */
 std::string to_lowercase(const std::string &name) {
     return name
-        | ranges::views::transform([](unsigned char c) { return std::tolower(c); })
+        | ranges::views::transform([](unsigned char c) { return to_lower(c); })
         | ranges::to<std::string>();
 }
 
@@ -32,7 +45,7 @@ std::string to_lowercase(const std::string &name) {
  */
 bool equal_case_insensitive(const std::string &lhs, const std::string &rhs) {
     return ranges::equal(lhs, rhs, [](unsigned char l, unsigned char r) {
-        return std::tolower(l) == std::tolower(r);
+        return to_lower(l) == to_lower(r);
     });
 }
 
@@ -42,7 +55,7 @@ bool equal_case_insensitive(const std::string &lhs, const std::string &rhs) {
 std::string url_encode(const std::string &str) {
     auto ret = std::string{};
     std::for_each(str.begin(), str.end(), [&ret](unsigned char c) {
-        ret += (std::isalnum(c) || c == '-' || c == '_' || c == '.' || c == '~')
+        ret += (is_alnum(c) || c == '-' || c == '_' || c == '.' || c == '~')
             ? std::string{ static_cast<char>(c) }
             : fmt::format("%{:02X}", static_cast<unsigned int>(c));
     });
-- 
2.43.0


From fd7c2f427fb1f1ce1aafa8eee0873c0efa50e328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:33 +0000
Subject: [PATCH 15/17] fix: print the numbers of source locations alike in
 every locale

---
 src/annotations.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/annotations.cpp b/src/annotations.cpp
index 73f4817..10d5c47 100644
--- a/src/annotations.cpp
+++ b/src/annotations.cpp
@@ -6,6 +6,8 @@
 
 #include <algorithm>  // min, max
 #include <iostream>
+#include <locale>
+#include <sstream>
 
 #include "libqasm/annotations_constants.hpp"
 
@@ -39,13 +41,17 @@ void SourceLocation::expand_to_include(const Index& index) {
 /**
  * Stream << overload for source location objects.
  */
-std::ostream& operator<<(std::ostream& os, const SourceLocation& object) {
+std::ostream& operator<<(std::ostream& out, const SourceLocation& object) {
+    // Numbers print in the same way whatever the locale and the format flags of the output stream.
+    std::ostringstream os{};
+    os.imbue(std::locale::classic());
+
     // Print file name.
     os << object.file_name.value_or(unknown_file_name);
 
     // Special case for when only the source file name is known.
     if (!object.range.first.line) {
-        return os;
+        return out << os.str();
     }
 
     // Print line number.
@@ -57,7 +63,7 @@ std::ostream& operator<<(std::ostream& os, const SourceLocation& object) {
         if (object.range.last.line > object.range.first.line) {
             os << ".." << object.range.last.line;
         }
-        return os;
+        return out << os.str();
     }
 
     // Print column.
@@ -73,7 +79,7 @@ std::ostream& operator<<(std::ostream& os, const SourceLocation& object) {
         os << ".." << object.range.last.line << ":" << object.range.last.column;
     }
 
-    return os;
+    return out << os.str();
 }
 
 }  // namespace cqasm::annotations
-- 
2.43.0


From 289c2e5aa965fe461d2c90c7b448c535c2d7d32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:16 +0000
Subject: [PATCH 16/17] fix: move the parameter types of an overload instead of
 copying them in noexcept moves

---
 include/libqasm/overload.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libqasm/overload.hpp b/include/libqasm/overload.hpp
index bb5319b..4abdd9e 100644
--- a/include/libqasm/overload.hpp
+++ b/include/libqasm/overload.hpp
@@ -42,7 +42,7 @@ public:
     , param_types{ other.param_types } {}
     Overload(Overload&& other) noexcept
     : tag{ std::move(other.tag) }
-    , param_types{ other.param_types } {}
+    , param_types{ std::move(other.param_types) } {}
     Overload& operator=(const Overload& other) {
         tag = other.tag;
         param_types = other.param_types;
@@ -50,7 +50,7 @@ public:
     }
     Overload& operator=(Overload&& other) noexcept {
         tag = std::move(other.tag);
-        param_types = other.param_types;
+        param_types = std::move(other.param_types);
         return *this;
     }
 
-- 
2.43.0


From 0fab314c2ce5bd0b4960d8fd7b27881367d723de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:16 +0000
Subject: [PATCH 17/17] fix: push a scope only once its block exists

---
 src/v3x/analyzer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/v3x/analyzer.cpp b/src/v3x/analyzer.cpp
index 11f4e41..8e37f0c 100644
--- a/src/v3x/analyzer.cpp
+++ b/src/v3x/analyzer.cpp
@@ -144,8 +144,9 @@ AnalysisResult Analyzer::analyze_string(const std::string& data, const std::opti
  * Pushes a new empty scope to the top of the scope stack.
  */
 void Analyzer::push_scope() {
-    scope_stack_.emplace_front();
-    current_scope().block = tree::make<semantic::Block>();
+    auto scope = Scope{};
+    scope.block = tree::make<semantic::Block>();
+    scope_stack_.push_front(std::move(scope));
 }
 
 /**
-- 
2.43.0

