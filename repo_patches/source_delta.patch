From c02acc4a9193e5c4503e3425d312076e602949b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:58 +0000
Subject: [PATCH 01/83] fix: support the documented integer widths 1 and 128

---
 src/bms/concrete_type.hpp  | 6 +++---
 src/bms/concrete_value.hpp | 3 +--
 src/bms/value.hpp          | 4 ++--
 3 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/bms/concrete_type.hpp b/src/bms/concrete_type.hpp
index fcbcd48..10285d0 100644
--- a/src/bms/concrete_type.hpp
+++ b/src/bms/concrete_type.hpp
@@ -45,7 +45,7 @@ struct Concrete_Type {
     [[nodiscard]] static constexpr Concrete_Type Uint(int width)
     {
         BIT_MANIPULATION_ASSERT(width <= uint_max_width);
-        BIT_MANIPULATION_ASSERT(width > 1);
+        BIT_MANIPULATION_ASSERT(width > 0);
         return Concrete_Type { Type_Type::Uint, width };
     }
 
@@ -59,7 +59,7 @@ public:
         , m_width(width)
     {
         BIT_MANIPULATION_ASSERT(type == Type_Type::Uint || width == 0);
-        BIT_MANIPULATION_ASSERT(type != Type_Type::Uint || (width > 0 && width < uint_max_width));
+        BIT_MANIPULATION_ASSERT(type != Type_Type::Uint || (width > 0 && width <= uint_max_width));
     }
 
     [[nodiscard]] friend constexpr bool operator<=>(Concrete_Type, Concrete_Type) = default;
@@ -97,7 +97,7 @@ public:
         case Type_Type::Int: return Big_Uint(-1);
         case Type_Type::Uint:
             return m_width == std::numeric_limits<Big_Uint>::digits
-                ? 0
+                ? Big_Uint(-1)
                 : Big_Uint(Big_Uint(1) << m_width) - 1;
         }
         BIT_MANIPULATION_ASSERT_UNREACHABLE("Unknown type.");
diff --git a/src/bms/concrete_value.hpp b/src/bms/concrete_value.hpp
index 9849edd..43688cb 100644
--- a/src/bms/concrete_value.hpp
+++ b/src/bms/concrete_value.hpp
@@ -62,8 +62,7 @@ public:
     constexpr Concrete_Value transform_uint(Big_Uint f(Big_Uint)) const
     {
         BIT_MANIPULATION_ASSERT(type.is_uint());
-        const auto mask = Big_Uint(Big_Uint(1) << type.width()) - 1;
-        return { type, Big_Int(Big_Uint(f(Big_Uint(int_value))) & mask) };
+        return { type, Big_Int(Big_Uint(f(Big_Uint(int_value))) & type.get_mask()) };
     }
 };
 
diff --git a/src/bms/value.hpp b/src/bms/value.hpp
index 73d9238..f9e72df 100644
--- a/src/bms/value.hpp
+++ b/src/bms/value.hpp
@@ -103,8 +103,8 @@ public:
     constexpr Value and_then_uint(F f) const
     {
         if (is_known()) {
-            const auto mask = Big_Uint(Big_Uint(1) << m_type.width()) - 1;
-            return Value { m_type, Big_Int(Big_Uint(f(Big_Uint(m_int_value))) & mask) };
+            return Value { m_type,
+                           Big_Int(Big_Uint(f(Big_Uint(m_int_value))) & m_type.get_mask()) };
         }
         return *this;
     }
-- 
2.43.0


From 12621cf28b7dcca66332f6e8c2f18c8b1b387dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:58 +0000
Subject: [PATCH 02/83] fix: evaluate equality comparison of Bool operands

---
 src/bms/evaluation/operations.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 4013e27..7c9dd02 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -398,6 +398,12 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
         if (op == logical_or) {
             return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value || rhs.int_value) };
         }
+        if (op == equals) {
+            return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value == rhs.int_value) };
+        }
+        if (op == not_equals) {
+            return Concrete_Value { Concrete_Type::Bool, Big_Int(lhs.int_value != rhs.int_value) };
+        }
         BIT_MANIPULATION_ASSERT_UNREACHABLE("Unsupported Bool operation not caught by type-check.");
     }
 
-- 
2.43.0


From 6d1ed59f048edbedddefb97349c3385d61383360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:58 +0000
Subject: [PATCH 03/83] fix: divide Uint operands as unsigned integers

---
 src/bms/evaluation/operations.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 7c9dd02..c2075b7 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -375,6 +375,11 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
             if (rhs.int_value == 0) {
                 return Evaluation_Error_Code::division_by_zero;
             }
+            if (lhs.type.is_uint()) {
+                return op == Expression_Type::division
+                    ? transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x / y; })
+                    : transform_uint([](Big_Uint x, Big_Uint y) -> Big_Uint { return x % y; });
+            }
             return op == Expression_Type::division
                 ? Concrete_Value { lhs.type, lhs.int_value / rhs.int_value }
                 : Concrete_Value { lhs.type, lhs.int_value % rhs.int_value };
-- 
2.43.0


From 6df5ef9d3ce75464e4cf5924db938f2492f596e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:58 +0000
Subject: [PATCH 04/83] fix: report shifts by the operand width or more

---
 src/bms/evaluation/operations.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index c2075b7..511879e 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -384,6 +384,13 @@ evaluate_binary_operator(Concrete_Value lhs, Expression_Type op, Concrete_Value
                 ? Concrete_Value { lhs.type, lhs.int_value / rhs.int_value }
                 : Concrete_Value { lhs.type, lhs.int_value % rhs.int_value };
         }
+        case Expression_Type::shift_left:
+        case Expression_Type::shift_right: {
+            if (Big_Uint(rhs.int_value) >= Big_Uint(lhs.type.width())) {
+                return Evaluation_Error_Code::shift_too_much;
+            }
+            break;
+        }
         // Relational comparisons don't simply check for bit-equality, so they cannot be handled
         // commonly for both.
         case Expression_Type::equals: //
-- 
2.43.0


From 9ffc4713f612c9f7ce90f801e665d5969bac42e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:58 +0000
Subject: [PATCH 05/83] fix: do not assert when dividing or shifting an unknown
 Uint by a known operand

---
 src/bms/evaluation/operations.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 511879e..5b07c62 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -539,11 +539,12 @@ evaluate_binary_operator(Value lhs, Expression_Type op, Value rhs)
     // illegal no matter what the other operand is, such as division by zero.
     if (rhs) {
         using enum Expression_Type;
-        if ((op == division || op == remainder) && rhs.as_int() == 0) {
+        const Big_Int rhs_value = rhs.concrete_value().int_value;
+        if ((op == division || op == remainder) && rhs_value == 0) {
             return Evaluation_Error_Code::division_by_zero;
         }
         if ((op == shift_left || op == shift_right)
-            && (rhs.as_int() < 0 || rhs.as_int() >= lhs.get_type().width())) {
+            && Big_Uint(rhs_value) >= Big_Uint(lhs.get_type().width())) {
             return Evaluation_Error_Code::shift_too_much;
         }
     }
-- 
2.43.0


From 63c9853920d51691c4552efe03d26d2ca5a990cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:58 +0000
Subject: [PATCH 06/83] fix: do not classify conversions as binary operators

---
 src/bms/expression_type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/expression_type.hpp b/src/bms/expression_type.hpp
index 50d4287..9ed8449 100644
--- a/src/bms/expression_type.hpp
+++ b/src/bms/expression_type.hpp
@@ -144,7 +144,7 @@ enum struct Expression_Type : Default_Underlying {
 
 [[nodiscard]] constexpr bool is_binary(Expression_Type type) noexcept
 {
-    return Default_Underlying(type) >= Default_Underlying(Expression_Type::conversion)
+    return Default_Underlying(type) >= Default_Underlying(Expression_Type::logical_and)
         && Default_Underlying(type) <= Default_Underlying(Expression_Type::bitwise_xor);
 }
 
-- 
2.43.0


From dab918a34d1520a0983848ad86d44b8a8eb909d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:10 +0000
Subject: [PATCH 07/83] fix: reject lossless conversion of negative Int to
 Uint(128)

---
 src/bms/concrete_value.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/concrete_value.hpp b/src/bms/concrete_value.hpp
index 43688cb..dc9bb16 100644
--- a/src/bms/concrete_value.hpp
+++ b/src/bms/concrete_value.hpp
@@ -51,7 +51,7 @@ public:
         if (other.is_uint()) {
             const auto truncated = Big_Uint(int_value) & other.get_mask();
             if (conversion == Conversion_Type::lossless_numeric
-                && truncated != Big_Uint(int_value)) {
+                && (int_value < 0 || truncated != Big_Uint(int_value))) {
                 return Evaluation_Error_Code::int_to_uint_range_error;
             }
             return Concrete_Value { other, Big_Int(truncated) };
-- 
2.43.0


From a810d8d22cabd1bbe0a38958c717ddb92f0fc546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:47 +0000
Subject: [PATCH 08/83] fix: check the bounds of taken jumps and of calls in
 the virtual machine

---
 src/bms/vm/vm.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/bms/vm/vm.cpp b/src/bms/vm/vm.cpp
index d8c66c3..bcec740 100644
--- a/src/bms/vm/vm.cpp
+++ b/src/bms/vm/vm.cpp
@@ -59,12 +59,11 @@ struct Cycle_Impl {
 
     Result<void, Execution_Error> operator()(const ins::Relative_Jump& jump)
     {
-        if (Signed_Size(self.m_instruction_counter) + jump.offset + 1
-            >= Signed_Size(self.m_instructions.size())) {
+        const Signed_Size target = Signed_Size(self.m_instruction_counter) + jump.offset + 1;
+        if (target < 0 || target >= Signed_Size(self.m_instructions.size())) {
             return Execution_Error { Execution_Error_Code::jump_out_of_program, jump.debug_info };
         }
-        self.m_instruction_counter
-            = Size(Signed_Size(self.m_instruction_counter) + jump.offset + 1);
+        self.m_instruction_counter = Size(target);
         return {};
     }
 
@@ -78,14 +77,16 @@ struct Cycle_Impl {
         if (actual.type != Concrete_Type::Bool) {
             return Execution_Error { Execution_Error_Code::jump_if_not_bool, jump_if.debug_info };
         }
-        if (Signed_Size(self.m_instruction_counter) + jump_if.offset + 1
-            >= Signed_Size(self.m_instructions.size())) {
+        if (jump_if.expected != bool(actual.int_value)) {
+            ++self.m_instruction_counter;
+            return {};
+        }
+        const Signed_Size target = Signed_Size(self.m_instruction_counter) + jump_if.offset + 1;
+        if (target < 0 || target >= Signed_Size(self.m_instructions.size())) {
             return Execution_Error { Execution_Error_Code::jump_out_of_program,
                                      jump_if.debug_info };
         }
-        self.m_instruction_counter
-            = Size(Signed_Size(self.m_instruction_counter + 1)
-                   + (jump_if.expected == bool(actual.int_value) ? jump_if.offset : 0));
+        self.m_instruction_counter = Size(target);
         return {};
     }
 
@@ -162,7 +163,7 @@ struct Cycle_Impl {
 
     Result<void, Execution_Error> operator()(const ins::Call& call)
     {
-        if (call.address > self.m_instructions.size()) {
+        if (call.address >= self.m_instructions.size()) {
             return Execution_Error { Execution_Error_Code::call_out_of_program, call.debug_info };
         }
         const auto return_address = Concrete_Value::Int(Big_Int(self.m_instruction_counter + 1));
-- 
2.43.0


From 1dc12eaaf2e1162612405a3286f8ad48636356f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:47 +0000
Subject: [PATCH 09/83] fix: do not report the comparison of an earlier
 assertion

---
 src/bms/vm/vm.cpp | 1 +
 src/bms/vm/vm.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/bms/vm/vm.cpp b/src/bms/vm/vm.cpp
index bcec740..c9cb54a 100644
--- a/src/bms/vm/vm.cpp
+++ b/src/bms/vm/vm.cpp
@@ -189,6 +189,7 @@ struct Cycle_Impl {
             error.comparison_failure = self.m_comparison_failure_for_assert;
             return error;
         }
+        self.m_comparison_failure_for_assert.reset();
         self.m_stack.resize(self.m_stack.size() - params);
         self.m_stack.push_back(*result);
         ++self.m_instruction_counter;
diff --git a/src/bms/vm/vm.hpp b/src/bms/vm/vm.hpp
index 9b01e80..2497b6f 100644
--- a/src/bms/vm/vm.hpp
+++ b/src/bms/vm/vm.hpp
@@ -97,6 +97,7 @@ public:
         m_function_frame_stack.clear();
         m_stack.clear();
         m_instruction_counter = 0;
+        m_comparison_failure_for_assert.reset();
     }
 
     void clear()
-- 
2.43.0


From e5ead8799e372719112d44bd0990d65f7a258c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:47 +0000
Subject: [PATCH 10/83] fix: report running past the last instruction as an
 execution error

---
 src/bms/vm/vm.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bms/vm/vm.cpp b/src/bms/vm/vm.cpp
index c9cb54a..8c34b68 100644
--- a/src/bms/vm/vm.cpp
+++ b/src/bms/vm/vm.cpp
@@ -210,7 +210,10 @@ struct Cycle_Impl {
 Result<void, Execution_Error> Virtual_Machine::cycle()
 {
     const auto counter = m_instruction_counter;
-    const Instruction& next = m_instructions.at(counter);
+    if (counter >= m_instructions.size()) {
+        return Execution_Error { Execution_Error_Code::jump_out_of_program, Debug_Info {} };
+    }
+    const Instruction& next = m_instructions[counter];
     auto result = visit(Cycle_Impl { *this }, next);
     if (!result) {
         return result;
-- 
2.43.0


From fc7b3daee0f31a0fc1e00f581f5eae8bce1c2adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:47 +0000
Subject: [PATCH 11/83] fix: keep the code of execution errors in analysis
 errors

---
 src/bms/analysis_error.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/analysis_error.hpp b/src/bms/analysis_error.hpp
index d532806..88b7c3e 100644
--- a/src/bms/analysis_error.hpp
+++ b/src/bms/analysis_error.hpp
@@ -332,7 +332,7 @@ public:
             m_code.evaluation = error.evaluation_error;
         }
         else {
-            m_code = Analysis_Error_Code::execution_error;
+            m_code = error.code;
         }
         if (error.comparison_failure) {
             m_extras = *error.comparison_failure;
-- 
2.43.0


From 18250786826ac28b45aabb3636ff0038e09df210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:12 +0000
Subject: [PATCH 12/83] fix: convert initializers, assigned values and operands
 of if-expressions in generated code

---
 src/bms/vm/codegen.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/bms/vm/codegen.cpp b/src/bms/vm/codegen.cpp
index 90a5e43..1bf7e74 100644
--- a/src/bms/vm/codegen.cpp
+++ b/src/bms/vm/codegen.cpp
@@ -66,6 +66,16 @@ private:
         return visit([this, h](const auto& node) { return generate_code(h, node); }, *h);
     }
 
+    /// @brief Converts the value of `expression`, which is on top of the stack, to the given type.
+    void emit_conversion(const ast::Some_Node* h,
+                         const ast::Some_Node* expression,
+                         const Concrete_Type& type)
+    {
+        if (get_const_value(*expression).value().get_type() != type) {
+            out.push_back(ins::Convert { { h }, type });
+        }
+    }
+
     Result<void, Analysis_Error> generate_code(const ast::Some_Node*, const ast::Program&)
     {
         BIT_MANIPULATION_ASSERT_UNREACHABLE("codegen starts at the function level");
@@ -144,6 +154,7 @@ private:
         if (!init) {
             return init;
         }
+        emit_conversion(h, node.get_initializer_node(), node.const_value()->get_type());
         out.push_back(ins::Store { { h }, h });
         return init;
     }
@@ -288,6 +299,7 @@ private:
         if (!result) {
             return result;
         }
+        emit_conversion(h, node.get_expression_node(), node.const_value()->get_type());
         out.push_back(ins::Store { { h }, to_target(node.lookup_result.value()) });
         return {};
     }
@@ -352,6 +364,7 @@ private:
             restore();
             return left;
         }
+        emit_conversion(h, node.get_left_node(), node.const_value()->get_type());
         get<ins::Relative_Jump_If>(out[blank_jump_to_right_index]).offset
             = Signed_Size(out.size() - size_before_left + 1);
 
@@ -363,6 +376,7 @@ private:
             restore();
             return right;
         }
+        emit_conversion(h, node.get_right_node(), node.const_value()->get_type());
         get<ins::Relative_Jump>(out[blank_jump_past_right_index]).offset
             = Signed_Size(out.size() - size_before_right);
 
-- 
2.43.0


From 947aadb69090d7c9a4e99c1491d0e80ded1a3b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 13/83] fix: do not read the types of builtin function
 arguments from expired temporaries

---
 src/bms/evaluation/operations.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bms/evaluation/operations.cpp b/src/bms/evaluation/operations.cpp
index 5b07c62..3911b78 100644
--- a/src/bms/evaluation/operations.cpp
+++ b/src/bms/evaluation/operations.cpp
@@ -121,8 +121,9 @@ unsafe_evaluate_builtin_function_impl(Builtin_Function f, Iter begin, Iter end)
     static_assert(std::random_access_iterator<Iter>);
     static_assert(std::same_as<std::iter_value_t<Iter>, Concrete_Value>);
 
-    const auto types
-        = std::ranges::subrange(begin, end) | std::views::transform(&Concrete_Value::type);
+    // The iterators may yield temporaries, so the type must not be obtained by reference.
+    const auto types = std::ranges::subrange(begin, end)
+        | std::views::transform([](const Concrete_Value& v) { return v.type; });
 
     Result<Concrete_Type, Analysis_Error_Code> type_result = check_builtin_function_impl(f, types);
     if (!type_result) {
-- 
2.43.0


From d7e935319da1a74d92c1813f792666acd1d55f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:14 +0000
Subject: [PATCH 14/83] fix: reject failing builtin calls only in constant
 expressions

---
 src/bms/analyze.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index d969bfc..3cb1128 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -783,15 +783,13 @@ private:
                     .build();
             }
             auto eval_result = evaluate_builtin_function(*builtin, arg_values);
-            if (!eval_result) {
+            if (!eval_result && context == Expression_Context::constant) {
                 return Analysis_Error_Builder { eval_result.error() }
                     .fail(handle)
                     .cause(*builtin)
                     .build();
             }
-            BIT_MANIPULATION_ASSERT(context != Expression_Context::constant
-                                    || eval_result.has_value());
-            node.const_value() = *eval_result;
+            node.const_value() = eval_result ? *eval_result : Value::unknown_of_type(*type_result);
             return {};
         }
 
-- 
2.43.0


From ee581836657dd886af456b6014aba978add547f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:30 +0000
Subject: [PATCH 15/83] fix: report conversions that fail in constant
 expressions

---
 src/bms/analyze.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 3cb1128..c6fd84a 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -605,6 +605,12 @@ private:
 
         const Result<Value, Evaluation_Error_Code> eval_result
             = evaluate_conversion(*expression_value, *type);
+        if (!eval_result && context == Expression_Context::constant) {
+            return Analysis_Error_Builder { eval_result.error() }
+                .fail(handle)
+                .cause(node.get_expression_node())
+                .build();
+        }
 
         node.const_value() = eval_result ? *eval_result : Value::unknown_of_type(*type);
         return {};
@@ -656,9 +662,9 @@ private:
         const Result<Value, Evaluation_Error_Code> eval_result
             = evaluate_if_expression(*left_value, *condition_value, *right_value);
 
-        // Type analysis has already succeeded, and for context expressions, the condition is known.
-        // Therefore, it should be impossible for an evaluation to fail.
-        BIT_MANIPULATION_ASSERT(context != Expression_Context::constant || eval_result.has_value());
+        if (!eval_result && context == Expression_Context::constant) {
+            return Analysis_Error_Builder { eval_result.error() }.fail(handle).build();
+        }
 
         node.const_value() = eval_result ? *eval_result : Value::unknown_of_type(*type_result);
         return {};
-- 
2.43.0


From b7cc2399adf9eb33918e2586838795ea2ed91dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 16/83] fix: instantiate generic functions which contain absent
 children or use global entities

---
 src/bms/instantiate.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bms/instantiate.cpp b/src/bms/instantiate.cpp
index e8b3ec4..20f7d4e 100644
--- a/src/bms/instantiate.cpp
+++ b/src/bms/instantiate.cpp
@@ -154,7 +154,9 @@ private:
         m_remap.emplace(h, result);
         for (ast::Some_Node*& child : get_children(*result)) {
             child = deep_copy_for_instantiation(child);
-            set_parent(*child, *result);
+            if (child) {
+                set_parent(*child, *result);
+            }
         }
         return result;
     }
@@ -188,7 +190,10 @@ private:
 
         void operator()(const ast::Some_Node* looked_up_node)
         {
-            target = self.m_remap.at(looked_up_node);
+            // Entities outside the instantiated function, such as global constants, are not copied.
+            if (auto it = self.m_remap.find(looked_up_node); it != self.m_remap.end()) {
+                target = it->second;
+            }
         }
 
         void operator()(const Parameter* looked_up_parameter)
-- 
2.43.0


From 857f503804c189b7d67967f2bf9d8bd3778324b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:25 +0000
Subject: [PATCH 17/83] fix: accept widths of type Uint

---
 src/bms/analyze.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index c6fd84a..13c5dea 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -225,7 +225,7 @@ private:
                 .fail(node.get_width_node())
                 .build();
         }
-        const Big_Int folded_width = width->as_int();
+        const Big_Int folded_width = width->concrete_value().int_value;
         if (folded_width <= 0 || folded_width > uint_max_width) {
             return Analysis_Error_Builder { Analysis_Error_Code::width_invalid }
                 .fail(node.get_width_node())
-- 
2.43.0


From 1b5ab5ed2edae65cd501a6031b82b6477ae09f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:48 +0000
Subject: [PATCH 18/83] fix: diagnose calls, assignments and uses of names that
 do not denote a variable

---
 src/bms/analyze.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 13c5dea..90add83 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -519,6 +519,12 @@ private:
                 .cause(*node.lookup_result)
                 .build();
         }
+        if (holds_alternative<Builtin_Function>(node.lookup_result)) {
+            return Analysis_Error_Builder { Analysis_Error_Code::assigning_function }
+                .fail(handle)
+                .cause(*node.lookup_result)
+                .build();
+        }
         ast::Some_Node* looked_up_node = get<ast::Some_Node*>(node.lookup_result);
         if (holds_alternative<ast::Function>(*looked_up_node)) {
             return Analysis_Error_Builder { Analysis_Error_Code::assigning_function }
@@ -534,6 +540,14 @@ private:
                 .build();
         }
 
+        // Besides functions and variables, the name may only refer to a bit-generic parameter.
+        if (!holds_alternative<ast::Let>(*looked_up_node)) {
+            return Analysis_Error_Builder { Analysis_Error_Code::assigning_parameter }
+                .fail(handle)
+                .cause(looked_up_node)
+                .build();
+        }
+
         auto& looked_up_var = get<ast::Let>(*looked_up_node);
         if (auto r = analyze_types(node.get_expression_node(), level, Expression_Context::normal);
             !r) {
@@ -807,7 +821,7 @@ private:
         if (!function) {
             return Analysis_Error_Builder { Analysis_Error_Code::call_non_function }
                 .fail(handle)
-                .cause(*looked_up_node)
+                .cause(node.lookup_result.value())
                 .build();
         }
 
@@ -1006,6 +1020,12 @@ private:
             node.const_value() = (*parameter)->get_type().const_value();
             return {};
         }
+        if (holds_alternative<Builtin_Function>(node.lookup_result)) {
+            return Analysis_Error_Builder { Analysis_Error_Code::function_in_expression }
+                .fail(handle)
+                .cause(node.lookup_result.value())
+                .build();
+        }
         auto looked_up_node = get<ast::Some_Node*>(node.lookup_result);
         return analyze_types_for_id_looking_up_node(handle, node, looked_up_node, level, context);
     }
-- 
2.43.0


From 909026304949e8fda359641b63e095b58b72532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:56 +0000
Subject: [PATCH 19/83] fix: diagnose calls to undefined functions in parameter
 widths

---
 src/bms/analyze_name_lookup.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/bms/analyze_name_lookup.cpp b/src/bms/analyze_name_lookup.cpp
index 37ca9ff..d712379 100644
--- a/src/bms/analyze_name_lookup.cpp
+++ b/src/bms/analyze_name_lookup.cpp
@@ -203,8 +203,6 @@ private:
             return {};
         }
         if (auto r = analyze_symbols_local(g, table); !r) {
-            BIT_MANIPULATION_ASSERT(r.error().code()
-                                    == Analysis_Error_Code::reference_to_undefined_variable);
             if (auto* id = get_if<ast::Id_Expression>(g)) {
                 // TODO: now that lookup results can be more than just an AST node,
                 //       we can get rid of this dirty hack and properly emplace a lookup result
-- 
2.43.0


From fa7bac5c99476a072f934e126fb3dcf980781469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:48 +0000
Subject: [PATCH 20/83] fix: accept the operator >=

---
 src/bms/ast.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bms/ast.cpp b/src/bms/ast.cpp
index 35c9fba..27f3c3f 100644
--- a/src/bms/ast.cpp
+++ b/src/bms/ast.cpp
@@ -25,6 +25,7 @@ namespace {
     case less_than: return Expression_Type::less_than;
     case greater_than: return Expression_Type::greater_than;
     case less_or_equal: return Expression_Type::less_or_equal;
+    case greater_or_equal: return Expression_Type::greater_or_equal;
     case plus: return Expression_Type::binary_plus;
     case minus: return Expression_Type::binary_minus;
     case multiplication: return Expression_Type::multiplication;
-- 
2.43.0


From bb1e29493cf935949a912fc75e39b3282a3185a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:48 +0000
Subject: [PATCH 21/83] fix: determine the type of recursive calls from the
 return type

---
 src/bms/analyze.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 90add83..106545f 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -928,7 +928,9 @@ private:
         }
 
         BIT_MANIPULATION_ASSERT(function->analysis_so_far >= inner_level);
-        Concrete_Type return_type = function->const_value()->get_type();
+        // The value of the function itself is only available once its body has been analyzed,
+        // which isn't the case if this call is recursive.
+        const Concrete_Type return_type = function->get_return_type().concrete_type().value();
 
         // 6. Check whether the function can be called with the given arguments and obtain
         //    concrete values for the parameters if need be.
-- 
2.43.0


From a022364ec436d230ac3dc4db084d939875516ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:01 +0000
Subject: [PATCH 22/83] fix: let short-circuited operators in constant
 expressions have the value of their left operand

---
 src/bms/analyze.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 106545f..4d61a4b 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -697,6 +697,7 @@ private:
         BIT_MANIPULATION_ASSERT(context != Expression_Context::constant
                                 || (left_value && left_value->is_known()));
 
+        bool is_short_circuited = false;
         {
             // For short-circuiting operators like && and ||, if we are in a constant expression,
             // we should not evaluate the rest as a constant expression if short-circuiting takes
@@ -718,6 +719,7 @@ private:
                 const bool circuit_breaker = node.get_op() == Token_Type::logical_or;
                 if (left_value->as_bool() == circuit_breaker) {
                     context = Expression_Context::normal;
+                    is_short_circuited = true;
                 }
             }
         }
@@ -735,6 +737,11 @@ private:
             return Analysis_Error_Builder { type_result.error() }.fail(handle).build();
         }
 
+        if (is_short_circuited) {
+            // The right operand may be unknown, but it has no influence on the result.
+            node.const_value() = left_value;
+            return {};
+        }
         const Result<Value, Evaluation_Error_Code> eval_result
             = evaluate_binary_operator(*left_value, node.get_expression_type(), *right_value);
         if (!eval_result && context == Expression_Context::constant) {
-- 
2.43.0


From 971c0b7ba3ba606a886b45678d751dab3ea7348a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:53 +0000
Subject: [PATCH 23/83] fix: give the tokens ! and && their lengths

---
 src/bms/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bms/util.cpp b/src/bms/util.cpp
index 187a841..ca431c1 100644
--- a/src/bms/util.cpp
+++ b/src/bms/util.cpp
@@ -228,6 +228,7 @@ namespace bit_manipulation::bms {
     case bitwise_or:
     case bitwise_not:
     case bitwise_xor:
+    case logical_not:
     case dot:
     case colon:
     case comma:
@@ -240,14 +241,13 @@ namespace bit_manipulation::bms {
     case greater_or_equal:
     case shift_left:
     case shift_right:
+    case logical_and:
     case logical_or:
     case right_arrow:
     case double_right_arrow:
     case keyword_as:
     case keyword_if: return 2;
 
-    case logical_and:
-    case logical_not:
     case keyword_let:
     case keyword_int: return 3;
 
-- 
2.43.0


From a066772675843fbdc37824acb46a10e6ac3cf493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:05 +0000
Subject: [PATCH 24/83] fix: recognize the annotation @inline

The annotation type is called inline_ in C++ only because inline is a keyword; its name in
programs is @inline.
---
 src/bms/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/util.cpp b/src/bms/util.cpp
index ca431c1..9be74a2 100644
--- a/src/bms/util.cpp
+++ b/src/bms/util.cpp
@@ -509,7 +509,7 @@ namespace bit_manipulation::bms {
     using enum Annotation_Type;
     switch (type) {
         BIT_MANIPULATION_ENUM_STRING_CASE(immutable);
-        BIT_MANIPULATION_ENUM_STRING_CASE(inline_);
+    case inline_: return "inline";
         BIT_MANIPULATION_ENUM_STRING_CASE(loop_variable);
         BIT_MANIPULATION_ENUM_STRING_CASE(loop_step);
         BIT_MANIPULATION_ENUM_STRING_CASE(unroll);
-- 
2.43.0


From 133ce48ffd438368292e29f00c6ca342a0113633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:36 +0000
Subject: [PATCH 25/83] fix: report malformed annotation arguments instead of
 using a missing list

---
 src/bms/parsing/parse.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 39485bd..e383d02 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -859,6 +859,9 @@ private:
             }
             return r;
         }();
+        if (!arguments) {
+            return arguments.error();
+        }
         return astp::Some_Node { astp::Annotation { at->pos, m_program.extract(id->pos),
                                                     std::move(*arguments) } };
     }
-- 
2.43.0


From 2ff360501df58fb10415ea789f766c8fdc1ec10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:36 +0000
Subject: [PATCH 26/83] fix: detect every overflow of the product in integer
 literals

A wrapped product can be greater than the previous value, so that too large literals were accepted
with a wrong value.
---
 src/common/parse.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/parse.cpp b/src/common/parse.cpp
index c6623f4..96c0b5d 100644
--- a/src/common/parse.cpp
+++ b/src/common/parse.cpp
@@ -13,9 +13,11 @@ static_assert(are_hex_digits_ascii);
 
 constexpr bool safe_mul(Big_Uint& x, Big_Uint y)
 {
-    auto old = x;
+    if (y != 0 && x > Big_Uint(-1) / y) {
+        return false;
+    }
     x *= y;
-    return x >= old;
+    return true;
 }
 
 constexpr bool safe_add(Big_Uint& x, Big_Uint y)
-- 
2.43.0


From d02aaeafd5f7439fd9d2905c4ed091ac9a660f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:36 +0000
Subject: [PATCH 27/83] fix: parse uppercase hexadecimal digits, which literals
 may consist of

---
 src/common/parse.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common/parse.cpp b/src/common/parse.cpp
index 96c0b5d..ad45039 100644
--- a/src/common/parse.cpp
+++ b/src/common/parse.cpp
@@ -74,6 +74,11 @@ constexpr std::optional<Big_Uint> parse_uinteger_digits(std::string_view str, Bi
                 return {};
             }
         }
+        else if (c >= 'A' && c <= 'F') {
+            if (!safe_add(result, Big_Uint(10 + c - 'A'))) {
+                return {};
+            }
+        }
         else {
             return {};
         }
-- 
2.43.0


From 0455b516fdafdfdc850e5ffd8e48628d51f11143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:56 +0000
Subject: [PATCH 28/83] fix: reject integer literals which do not fit into Int

They were accepted and wrapped around to negative values.
---
 src/common/parse.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/common/parse.cpp b/src/common/parse.cpp
index ad45039..47ec4f9 100644
--- a/src/common/parse.cpp
+++ b/src/common/parse.cpp
@@ -213,14 +213,21 @@ std::optional<Big_Int> parse_integer_literal(std::string_view str) noexcept
     if (str.empty()) {
         return std::nullopt;
     }
+    constexpr Big_Uint max_value = Big_Uint(-1) >> 1;
     if (str.starts_with("-")) {
         if (auto positive = parse_uinteger_literal(str.substr(1))) {
+            if (*positive > max_value + 1) {
+                return std::nullopt;
+            }
             // Negating as Uint is intentional and prevents overflow.
             return static_cast<Big_Int>(-*positive);
         }
         return std::nullopt;
     }
     if (auto result = parse_uinteger_literal(str)) {
+        if (*result > max_value) {
+            return std::nullopt;
+        }
         return static_cast<Big_Int>(*result);
     }
     return std::nullopt;
-- 
2.43.0


From ec06e498ef147cb686e44c023cddd0d822007b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:39 +0000
Subject: [PATCH 29/83] fix: tokenize block comments at the end of a file

---
 src/bms/tokenization/tokenize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/tokenization/tokenize.cpp b/src/bms/tokenization/tokenize.cpp
index 3f5cda4..7652100 100644
--- a/src/bms/tokenization/tokenize.cpp
+++ b/src/bms/tokenization/tokenize.cpp
@@ -187,7 +187,7 @@ struct Tokenizer {
 
     void advance_position_by(Size length)
     {
-        BIT_MANIPULATION_ASSERT(pos.begin + length < m_source.length());
+        BIT_MANIPULATION_ASSERT(pos.begin + length <= m_source.length());
         for (Size i = 0; i < length; ++i) {
             switch (m_source[pos.begin]) {
             case '\t': pos.column += 4; break;
-- 
2.43.0


From c72b009cd487fc8bd7c42311ca8775c398445159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:39 +0000
Subject: [PATCH 30/83] fix: count the lines within string literals

---
 src/bms/tokenization/tokenize.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bms/tokenization/tokenize.cpp b/src/bms/tokenization/tokenize.cpp
index 7652100..fc51837 100644
--- a/src/bms/tokenization/tokenize.cpp
+++ b/src/bms/tokenization/tokenize.cpp
@@ -226,7 +226,8 @@ Result<void, Tokenize_Error> Tokenizer::tokenize(std::pmr::vector<Token>& out)
         pos.length = result->length;
         out.push_back({ pos, result->type });
 
-        if (result->type != Token_Type::block_comment) {
+        if (result->type != Token_Type::block_comment
+            && result->type != Token_Type::string_literal) {
             // Special case for all tokens that aren't multi-line.
             // We could just advance the position as usual, but it is much cheaper if we know
             // that there are no newline characters anyway.
-- 
2.43.0


From d74c70223eaf0e24594b3b026bcbb1170e80d9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:39 +0000
Subject: [PATCH 31/83] fix: give parentheses and @ their code names

---
 src/bms/util.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bms/util.cpp b/src/bms/util.cpp
index 9be74a2..86a0130 100644
--- a/src/bms/util.cpp
+++ b/src/bms/util.cpp
@@ -145,6 +145,8 @@ namespace bit_manipulation::bms {
     using enum Token_Type;
 
     switch (type) {
+    case left_parenthesis: return "(";
+    case right_parenthesis: return ")";
     case left_brace: return "{";
     case right_brace: return "}";
     case block_comment: return "/*";
@@ -175,6 +177,7 @@ namespace bit_manipulation::bms {
     case dot: return ".";
     case colon: return ":";
     case comma: return ",";
+    case at: return "@";
     case semicolon: return ";";
     case keyword_as: return "as";
     case keyword_let: return "let";
-- 
2.43.0


From 65bfcccb1fe714cf521e3629d1466e860cffb673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:06 +0000
Subject: [PATCH 32/83] fix: accept the start of a comment at the end of a BMD
 document

---
 src/bmd/parsing/parse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index 6bf8184..0d3a1bc 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -132,7 +132,7 @@ private:
 
     void advance_position_by(Size length)
     {
-        BIT_MANIPULATION_ASSERT(m_pos.begin + length < m_source.length());
+        BIT_MANIPULATION_ASSERT(m_pos.begin + length <= m_source.length());
         for (Size i = 0; i < length; ++i) {
             advance_position_based_on(m_source[m_pos.begin]);
         }
-- 
2.43.0


From 03641e6ffe012ff33119165efaefcff6260d3427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:21 +0000
Subject: [PATCH 33/83] fix: require commas between the arguments of a call

---
 src/bms/parsing/parse.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index e383d02..c74c748 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -1440,6 +1440,9 @@ private:
             }
             arguments.push_back(m_program.push_node(std::move(*arg)));
             demand_expression = expect(Token_Type::comma);
+            if (!demand_expression && !peek(Token_Type::right_parenthesis)) {
+                return Rule_Error { this_rule, const_array_one_v<Token_Type::right_parenthesis> };
+            }
         }
 
         auto annotations
-- 
2.43.0


From 6f551acf0533710a59913034d15c8f31c1fdcf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:21 +0000
Subject: [PATCH 34/83] fix: do not look for comparisons beyond the parentheses
 around an expression

---
 src/bms/parsing/parse.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index c74c748..42e41f3 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -1334,7 +1334,13 @@ private:
             case Token_Type::semicolon: return false;
 
             case Token_Type::left_parenthesis: ++parenthesis_level; break;
-            case Token_Type::right_parenthesis: --parenthesis_level; break;
+            case Token_Type::right_parenthesis: {
+                if (parenthesis_level == 0) {
+                    return false;
+                }
+                --parenthesis_level;
+                break;
+            }
 
             default:
                 if (parenthesis_level != 0) {
-- 
2.43.0


From 2db710a193613a4e22a1e883e8703edb1c530cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:21 +0000
Subject: [PATCH 35/83] fix: do not look for comparisons in the next argument
 or the alternative of an if-expression

---
 src/bms/parsing/parse.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 42e41f3..c8cfad3 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -1346,7 +1346,9 @@ private:
                 if (parenthesis_level != 0) {
                     continue;
                 }
-                if (m_tokens[i].type == Token_Type::keyword_if) {
+                if (m_tokens[i].type == Token_Type::keyword_if
+                    || m_tokens[i].type == Token_Type::keyword_else
+                    || m_tokens[i].type == Token_Type::comma) {
                     return false;
                 }
                 if (is_comparison_operator(m_tokens[i].type)) {
-- 
2.43.0


From 8cbdcbb1d72b4131ec0bbde81e40633f71497240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:21 +0000
Subject: [PATCH 36/83] fix: reject string literals in expressions

---
 src/bms/parsing/parse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index c8cfad3..3441834 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -1473,7 +1473,7 @@ private:
                 Token_Type::decimal_literal, Token_Type::hexadecimal_literal,
                 Token_Type::identifier,      Token_Type::left_parenthesis };
 
-        if (const Token* t = expect(is_literal)) {
+        if (const Token* t = peek(Token_Type::string_literal) ? nullptr : expect(is_literal)) {
             return astp::Some_Node { astp::Literal { t->pos, m_program.extract(t->pos), t->type } };
         }
         if (const Token* t = expect(Token_Type::identifier)) {
-- 
2.43.0


From e0a99b82967c8a666bab6fae7d8e42bf2278c10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:21 +0000
Subject: [PATCH 37/83] fix: report what is expected within parenthesized
 expressions

---
 src/bms/parsing/parse.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 3441834..d207373 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -1479,11 +1479,11 @@ private:
         if (const Token* t = expect(Token_Type::identifier)) {
             return astp::Some_Node { astp::Id_Expression { t->pos, m_program.extract(t->pos) } };
         }
-        if (auto e = match_parenthesized_expression()) {
-            return e;
+        if (peek(Token_Type::left_parenthesis)) {
+            return match_parenthesized_expression();
         }
-        // Intentionally forget about the e error to not falsely suggest that parentheses are
-        // required for a primary expression, but give feedback about the whole union.
+        // We should not falsely suggest that parentheses are required for a primary expression,
+        // but give feedback about the whole union.
         return Rule_Error { this_rule, expected };
     }
 
-- 
2.43.0


From 80b6fee7c4a5d3d5a59163699deadcffe04ef959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:21 +0000
Subject: [PATCH 38/83] fix: give parameter lists the position of the first
 parameter

---
 src/bms/parsing/parse.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index d207373..61147d6 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -760,7 +760,9 @@ private:
             if (!p) {
                 return p;
             }
-            first_pos = get<astp::Parameter>(*p).pos;
+            if (parameters.empty()) {
+                first_pos = get<astp::Parameter>(*p).pos;
+            }
             parameters.push_back(m_program.push_node(std::move(*p)));
             if (!expect(Token_Type::comma)) {
                 break;
-- 
2.43.0


From 679607be727dd17a2d5c912b9bd1dbbdb8f4748f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:21 +0000
Subject: [PATCH 39/83] fix: give annotation lists the position of the first
 annotation

---
 src/bms/parsing/parse.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index 61147d6..e4cb058 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -828,7 +828,9 @@ private:
             if (!annotation) {
                 return annotation;
             }
-            first_pos = get<astp::Annotation>(*annotation).pos;
+            if (annotations.empty()) {
+                first_pos = get<astp::Annotation>(*annotation).pos;
+            }
             annotations.push_back(m_program.push_node(std::move(*annotation)));
             if (!peek(Token_Type::at)) {
                 break;
-- 
2.43.0


From 68e823db7d476c49cfc1aa50fc6626d69153a764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:37 +0000
Subject: [PATCH 40/83] fix: accept annotations of an if statement following
 else

---
 src/bms/parsing/parse.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index e4cb058..c50756f 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -1136,6 +1136,13 @@ private:
         if (!first) {
             return Rule_Error { this_rule, const_array_one_v<Token_Type::keyword_else> };
         }
+        if (peek(Token_Type::at)) {
+            auto annotations = match_annotation_sequence();
+            if (!annotations) {
+                return annotations;
+            }
+            return match_if_statement(&*annotations);
+        }
         return peek(Token_Type::keyword_if) ? match_if_statement() : match_block_statement();
     }
 
-- 
2.43.0


From 9df2cba0ed5e9742fdcce4c26a897d3ad640832b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:30 +0000
Subject: [PATCH 41/83] fix: parsing BMD paragraphs which contain comments
 terminates

---
 src/bmd/parsing/parse.cpp | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index 0d3a1bc..f83b9f8 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -381,16 +381,13 @@ private:
         const auto initial_pos = m_pos;
         std::pmr::vector<ast::Some_Node*> elements(m_memory);
         while (!eof()) {
-            if (peek(is_space)) {
-                Result<Blank, Rule_Error> blank = match_blank(Grammar_Rule::blank);
-                if (!blank) {
-                    return blank.error();
-                }
-                // If there is a leading space but we couldn't match it as a blank, we must have
-                // run into a paragraph break and should break.
-                if (blank->length == 0) {
-                    break;
-                }
+            Result<Blank, Rule_Error> blank = match_blank(Grammar_Rule::blank);
+            if (!blank) {
+                return blank.error();
+            }
+            // The blank was not matched because it is a paragraph break.
+            if (blank->is_paragraph_break) {
+                break;
             }
             ast::Some_Node* text = match_text();
             if (text) {
@@ -603,14 +600,22 @@ private:
         if (!result) {
             return result;
         }
-        if (peek(is_space)) {
-            // Text already consumes trailing space, so it only would have failed to consume
-            // all if the trailing space is a paragraph break.
+        // Neither paragraphs nor text include a trailing paragraph break, and text does not include
+        // any trailing blank.
+        auto trailing_blank = match_blank(Grammar_Rule::blank);
+        if (!trailing_blank) {
+            return Rule_Error { Parse_Error_Code::unterminated_comment, Grammar_Rule::block };
+        }
+        if (trailing_blank->is_paragraph_break) {
             return Rule_Error { Parse_Error_Code::paragraph_break_in_span, Grammar_Rule::block };
         }
         if (!directives_allowed && peek_possible_directive()) {
             return Rule_Error { Parse_Error_Code::directive_in_text_span, Grammar_Rule::block };
         }
+        if (!eof()) {
+            // There is more text following a comment.
+            return Rule_Error { Parse_Error_Code::unexpected_character, Grammar_Rule::block };
+        }
         return result;
     }
 
-- 
2.43.0


From 83b0da189b15d81be2c741ed3657961a724273fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:30 +0000
Subject: [PATCH 42/83] fix: line comments in BMD may end at the end of the
 file

---
 src/bmd/parsing/parse.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index f83b9f8..2fc3034 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -814,10 +814,7 @@ private:
             // Parse C99-style line comments.
             if (expect("//")) {
                 newline_count = 0;
-                while (true) {
-                    if (eof()) {
-                        return Parse_Error_Code::unterminated_comment;
-                    }
+                while (!eof()) {
                     const char c = pop();
                     if (c == '\n') {
                         newline_count = 1;
-- 
2.43.0


From 9307cbc10ac84c8d129e719d9c64c6d52934f6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:30 +0000
Subject: [PATCH 43/83] fix: blocks in BMD may be empty

---
 src/bmd/parsing/parse.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index 2fc3034..c49cfe8 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -39,7 +39,6 @@ Text::Text(const Local_Source_Span& pos, std::string_view text)
     : detail::Base { pos }
     , m_text(text)
 {
-    BIT_MANIPULATION_ASSERT(!text.empty());
 }
 
 Identifier::Identifier(const Local_Source_Span& pos, std::string_view value)
@@ -60,7 +59,6 @@ Raw::Raw(const Local_Source_Span& pos, std::string_view value)
     : detail::Base { pos }
     , m_value(value)
 {
-    BIT_MANIPULATION_ASSERT(!value.empty());
 }
 
 } // namespace ast
-- 
2.43.0


From a690865e6aed599b59458e691e7346fd9b04da15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:30 +0000
Subject: [PATCH 44/83] fix: BMD directives which must be empty may have an
 empty block

---
 src/bmd/parsing/parse.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index c49cfe8..1064579 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -574,6 +574,9 @@ private:
 
     Result<ast::Some_Node*, Rule_Error> match_empty_block()
     {
+        if (auto r = expect('{'); !r) {
+            return Rule_Error { r.error(), Grammar_Rule::block };
+        }
         if (auto r = match_blank(); !r) {
             return Rule_Error { Parse_Error_Code::unterminated_comment, Grammar_Rule::block };
         }
-- 
2.43.0


From 289aaf4d31c0c6eeebb394ea8b9e66bccb3230b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:31 +0000
Subject: [PATCH 45/83] fix: BMD arguments are matched according to the grammar

---
 src/bmd/parsing/parse.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index 1064579..e01db0b 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -461,6 +461,9 @@ private:
             if (auto r = match_blank(Grammar_Rule::blank); !r) {
                 return r.error();
             }
+            if (peek(']')) {
+                break;
+            }
             // restoration is solely for diagnostics quality
             auto restore_pos = m_pos;
 
@@ -492,9 +495,8 @@ private:
             if (eof()) {
                 return Rule_Error { Parse_Error_Code::unexpected_eof, Grammar_Rule::argument };
             }
-            if (!expect(',')) {
-                break;
-            }
+            // The comma is optional.
+            (void)expect(',');
         }
         if (auto r = expect(']'); !r) {
             return Rule_Error { r.error(), this_rule };
-- 
2.43.0


From 1140b1c708d809510bd6668db756889b10881331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:31 +0000
Subject: [PATCH 46/83] fix: integers in BMD which are not representable are
 rejected

---
 src/bmd/parsing/parse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index e01db0b..437d4ab 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -898,7 +898,7 @@ private:
         }
 
         std::optional<Big_Int> value = parse_integer_literal(s.substr(0, literal_match.length));
-        if (!value) {
+        if (!value || *value != Int64(*value)) {
             return Rule_Error { Parse_Error_Code::invalid_integer_literal,
                                 Grammar_Rule::decimal_literal };
         }
-- 
2.43.0


From 66f80dd40e7c318b01e9b4aab657db20d04601ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:31 +0000
Subject: [PATCH 47/83] fix: positions of paragraphs in BMD cover exactly their
 elements

---
 src/bmd/parsing/parse.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/bmd/parsing/parse.cpp b/src/bmd/parsing/parse.cpp
index 437d4ab..9db3cd1 100644
--- a/src/bmd/parsing/parse.cpp
+++ b/src/bmd/parsing/parse.cpp
@@ -309,17 +309,15 @@ private:
         /// If `!paragraph_elements.empty()`, creates a new paragraph containing the elements
         /// and appends it to `elements`.
         /// Other state is update to make subsequent calls possible.
-        auto break_paragraph =
-            [this, &elements, &paragraph_elements, pos_before_paragraph = initial_pos]() mutable //
-        {
+        auto break_paragraph = [this, &elements, &paragraph_elements]() {
             if (paragraph_elements.empty()) {
                 return;
             }
-            elements.push_back(alloc_node<ast::List>(
-                { pos_before_paragraph, m_pos.begin - pos_before_paragraph.begin },
-                std::vector(paragraph_elements)));
+            const Local_Source_Span first = get_source_span(*paragraph_elements.front());
+            const Local_Source_Span last = get_source_span(*paragraph_elements.back());
+            elements.push_back(alloc_node<ast::List>({ first, last.end() - first.begin },
+                                                     std::vector(paragraph_elements)));
             paragraph_elements.clear();
-            pos_before_paragraph = m_pos;
         };
 
         while (!eof()) {
-- 
2.43.0


From ae9112eba2f11b3bfc17a95ea84f7d6470b8c487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:56 +0000
Subject: [PATCH 48/83] fix: looking up a BMD directive greater than all others

---
 src/bmd/enums.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/enums.cpp b/src/bmd/enums.cpp
index 32e8f24..20c69cf 100644
--- a/src/bmd/enums.cpp
+++ b/src/bmd/enums.cpp
@@ -190,7 +190,7 @@ std::optional<Directive_Type> directive_type_by_id(std::string_view directive_id
     static_assert(std::ranges::is_sorted(lookup, {}, &Pair::id));
 
     const auto it = std::ranges::lower_bound(lookup, directive_id, {}, &Pair::id);
-    if (it->id != directive_id) {
+    if (it == std::ranges::end(lookup) || it->id != directive_id) {
         return {};
     }
     return it->type;
-- 
2.43.0


From 80a82001c61202d9a986daab02779d20adfda5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:56 +0000
Subject: [PATCH 49/83] fix: superscript is written with its own HTML tag

---
 src/bmd/enums.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/enums.cpp b/src/bmd/enums.cpp
index 20c69cf..aea90bd 100644
--- a/src/bmd/enums.cpp
+++ b/src/bmd/enums.cpp
@@ -216,7 +216,7 @@ std::string_view directive_type_tag(Directive_Type type)
     case quoted: return "q";
     case strikethrough: return "s";
     case subscript: return "sub";
-    case superscript: return "sub";
+    case superscript: return "sup";
     case teletype: return "tt";
     case underlined: return "u";
     case unordered_list: return "ul";
-- 
2.43.0


From 986fc8c50280700cf794cf0eac875c177c5c6b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:56 +0000
Subject: [PATCH 50/83] fix: affected lines of errors at line breaks and at the
 end of the file

---
 src/common/diagnostics.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index d4923f9..722af14 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -618,12 +618,12 @@ std::ostream& print_file_position(std::ostream& out,
 
 std::string_view find_line(std::string_view source, Size index)
 {
-    BIT_MANIPULATION_ASSERT(index < source.size());
+    BIT_MANIPULATION_ASSERT(index <= source.size());
 
-    Size begin = source.rfind('\n', index);
+    Size begin = index == 0 ? std::string_view::npos : source.rfind('\n', index - 1);
     begin = begin != std::string_view::npos ? begin + 1 : 0;
 
-    Size end = std::min(source.find('\n', index + 1), source.size());
+    Size end = std::min(source.find('\n', index), source.size());
 
     return source.substr(begin, end - begin);
 }
-- 
2.43.0


From f5c61b957f1ded0ff21f364bcf3a7c11049cda2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:25 +0000
Subject: [PATCH 51/83] fix: \br and \hr can be converted to HTML

---
 src/bmd/html/doc_to_html.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index 60f43bc..c28aba3 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -262,7 +262,7 @@ struct HTML_Converter {
         const Tag_Properties tag { directive_type_tag(directive.get_type()),
                                    directive_type_formatting_style(directive.get_type()) };
 
-        BIT_MANIPULATION_ASSERT(directive.get_block() != nullptr
+        BIT_MANIPULATION_ASSERT(directive.get_block() == nullptr
                                 || !directive_type_must_be_empty(directive.get_type()));
 
         if (directive.get_block() == nullptr && directive.m_arguments.empty()) {
-- 
2.43.0


From 85062239c2d64e292cb860fba28b0db4eafa01ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:25 +0000
Subject: [PATCH 52/83] fix: directives with arguments but no block are not
 closed twice in HTML

---
 src/bmd/html/doc_to_html.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index c28aba3..c974e7e 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -269,7 +269,9 @@ struct HTML_Converter {
             m_writer.write_empty_tag(tag);
         }
         else {
-            begin_tag_with_passed_through_attributes(directive, tag);
+            if (!begin_tag_with_passed_through_attributes(directive, tag)) {
+                return {};
+            }
 
             const auto content_type = directive_type_content_type(directive.get_type());
             if (auto r = convert_block(directive.get_block(), tag.style, content_type); !r) {
@@ -280,16 +282,18 @@ struct HTML_Converter {
         return {};
     }
 
-    void begin_tag_with_passed_through_attributes(const ast::Directive& directive,
-                                                  Tag_Properties properties)
+    /// @return `true` if the tag was opened and remains to be ended, `false` if it is an empty tag.
+    [[nodiscard]] bool begin_tag_with_passed_through_attributes(const ast::Directive& directive,
+                                                                Tag_Properties properties)
     {
         if (directive.m_arguments.empty()) {
             m_writer.begin_tag(properties);
-            return;
+            return true;
         }
 
         auto attribute_writer = m_writer.begin_tag_with_attributes(properties);
         pass_through_attributes(directive, attribute_writer);
+        return directive.get_block() != nullptr;
     }
 
     void pass_through_attributes(const ast::Directive& directive,
@@ -348,9 +352,10 @@ struct HTML_Converter {
 
         if (title_directive != nullptr) {
             const Tag_Properties heading { "h1", Formatting_Style::in_line };
-            begin_tag_with_passed_through_attributes(*title_directive, heading);
-            m_writer.write_inner_text(m_meta.title, heading.style);
-            m_writer.end_tag(heading);
+            if (begin_tag_with_passed_through_attributes(*title_directive, heading)) {
+                m_writer.write_inner_text(m_meta.title, heading.style);
+                m_writer.end_tag(heading);
+            }
         }
 
         return {};
-- 
2.43.0


From b8ed9178033484f9873763b1aa2344beeaa71f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:25 +0000
Subject: [PATCH 53/83] fix: \instruction without a block is not dereferenced

---
 src/bmd/html/doc_to_html.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index c974e7e..e6ac76a 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -449,14 +449,15 @@ struct HTML_Converter {
         static constexpr Tag_Properties hyperlink { "a", Formatting_Style::in_line };
         static constexpr Tag_Properties code { "code", Formatting_Style::in_line };
 
-        // TODO: deal with potentially empty text (null block)
-        const ast::Text& text = get<ast::Text>(*directive.get_block());
+        const std::string_view text = directive.get_block() == nullptr
+            ? std::string_view {}
+            : get<ast::Text>(*directive.get_block()).get_text();
 
         std::string_view link_prefix = architecture_link_prefix(*arch);
 
         if (!link_prefix.empty()) {
             std::pmr::string link(link_prefix, m_memory);
-            link += text.get_text();
+            link += text;
 
             m_writer
                 .begin_tag_with_attributes(hyperlink) //
@@ -464,7 +465,7 @@ struct HTML_Converter {
                 .end();
         }
         m_writer.begin_tag(code);
-        m_writer.write_inner_text(text.get_text(), Formatting_Style::in_line);
+        m_writer.write_inner_text(text, Formatting_Style::in_line);
         m_writer.end_tag(code);
 
         if (!link_prefix.empty()) {
-- 
2.43.0


From a455aad1f90fc7d35049408f8013efa3f52291d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:25 +0000
Subject: [PATCH 54/83] fix: errors in the extension of an \instruction are
 reported

---
 src/bmd/html/doc_to_html.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index e6ac76a..0cee940 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -445,6 +445,9 @@ struct HTML_Converter {
             }
             return id->get_value();
         }();
+        if (!extension) {
+            return extension.error();
+        }
 
         static constexpr Tag_Properties hyperlink { "a", Formatting_Style::in_line };
         static constexpr Tag_Properties code { "code", Formatting_Style::in_line };
-- 
2.43.0


From ef76f1874eacf03535e718cf795f28966b1bf85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:25 +0000
Subject: [PATCH 55/83] fix: \c contains raw code like \codeblock

---
 src/bmd/enums.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/enums.cpp b/src/bmd/enums.cpp
index aea90bd..dd2006f 100644
--- a/src/bmd/enums.cpp
+++ b/src/bmd/enums.cpp
@@ -77,7 +77,6 @@ Directive_Content_Type directive_type_content_type(Directive_Type type)
     case title: return Directive_Content_Type::text_span;
 
     case bold:
-    case code:
     case deleted:
     case heading1:
     case heading2:
@@ -95,6 +94,7 @@ Directive_Content_Type directive_type_content_type(Directive_Type type)
     case teletype:
     case underlined: return Directive_Content_Type::span;
 
+    case code:
     case code_block: return Directive_Content_Type::raw;
 
     case note: return Directive_Content_Type::block;
-- 
2.43.0


From 4c2b629f3693928a57ccd43bfbf843f69878a344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:25 +0000
Subject: [PATCH 56/83] fix: code in languages without highlighting is written
 as plain text

---
 src/bmd/html/doc_to_html.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index 0cee940..f5f5884 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -412,8 +412,9 @@ struct HTML_Converter {
             break;
         }
         default:
-            BIT_MANIPULATION_ASSERT_UNREACHABLE(
-                "Only bms and plaintext highlighting is implemented.");
+            // Only bms highlighting is implemented.
+            m_writer.write_inner_text(code_text->get_text(), Formatting_Style::pre);
+            break;
         }
 
         return {};
-- 
2.43.0


From a43c7d3e490d85c62187c96a70d8ec37c8713f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:25 +0000
Subject: [PATCH 57/83] fix: \item and \note can be converted to HTML

---
 src/bmd/enums.cpp            | 4 ++--
 src/bmd/html/doc_to_html.cpp | 9 +++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/bmd/enums.cpp b/src/bmd/enums.cpp
index dd2006f..b26afa5 100644
--- a/src/bmd/enums.cpp
+++ b/src/bmd/enums.cpp
@@ -226,10 +226,10 @@ std::string_view directive_type_tag(Directive_Type type)
     case note: return "div";
     case meta: return "head";
     case title: return "title";
+    case item: return "li";
 
     case bms_function:
-    case c_equivalent:
-    case item: return "";
+    case c_equivalent: return "";
     }
     BIT_MANIPULATION_ASSERT_UNREACHABLE("Invalid directive type.");
 }
diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index f5f5884..ac54562 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -237,7 +237,7 @@ struct HTML_Converter {
     [[nodiscard]] Result<void, Document_Error> convert_directive(const ast::Directive& directive)
     {
         if (directive_type_is_html_passthrough(directive.get_type())) {
-            return convert_html_passthrough_directive(directive);
+            return convert_tag_directive(directive);
         }
 
         switch (directive.get_type()) {
@@ -248,15 +248,16 @@ struct HTML_Converter {
 
         case Directive_Type::instruction: return convert_instruction_directive(directive);
 
+        case Directive_Type::item:
+        case Directive_Type::note: return convert_tag_directive(directive);
+
         default: BIT_MANIPULATION_ASSERT_UNREACHABLE("Unimplemented directive type.");
         }
     }
 
     [[nodiscard]] Result<void, Document_Error>
-    convert_html_passthrough_directive(const ast::Directive& directive)
+    convert_tag_directive(const ast::Directive& directive)
     {
-        BIT_MANIPULATION_ASSERT(directive_type_is_html_passthrough(directive.get_type()));
-
         m_at_start_of_file = false;
 
         const Tag_Properties tag { directive_type_tag(directive.get_type()),
-- 
2.43.0


From ef8e4651efa1e4fcb99bb3aa5c1f6e3cb7b21e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:25 +0000
Subject: [PATCH 58/83] fix: consecutive texts can be converted to HTML

---
 src/bmd/html/doc_to_html.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index ac54562..e789a51 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -191,15 +191,13 @@ struct HTML_Converter {
                 if (i + 1 >= children.size()) {
                     continue;
                 }
-                // get is appropriate here because there cannot be two consecutive Text
-                // elements
-                const auto& d = get<ast::Directive>(*children[i + 1]);
+                const Local_Source_Span next_pos = get_source_span(*children[i + 1]);
 
-                if (current_pos.end() == d.get_source_position().begin) {
+                if (current_pos.end() == next_pos.begin) {
                     continue;
                 }
                 const bool separate_lines
-                    = d.get_source_position().line + 1 > current_pos.line + *lines_written;
+                    = next_pos.line + 1 > current_pos.line + *lines_written;
                 m_writer.write_whitespace(separate_lines ? '\n' : ' ', 1);
                 // TODO: this approach isn't perfect because it doesn't handle line breaks
                 // after directives properly. It would be best if directives stored what type
-- 
2.43.0


From bbd04987c956960223292594a1f3b468cea09540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:25 +0000
Subject: [PATCH 59/83] fix: highlighted code keeps the blanks between its
 tokens

---
 src/bmd/html/bms_to_html.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bmd/html/bms_to_html.cpp b/src/bmd/html/bms_to_html.cpp
index 3e773a0..d84cae5 100644
--- a/src/bmd/html/bms_to_html.cpp
+++ b/src/bmd/html/bms_to_html.cpp
@@ -91,7 +91,9 @@ void tokens_to_html(HTML_Writer& out, std::span<const bms::Token> tokens, std::s
 {
     for (Size i = 0; i < tokens.size(); ++i) {
         if (i != 0) {
-            out.write_source_gap(tokens[i - 1].pos, tokens[i].pos, Formatting_Style::pre);
+            const Size gap_begin = tokens[i - 1].pos.end();
+            out.write_inner_text(code.substr(gap_begin, tokens[i].pos.begin - gap_begin),
+                                 Formatting_Style::pre);
         }
 
         const Code_Span_Type category = categorize_token_type(tokens[i].type);
-- 
2.43.0


From 4370734d80ecd17534979f9a19cf02cbc2c63e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:25 +0000
Subject: [PATCH 60/83] fix: write_source_gap accepts positions on either side
 of a carriage return

---
 src/bmd/html/html_writer.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index 0e01596..f4a0d23 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -260,8 +260,7 @@ auto HTML_Writer::write_source_gap(const Local_Source_Span& first,
                                    Formatting_Style style) -> Self&
 {
     BIT_MANIPULATION_ASSERT(m_state != State::attributes && m_state != State::initial);
-    BIT_MANIPULATION_ASSERT(first.line < second.line
-                            || (first.line == second.line && first.column <= second.column));
+    BIT_MANIPULATION_ASSERT(first.end() <= second.begin);
 
     if (style == Formatting_Style::pre) {
         if (first.line != second.line) {
-- 
2.43.0


From 7235185433011f412a1a5ce2330a013010578845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:25 +0000
Subject: [PATCH 61/83] fix: ampersands are escaped in HTML

---
 src/bmd/html/html_writer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index f4a0d23..91ddba0 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -37,7 +37,7 @@ void HTML_Writer::write_escaped_text(std::string_view text)
     BIT_MANIPULATION_ASSERT(m_state == State::new_line || m_state == State::normal);
 
     while (!text.empty()) {
-        const Size bracket_pos = text.find_first_of("<>");
+        const Size bracket_pos = text.find_first_of("<>&");
         const std::string_view snippet = text.substr(0, std::min(text.length(), bracket_pos));
         m_out.write(snippet, HTML_Token_Type::inner_text);
         if (bracket_pos == std::string_view::npos) {
@@ -49,6 +49,9 @@ void HTML_Writer::write_escaped_text(std::string_view text)
         else if (text[bracket_pos] == '>') {
             m_out.write("&gt;", HTML_Token_Type::inner_text);
         }
+        else if (text[bracket_pos] == '&') {
+            m_out.write("&amp;", HTML_Token_Type::inner_text);
+        }
         else {
             BIT_MANIPULATION_ASSERT_UNREACHABLE("Logical mistake.");
         }
-- 
2.43.0


From b92276fcfb1a1b73bde44724544d0b31746eb529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:53 +0000
Subject: [PATCH 62/83] fix: values of HTML attributes are quoted and escaped

---
 src/bmd/html/html_writer.cpp | 11 ++++++++++-
 src/bmd/html/html_writer.hpp |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index 91ddba0..afe0c5a 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -212,7 +212,16 @@ auto HTML_Writer::write_attribute(std::string_view key, std::string_view value)
         m_out.write('=', HTML_Token_Type::attribute_equal);
         if (requires_quotes_in_attribute(value)) {
             m_out.write('"', HTML_Token_Type::attribute_quote);
-            m_out.write(value, HTML_Token_Type::attribute_value);
+            while (!value.empty()) {
+                const Size special_pos = std::min(value.length(), value.find_first_of("\"&"));
+                m_out.write(value.substr(0, special_pos), HTML_Token_Type::attribute_value);
+                if (special_pos == value.length()) {
+                    break;
+                }
+                m_out.write(value[special_pos] == '"' ? "&quot;" : "&amp;",
+                            HTML_Token_Type::attribute_value);
+                value = value.substr(special_pos + 1);
+            }
             m_out.write('"', HTML_Token_Type::attribute_quote);
         }
         else {
diff --git a/src/bmd/html/html_writer.hpp b/src/bmd/html/html_writer.hpp
index 7091eab..da5ea59 100644
--- a/src/bmd/html/html_writer.hpp
+++ b/src/bmd/html/html_writer.hpp
@@ -14,7 +14,7 @@ namespace bit_manipulation::bmd {
 /// no wrapping, but `id="<x>"` requires `<x>` to be surrounded by quotes.
 inline bool requires_quotes_in_attribute(std::string_view value)
 {
-    return value.find_first_of("\"/'`=<> ") != std::string_view::npos;
+    return value.find_first_of("\"/'`=<>& \t\r\n\f") != std::string_view::npos;
 }
 
 /// @brief The formatting style of an HTML tag.
-- 
2.43.0


From 095cd608bcfb122ad884918fc914ba8cd06ed95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:53 +0000
Subject: [PATCH 63/83] fix: an HTML document without a preamble is not done

---
 src/bmd/html/html_writer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/html/html_writer.hpp b/src/bmd/html/html_writer.hpp
index da5ea59..989c0e0 100644
--- a/src/bmd/html/html_writer.hpp
+++ b/src/bmd/html/html_writer.hpp
@@ -143,7 +143,7 @@ public:
     /// complete, `false` otherwise.
     bool is_done() const
     {
-        return (m_state != State::normal || m_state == State::new_line) && m_depth == 0
+        return (m_state == State::normal || m_state == State::new_line) && m_depth == 0
             && m_indent_depth == 0;
     }
 
-- 
2.43.0


From aeef16402e1c177fe810866e00cc8ce48b0fce2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:53 +0000
Subject: [PATCH 64/83] fix: tag names with attributes are written as tag names

---
 src/bmd/html/html_writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index afe0c5a..51f2c94 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -126,7 +126,7 @@ Attribute_Writer HTML_Writer::begin_tag_with_attributes(Tag_Properties propertie
 
     indent(properties.style);
     m_out.write('<', HTML_Token_Type::tag_bracket);
-    m_out.write(properties.id, HTML_Token_Type::tag_bracket);
+    m_out.write(properties.id, HTML_Token_Type::tag_identifier);
 
     m_state = State::attributes;
 
-- 
2.43.0


From 12abe6b2f5555f14ee2723398ea44d93c6397cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:53 +0000
Subject: [PATCH 65/83] fix: escape sequences in BMD text are converted to the
 escaped characters

---
 src/bmd/html/doc_to_html.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index e789a51..76d7647 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -229,7 +229,21 @@ struct HTML_Converter {
                                                             Formatting_Style inherited_style)
     {
         m_at_start_of_file = false;
-        return m_writer.write_inner_text(text.get_text(), inherited_style);
+        return m_writer.write_inner_text(unescape(text.get_text()), inherited_style);
+    }
+
+    /// @brief Replaces escape sequences such as `\\{` with the escaped character.
+    [[nodiscard]] std::pmr::string unescape(std::string_view text)
+    {
+        std::pmr::string result(m_memory);
+        for (Size i = 0; i < text.length(); ++i) {
+            // Unescaped backslashes would have been parsed as directives.
+            if (text[i] == '\\' && i + 1 < text.length()) {
+                ++i;
+            }
+            result += text[i];
+        }
+        return result;
     }
 
     [[nodiscard]] Result<void, Document_Error> convert_directive(const ast::Directive& directive)
@@ -352,7 +366,7 @@ struct HTML_Converter {
         if (title_directive != nullptr) {
             const Tag_Properties heading { "h1", Formatting_Style::in_line };
             if (begin_tag_with_passed_through_attributes(*title_directive, heading)) {
-                m_writer.write_inner_text(m_meta.title, heading.style);
+                m_writer.write_inner_text(unescape(m_meta.title), heading.style);
                 m_writer.end_tag(heading);
             }
         }
@@ -452,9 +466,9 @@ struct HTML_Converter {
         static constexpr Tag_Properties hyperlink { "a", Formatting_Style::in_line };
         static constexpr Tag_Properties code { "code", Formatting_Style::in_line };
 
-        const std::string_view text = directive.get_block() == nullptr
-            ? std::string_view {}
-            : get<ast::Text>(*directive.get_block()).get_text();
+        const std::pmr::string text = directive.get_block() == nullptr
+            ? std::pmr::string(m_memory)
+            : unescape(get<ast::Text>(*directive.get_block()).get_text());
 
         std::string_view link_prefix = architecture_link_prefix(*arch);
 
-- 
2.43.0


From d328fc556e2fa47fb43612916353e2376f81fd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:11 +0000
Subject: [PATCH 66/83] fix: the slash of an empty HTML tag is not part of its
 last attribute

---
 src/bmd/html/html_writer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index 51f2c94..c4ec3bb 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -257,6 +257,8 @@ auto HTML_Writer::end_empty_tag_attributes(Formatting_Style style) -> Self&
 {
     BIT_MANIPULATION_ASSERT(m_state == State::attributes);
 
+    // Without a space, the slash would belong to the value of an unquoted attribute.
+    m_out.write(' ', HTML_Token_Type::whitespace);
     m_out.write("/>", HTML_Token_Type::tag_bracket);
     m_state = State::normal;
 
-- 
2.43.0


From 941e450c28477273aff9dff1b61f673962b3c22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:11 +0000
Subject: [PATCH 67/83] fix: only void HTML elements are written as empty tags

---
 src/bmd/html/doc_to_html.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/bmd/html/doc_to_html.cpp b/src/bmd/html/doc_to_html.cpp
index 76d7647..dc6c4b4 100644
--- a/src/bmd/html/doc_to_html.cpp
+++ b/src/bmd/html/doc_to_html.cpp
@@ -275,10 +275,11 @@ struct HTML_Converter {
         const Tag_Properties tag { directive_type_tag(directive.get_type()),
                                    directive_type_formatting_style(directive.get_type()) };
 
-        BIT_MANIPULATION_ASSERT(directive.get_block() == nullptr
-                                || !directive_type_must_be_empty(directive.get_type()));
+        const bool is_void = directive_type_must_be_empty(directive.get_type());
 
-        if (directive.get_block() == nullptr && directive.m_arguments.empty()) {
+        BIT_MANIPULATION_ASSERT(directive.get_block() == nullptr || !is_void);
+
+        if (is_void && directive.m_arguments.empty()) {
             m_writer.write_empty_tag(tag);
         }
         else {
@@ -306,7 +307,7 @@ struct HTML_Converter {
 
         auto attribute_writer = m_writer.begin_tag_with_attributes(properties);
         pass_through_attributes(directive, attribute_writer);
-        return directive.get_block() != nullptr;
+        return !directive_type_must_be_empty(directive.get_type());
     }
 
     void pass_through_attributes(const ast::Directive& directive,
@@ -323,7 +324,7 @@ struct HTML_Converter {
             }
             BIT_MANIPULATION_ASSERT_UNREACHABLE("Unknown attribute value type.");
         }
-        if (directive.get_block() == nullptr) {
+        if (directive_type_must_be_empty(directive.get_type())) {
             attribute_writer.end_empty();
         }
         else {
-- 
2.43.0


From b16fb2caaef418fbedb2b7245b58c8dae04d17ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:06 +0000
Subject: [PATCH 68/83] fix: HTML blocks may have attributes

---
 src/bmd/html/html_writer.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bmd/html/html_writer.cpp b/src/bmd/html/html_writer.cpp
index c4ec3bb..1f26af8 100644
--- a/src/bmd/html/html_writer.cpp
+++ b/src/bmd/html/html_writer.cpp
@@ -237,6 +237,7 @@ auto HTML_Writer::end_attributes(Formatting_Style style) -> Self&
     BIT_MANIPULATION_ASSERT(m_state == State::attributes);
 
     m_out.write('>', HTML_Token_Type::tag_bracket);
+    m_state = State::normal;
 
     if (is_block_like(style)) {
         break_line();
@@ -244,9 +245,6 @@ auto HTML_Writer::end_attributes(Formatting_Style style) -> Self&
             ++m_indent_depth;
         }
     }
-    else {
-        m_state = State::normal;
-    }
 
     ++m_depth;
 
-- 
2.43.0


From 3f4db16e41f271e6de45a2b3e1c482d45dda5977 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 06:37:37 +0000
Subject: [PATCH 69/83] fix: messages for all tokenization errors

Printing the error of an unterminated string or of an integer prefix without
digits reached code marked as unreachable, and was reported as an internal error.
---
 src/common/diagnostics.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index 722af14..27a7385 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -95,13 +95,16 @@ std::string_view to_prose(bms::Tokenize_Error_Code e)
     switch (e) {
     case bms::Tokenize_Error_Code::illegal_character: //
         return "Illegal character encountered.";
+    case bms::Tokenize_Error_Code::no_digits_following_integer_prefix: //
+        return "Expected digits following the integer prefix.";
     case bms::Tokenize_Error_Code::integer_suffix: //
         return "Suffix after integer literal is not allowed";
     case bms::Tokenize_Error_Code::unterminated_comment: //
         return "Unterminated block comment found. '/*' must have a matching '*/'";
-    default: //
-        BIT_MANIPULATION_ASSERT_UNREACHABLE("invalid error code");
+    case bms::Tokenize_Error_Code::unterminated_string: //
+        return "Unterminated string literal found. '\"' must have a matching '\"'";
     }
+    BIT_MANIPULATION_ASSERT_UNREACHABLE("invalid error code");
 }
 
 std::string_view to_prose(bms::Analysis_Error_Code e)
-- 
2.43.0


From 020796af875ea24f06440b028bce8560fb23dcd1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 06:37:37 +0000
Subject: [PATCH 70/83] fix: provide the return type in errors about return
 statements

Printing an incompatible_types error of a return statement needs the return type,
which was not provided, so that an assertion failed instead.
---
 src/bms/analyze.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bms/analyze.cpp b/src/bms/analyze.cpp
index 4d61a4b..92eee16 100644
--- a/src/bms/analyze.cpp
+++ b/src/bms/analyze.cpp
@@ -497,6 +497,7 @@ private:
             return Analysis_Error_Builder { Analysis_Error_Code::incompatible_types }
                 .fail(handle)
                 .cause(function->get_return_type_node())
+                .type(return_type)
                 .build();
         }
         const Result<Value, Evaluation_Error_Code> eval_result
-- 
2.43.0


From 3a07b4111b901251f1e02d5ed0fdc84688e178bb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 06:37:37 +0000
Subject: [PATCH 71/83] fix: provide the constraints of annotation parameters
 in errors

They were left empty, so that the error message ended with "must be ".
---
 src/bms/analyze_annotations.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bms/analyze_annotations.cpp b/src/bms/analyze_annotations.cpp
index 03a0cfe..4a99615 100644
--- a/src/bms/analyze_annotations.cpp
+++ b/src/bms/analyze_annotations.cpp
@@ -85,7 +85,10 @@ struct Annotation_Parameter {
     [[nodiscard]] Annotation_Parameter_Wrong_Argument
     get_wrong_argument_info(Annotation_Parameter_Type argument_type) const
     {
-        return { .name = name, .expected = type(), .actual = argument_type };
+        return { .name = name,
+                 .expected = type(),
+                 .actual = argument_type,
+                 .value_constraints = validator.constraints };
     }
 };
 
-- 
2.43.0


From c4be3592a17e49f76b0c84d81cc22b06eddf9b2f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 06:37:37 +0000
Subject: [PATCH 72/83] fix: pad the low digits of large integers with zeros

10000000000000000001 was printed as 11.
---
 src/common/diagnostics.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index 27a7385..acf1f34 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -32,8 +32,11 @@ std::string to_string(Uint128 x)
     /// The greatest power of 10 that fits into a 64-bit integer.
     constexpr Uint128 exp10_19 = 10000000000000000000ull;
 
-    return x <= std::uint64_t(-1) ? std::to_string(Uint64(x))
-                                  : to_string(x / exp10_19) + std::to_string(Uint64(x % exp10_19));
+    if (x <= std::uint64_t(-1)) {
+        return std::to_string(Uint64(x));
+    }
+    const std::string low_digits = std::to_string(Uint64(x % exp10_19));
+    return to_string(x / exp10_19) + std::string(19 - low_digits.size(), '0') + low_digits;
 }
 
 std::string to_string(Int128 x)
-- 
2.43.0


From 9e3a88e9173d501bb99c6491f4cf9a354d4001e1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 06:37:37 +0000
Subject: [PATCH 73/83] fix: print the line of failed assertions

Lines and columns of std::source_location start at one, not at zero.
---
 src/common/diagnostics.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index acf1f34..123a9e7 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -784,9 +784,12 @@ std::ostream& print_assertion_error(std::ostream& out, const Assertion_Error& er
         out << "Code which must be unreachable has been reached.\n\n";
     }
 
-    Local_Source_Position pos { .line = error.location.line(),
-                                .column = error.location.column(),
-                                .begin = {} };
+    // Unlike our own positions, those in std::source_location are one-based (zero if unknown).
+    const Size line = error.location.line();
+    const Size column = error.location.column();
+    const Local_Source_Position pos { .line = line == 0 ? 0 : line - 1,
+                                      .column = column == 0 ? 0 : column - 1,
+                                      .begin = {} };
     print_file_position(out, error.location.file_name(), pos, colors);
     out << ": ";
     if (colors) {
-- 
2.43.0


From 2bacd0c5242ab6fa80a08820e5f677051943e6c6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 06:37:37 +0000
Subject: [PATCH 74/83] fix: print I/O errors to the given stream

The location of the file was always printed to std::cout, and to_html passed the
very file which could not be opened as the stream to print the error to.
---
 src/cli/main.cpp           | 2 +-
 src/common/diagnostics.cpp | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cli/main.cpp b/src/cli/main.cpp
index 0ee87a0..8882fa9 100644
--- a/src/cli/main.cpp
+++ b/src/cli/main.cpp
@@ -91,7 +91,7 @@ int to_html(std::string_view file,
         else {
             std::ofstream out { std::string(*out_file) };
             if (!out) {
-                print_io_error(out, *out_file, IO_Error_Code::cannot_open, colors);
+                print_io_error(std::cerr, *out_file, IO_Error_Code::cannot_open, colors);
                 return 1;
             }
 
diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index 123a9e7..3517b5a 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -806,8 +806,7 @@ std::ostream& print_assertion_error(std::ostream& out, const Assertion_Error& er
 std::ostream&
 print_io_error(std::ostream& out, std::string_view file, IO_Error_Code error, bool colors)
 {
-    print_location_of_file(std::cout, file, colors) << ": " << to_prose(error) << '\n';
-    return out;
+    return print_location_of_file(out, file, colors) << ": " << to_prose(error) << '\n';
 }
 
 std::ostream&
-- 
2.43.0


From bf3e4a01d20300e136a00243fa69f3ddb8ee4a49 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 06:37:37 +0000
Subject: [PATCH 75/83] fix: no escape codes in diagnostics without colors

The prefixes "error: " and "note: " were always colored.
---
 src/common/diagnostics.cpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index 3517b5a..62d3630 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -90,8 +90,20 @@ struct Printable_Error {
             && error.evaluation_error() == bms::Evaluation_Error_Code::type_error);
 }
 
-const std::string error_prefix = std::string(ansi::h_red) + "error: " + std::string(ansi::reset);
-const std::string note_prefix = std::string(ansi::h_white) + "note: " + std::string(ansi::reset);
+const std::string colored_error_prefix
+    = std::string(ansi::h_red) + "error: " + std::string(ansi::reset);
+const std::string colored_note_prefix
+    = std::string(ansi::h_white) + "note: " + std::string(ansi::reset);
+
+std::string_view error_prefix(bool colors)
+{
+    return colors ? std::string_view(colored_error_prefix) : "error: ";
+}
+
+std::string_view note_prefix(bool colors)
+{
+    return colors ? std::string_view(colored_note_prefix) : "note: ";
+}
 
 std::string_view to_prose(bms::Tokenize_Error_Code e)
 {
@@ -580,8 +592,8 @@ std::ostream& print_printable_error(std::ostream& out, const Printable_Error& er
     for (const Error_Line& line : error.lines) {
         print_source_position(out, line.pos, colors) << ": ";
         switch (line.type) {
-        case Error_Line_Type::error: out << error_prefix; break;
-        case Error_Line_Type::note: out << note_prefix; break;
+        case Error_Line_Type::error: out << error_prefix(colors); break;
+        case Error_Line_Type::note: out << note_prefix(colors); break;
         }
         out << line.message;
 
@@ -682,7 +694,7 @@ std::ostream& print_tokenize_error(std::ostream& out,
                                    bool colors)
 {
     print_file_position(out, file, e.pos, colors);
-    out << ": " << error_prefix << to_prose(e.code) << '\n';
+    out << ": " << error_prefix(colors) << to_prose(e.code) << '\n';
     print_affected_line(out, source, e.pos, colors);
     return out;
 }
@@ -693,12 +705,12 @@ std::ostream& print_parse_error(std::ostream& out,
                                 const bms::Parse_Error& error,
                                 bool colors)
 {
-    print_file_position(out, file, error.fail_token.pos, colors) << ": " << error_prefix;
+    print_file_position(out, file, error.fail_token.pos, colors) << ": " << error_prefix(colors);
     out << "unexpected token " << token_type_readable_name(error.fail_token.type)
         << " while matching '" << grammar_rule_name(error.fail_rule) << "'\n";
 
     print_file_position(out, file, error.fail_token.pos, colors)
-        << ": " << note_prefix << "expected ";
+        << ": " << note_prefix(colors) << "expected ";
 
     const std::span<const bms::Token_Type> expected = error.expected_tokens;
     if (expected.size() == 0) {
@@ -724,7 +736,7 @@ std::ostream& print_parse_error(std::ostream& out,
                                 const bmd::Parse_Error& error,
                                 bool colors)
 {
-    print_file_position(out, file, error.pos, colors) << ": " << error_prefix;
+    print_file_position(out, file, error.pos, colors) << ": " << error_prefix(colors);
 
     if (error.code == bmd::Parse_Error_Code::unexpected_character) {
         out << "unexpected character '" << source[error.pos.begin] << "' while matching '"
@@ -758,7 +770,7 @@ std::ostream& print_document_error(std::ostream& out,
                                    bool colors)
 {
     print_file_position(out, file, error.pos, colors)
-        << ": " << error_prefix << to_prose(error.code) << '\n';
+        << ": " << error_prefix(colors) << to_prose(error.code) << '\n';
 
     print_affected_line(out, source, error.pos, colors);
     if (error.code == bmd::Document_Error_Code::writer_misuse) {
-- 
2.43.0


From f539592473bdebcc75002ca33522f5fea7ebf00a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 06:37:37 +0000
Subject: [PATCH 76/83] fix: report parse errors at the end of the file there

They were reported as an unexpected identifier in the first line of the file.
---
 src/bms/parsing/parse.cpp       | 14 +++++++++++++-
 src/bms/parsing/parse_error.hpp |  1 +
 src/common/diagnostics.cpp      |  9 +++++++--
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/bms/parsing/parse.cpp b/src/bms/parsing/parse.cpp
index c50756f..ab2ce01 100644
--- a/src/bms/parsing/parse.cpp
+++ b/src/bms/parsing/parse.cpp
@@ -399,13 +399,25 @@ public:
             return {};
         }
         else {
-            const auto fail_token = m_pos < m_tokens.size() ? m_tokens[m_pos] : Token {};
+            const auto fail_token = m_pos < m_tokens.size() ? m_tokens[m_pos] : end_of_file();
             const auto [fail_rule, expected_tokens] = program.error();
             return Parse_Error { fail_rule, expected_tokens, fail_token };
         }
     }
 
 private:
+    /// @brief Returns an empty token located where the last token ends, ignoring comments.
+    [[nodiscard]] Token end_of_file() const noexcept
+    {
+        for (Size i = m_tokens.size(); i-- > 0;) {
+            if (!is_comment(m_tokens[i].type)) {
+                const Local_Source_Span& last = m_tokens[i].pos;
+                return Token { { last.to_right(last.length), 0 }, {} };
+            }
+        }
+        return Token {};
+    }
+
     /// @brief Checks whether the parser is at the end of the file, in a way that respects comments.
     /// @return `true` if the parser has no more tokens to examine.
     [[nodiscard]] bool eof() noexcept
diff --git a/src/bms/parsing/parse_error.hpp b/src/bms/parsing/parse_error.hpp
index 5401f03..702ac07 100644
--- a/src/bms/parsing/parse_error.hpp
+++ b/src/bms/parsing/parse_error.hpp
@@ -19,6 +19,7 @@ struct Parse_Error {
     /// For example, following a `keyword_let`, this would include an `identifier`.
     std::span<const Token_Type> expected_tokens;
     /// @brief The token at which parsing failed.
+    /// If parsing failed at the end of the file, this token is empty (its length is zero).
     Token fail_token;
 };
 
diff --git a/src/common/diagnostics.cpp b/src/common/diagnostics.cpp
index 62d3630..951f4dd 100644
--- a/src/common/diagnostics.cpp
+++ b/src/common/diagnostics.cpp
@@ -706,8 +706,13 @@ std::ostream& print_parse_error(std::ostream& out,
                                 bool colors)
 {
     print_file_position(out, file, error.fail_token.pos, colors) << ": " << error_prefix(colors);
-    out << "unexpected token " << token_type_readable_name(error.fail_token.type)
-        << " while matching '" << grammar_rule_name(error.fail_rule) << "'\n";
+    if (error.fail_token.pos.length == 0) {
+        out << "unexpected end of file";
+    }
+    else {
+        out << "unexpected token " << token_type_readable_name(error.fail_token.type);
+    }
+    out << " while matching '" << grammar_rule_name(error.fail_rule) << "'\n";
 
     print_file_position(out, file, error.fail_token.pos, colors)
         << ": " << note_prefix(colors) << "expected ";
-- 
2.43.0


From 2f8dda8bac71f75e3ad2799e9225de6ae028aa91 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 06:37:37 +0000
Subject: [PATCH 77/83] fix: exit with failure when BMS files cannot be
 converted to HTML

The command said that this is not supported, wrote nothing, and succeeded.
---
 src/cli/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/main.cpp b/src/cli/main.cpp
index 8882fa9..f4bd6a7 100644
--- a/src/cli/main.cpp
+++ b/src/cli/main.cpp
@@ -73,7 +73,7 @@ int to_html(std::string_view file,
 
     if (file.ends_with(".bms")) {
         std::cout << "Converting BMS files to HTML is not supported yet\n";
-        return 0;
+        return 1;
     }
     if (file.ends_with(".bmd")) {
         const bmd::Parsed_Document program = parse_bmd_file(source, file, memory);
-- 
2.43.0


From c74cc22eb0c0e65637581b4539f550aa682fc39a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 06:37:37 +0000
Subject: [PATCH 78/83] fix: report output which cannot be written

All commands succeeded when writing to the output file or to standard output
failed, for example because there is no space left.
---
 src/cli/main.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/cli/main.cpp b/src/cli/main.cpp
index f4bd6a7..c1e97a9 100644
--- a/src/cli/main.cpp
+++ b/src/cli/main.cpp
@@ -97,6 +97,10 @@ int to_html(std::string_view file,
 
             Simple_HTML_Consumer consumer { out };
             result = write_html(consumer, program, memory);
+            if (result && !out.flush()) {
+                print_io_error(std::cerr, *out_file, IO_Error_Code::write_error, colors);
+                return 1;
+            }
         }
 
         if (!result) {
@@ -243,5 +247,12 @@ try {
 
 int main(int argc, const char** argv)
 {
-    return bit_manipulation::main(argc, argv);
+    using namespace bit_manipulation;
+
+    const int status = bit_manipulation::main(argc, argv);
+    if (status == 0 && !std::cout.flush()) {
+        print_io_error(std::cerr, "stdout", IO_Error_Code::write_error, colors);
+        return 1;
+    }
+    return status;
 }
-- 
2.43.0


From 67f10d00c34b023bf3cc212d362d912a3f0c738d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 06:37:37 +0000
Subject: [PATCH 79/83] fix: accept the name of TypeScript in lower case

All enumerator names are documented to be supported as names of languages.
---
 src/cli/glue.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cli/glue.cpp b/src/cli/glue.cpp
index b5f0403..fe0897c 100644
--- a/src/cli/glue.cpp
+++ b/src/cli/glue.cpp
@@ -96,6 +96,7 @@ std::optional<bmd::Code_Language> code_language_by_name(std::string_view name)
         { "JavaScript", javascript },
         { "ts", typescript },
         { "TS", typescript },
+        { "typescript", typescript },
         { "TypeScript", typescript },
     };
     // clang-format on
-- 
2.43.0


From 8ac481cf0891307ec588df9366e1aa037f4b7660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:04 +0000
Subject: [PATCH 80/83] fix: keep the else keyword in generated BMS code

---
 src/bmd/codegen/codegen_bms.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index f88ce1e..05ea0cc 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -306,6 +306,10 @@ struct Bms_Code_Generator::Visitor {
                 }
             }
             else if (const Block_Statement* else_block = get_if<Block_Statement>(else_node)) {
+                self.separate_after_if();
+                self.write_indent();
+                self.write_keyword(bms::Token_Type::keyword_else);
+                self.separate_after_if();
                 if (auto r = Visitor { self, else_node }(*else_block); !r) {
                     return r;
                 }
-- 
2.43.0


From 1b46785183af1c21ee35312c3165ca3cf8c5bdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:04 +0000
Subject: [PATCH 81/83] fix: end call statements with a semicolon in generated
 BMS code

---
 src/bmd/codegen/codegen_bms.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index 05ea0cc..d8aba2e 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -489,6 +489,9 @@ struct Bms_Code_Generator::Visitor {
                 first = false;
             }
         }
+        if (call.is_statement()) {
+            self.write_semicolon();
+        }
 
         attempt.commit();
         return {};
-- 
2.43.0


From ad4262207842f87ef1eb0931e42a3a0576327ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:04 +0000
Subject: [PATCH 82/83] fix: generate requires-clauses in BMS code

---
 src/bmd/codegen/codegen_bms.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index d8aba2e..fc2027e 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -173,6 +173,12 @@ struct Bms_Code_Generator::Visitor {
             !r) {
             return r;
         }
+        if (const Some_Node* requires_clause = function.get_requires_clause_node()) {
+            self.write_infix_keyword(bms::Token_Type::keyword_requires);
+            if (auto r = self.generate_code(requires_clause); !r) {
+                return r;
+            }
+        }
 
         self.separate_after_function();
         if (auto r = Visitor { self, function.get_body_node() }(function.get_body()); !r) {
-- 
2.43.0


From f0e22e8d45c8d6a04dec60e8a28e0bb17b39cd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:04 +0000
Subject: [PATCH 83/83] fix: parenthesize converted binary expressions in
 generated BMS code

---
 src/bmd/codegen/codegen_bms.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bmd/codegen/codegen_bms.cpp b/src/bmd/codegen/codegen_bms.cpp
index fc2027e..93d3abb 100644
--- a/src/bmd/codegen/codegen_bms.cpp
+++ b/src/bmd/codegen/codegen_bms.cpp
@@ -106,6 +106,10 @@ private:
                                          const Some_Node& inner) const final
     {
         const bms::Expression_Type inner_type = bms::ast::get_expression_type(inner);
+        // Only prefix expressions can be converted without parentheses.
+        if (outer_type == bms::Expression_Type::conversion && bms::is_binary(inner_type)) {
+            return true;
+        }
         return !std::is_lteq(bms::compare_precedence(outer_type, inner_type));
     }
 
-- 
2.43.0

