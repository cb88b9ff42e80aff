From a4cebaee527a3458ce5282158adf3e4c01aa3c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 01/32] fix: canonical representation of negative integers in
 FFInt

FFInt(-k * p) stored p instead of 0 and the smallest int was negated
with an overflow, so that FFInt(INT_MIN) had the wrong value.
---
 source/include/firefly/FFInt.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/include/firefly/FFInt.hpp b/source/include/firefly/FFInt.hpp
index da4241c..f4cc845 100644
--- a/source/include/firefly/FFInt.hpp
+++ b/source/include/firefly/FFInt.hpp
@@ -135,7 +135,12 @@ namespace firefly {
         n = static_cast<uint64_t>(n_)  % p;
       }
     } else if (n_ < 0) {
-      n = p - static_cast<uint64_t>(-n_) % p;
+      // negate as unsigned integer, since -n_ overflows for the smallest value of T
+      n = (uint64_t(0) - static_cast<uint64_t>(n_)) % p;
+
+      if (n != 0) {
+        n = p - n;
+      }
     }
   }
 
-- 
2.43.0


From aa5970decc5e715bbe464a075c0e636d7a477741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 02/32] fix: integer powers of FFInt for zero and extreme
 exponents

With FLINT a negative power of zero aborted the program and unsigned
exponents above 2^63 were taken as negative; with the default backend
the smallest int as exponent was negated with an overflow.
---
 source/include/firefly/FFInt.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/source/include/firefly/FFInt.hpp b/source/include/firefly/FFInt.hpp
index f4cc845..9096b87 100644
--- a/source/include/firefly/FFInt.hpp
+++ b/source/include/firefly/FFInt.hpp
@@ -147,7 +147,19 @@ namespace firefly {
 #ifdef FLINT
   template<class T, typename>
   FFInt FFInt::pow(const T& power) const {
-    return FFInt(n_powmod2_preinv(n, power, p, p_inv));
+    uint64_t exp = static_cast<uint64_t>(power);
+    uint64_t base = n;
+
+    if (power < 0) {
+      // FLINT aborts if zero is inverted, whereas division by zero is defined as zero
+      if (n == 0)
+        return FFInt(0);
+
+      exp = uint64_t(0) - exp;
+      base = n_invmod(n, p);
+    }
+
+    return FFInt(n_powmod2_ui_preinv(base, exp, p, p_inv));
   }
 #endif
 
@@ -167,7 +179,7 @@ namespace firefly {
         exp = power;
         base = n;
       } else {
-        exp = static_cast<uint64_t>(-power);
+        exp = uint64_t(0) - static_cast<uint64_t>(power);
         base = mod_inv(n, p);
       }
 
-- 
2.43.0


From 74bb6f72c15682f3c4555046f4a547cc2a7e6326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 03/32] fix: zero to the power of p - 1 in the default backend
 is zero

---
 source/FFInt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/FFInt.cpp b/source/FFInt.cpp
index 2c17b12..05c6c6b 100644
--- a/source/FFInt.cpp
+++ b/source/FFInt.cpp
@@ -162,7 +162,7 @@ namespace firefly {
       uint64_t exp;
       uint64_t base;
 
-      if (ffint.n < (p >> 1)) {
+      if (n == 0 || ffint.n < (p >> 1)) {
         // treat as positive exponent
         exp = ffint.n;
         base = n;
-- 
2.43.0


From 14551fddb6e55004d2bf37fac27f36ea607ed743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 04/32] fix: reduce chunks of long integers before adding them
 with FLINT

---
 source/FFInt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/FFInt.cpp b/source/FFInt.cpp
index 05c6c6b..fb634d9 100644
--- a/source/FFInt.cpp
+++ b/source/FFInt.cpp
@@ -273,7 +273,7 @@ namespace firefly {
 
       if (result) result = n_mulmod2_preinv(result, 1000000000000000000uLL, FFInt::p, FFInt::p_inv);
 
-      result = n_addmod(result, intchunk, FFInt::p);
+      result = n_addmod(result, intchunk % FFInt::p, FFInt::p);
 #else
 
       if (result) result = (FFInt(result) * FFInt(1000000000000000000uLL)).n;
-- 
2.43.0


From 44d4ed70d7a78ed89faa55578b7d743583248bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:37 +0000
Subject: [PATCH 05/32] fix: FFIntVec::at gives access to the last element

---
 source/include/firefly/FFIntVec.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/include/firefly/FFIntVec.hpp b/source/include/firefly/FFIntVec.hpp
index 8364713..05629d4 100644
--- a/source/include/firefly/FFIntVec.hpp
+++ b/source/include/firefly/FFIntVec.hpp
@@ -100,7 +100,7 @@ namespace firefly {
     typename std::array<FFInt, N>::const_iterator end() const noexcept;
     size_t size() const noexcept;
     inline const FFInt& at(int i) {
-      if (i < N - 1)
+      if (i >= 0 && i < N)
         return vec[i];
       else
         throw std::out_of_range("Out of range.");
-- 
2.43.0


From f6ed520eb5cb9a4f488253cb95793a790d874dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 06/32] fix: evaluate negative exponents without precomputed
 tokens

---
 source/include/firefly/ShuntingYardParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/include/firefly/ShuntingYardParser.hpp b/source/include/firefly/ShuntingYardParser.hpp
index 4000fac..65a7785 100644
--- a/source/include/firefly/ShuntingYardParser.hpp
+++ b/source/include/firefly/ShuntingYardParser.hpp
@@ -246,7 +246,7 @@ namespace firefly {
       std::stack<FFIntTemp> nums;
 
       for (const auto& token : tokens) {
-        if (token == "+" || token == "-" || token == "*" || token == "/" || token == "^" || token == "!") {
+        if (token == "+" || token == "-" || token == "*" || token == "/" || token == "^" || token == "!" || token == "~" || token == ";") {
           // Pop two numbers
           FFIntTemp a = nums.top();
           nums.pop();
-- 
2.43.0


From 4c42ef43c03d829579e45863ec14fbd739e20cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 07/32] fix: keep the whole divisor when a variable is divided
 by a folded quotient

---
 source/ShuntingYardParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/ShuntingYardParser.cpp b/source/ShuntingYardParser.cpp
index e568e5a..e8a9597 100644
--- a/source/ShuntingYardParser.cpp
+++ b/source/ShuntingYardParser.cpp
@@ -637,7 +637,9 @@ namespace firefly {
 	      partial_rpn[i].emplace_back(std::make_pair(j, v_2));
             } else if (precomp_tokens[i][j - 1].first == tokens::NUMBER && (precomp_tokens[i][j - 2].first == tokens::VARIABLE || precomp_tokens[i][j - 2].first == tokens::NEG_VARIABLE)) {
               FFInt inverse = 1 / precomp_tokens[i][j - 1].second;
-	      partial_rpn[i].back().second = {{"1", partial_rpn[i].back().second[0] , "/"}};
+	      auto& v = partial_rpn[i].back().second;
+	      v.insert(v.begin(), "1");
+	      v.emplace_back("/");
 
               precomp_tokens[i][j - 1].second = inverse;
               precomp_tokens[i][j] = {tokens::MULT, 0};
-- 
2.43.0


From 31447b4a3f85893e86b648db9e3f8c76c6e94d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 08/32] fix: reserve the first stack entry in evaluate_pre_2

---
 source/include/firefly/ShuntingYardParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/include/firefly/ShuntingYardParser.hpp b/source/include/firefly/ShuntingYardParser.hpp
index 65a7785..5cc9d24 100644
--- a/source/include/firefly/ShuntingYardParser.hpp
+++ b/source/include/firefly/ShuntingYardParser.hpp
@@ -490,7 +490,7 @@ namespace firefly {
     }
 
     for (const auto& tokens : precomp_tokens) {
-      FFIntTemp* stack = new FFIntTemp[tokens.size()];//TODO evaluate maximum stack size. using the heap will make the evaluation slower!
+      FFIntTemp* stack = new FFIntTemp[tokens.size() + 1];//TODO evaluate maximum stack size. using the heap will make the evaluation slower!
       size_t stack_depth = 0;
 
       for (const auto& token : tokens) {
-- 
2.43.0


From 7feb1160d7d3566fa7bbd429ecaae8058aea6fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 09/32] fix: update all functions if one is added in a new
 field with add_otf_precompute

---
 source/ShuntingYardParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/ShuntingYardParser.cpp b/source/ShuntingYardParser.cpp
index e8a9597..f7f419f 100644
--- a/source/ShuntingYardParser.cpp
+++ b/source/ShuntingYardParser.cpp
@@ -329,8 +329,9 @@ namespace firefly {
   }
 
   size_t ShuntingYardParser::add_otf_precompute(const std::vector<std::string>& rpn_fun) {
+    // Bring all other functions to the current field first
     if (FFInt::p != prime_internal) {
-      prime_internal = FFInt::p;
+      precompute_tokens();
     }
 
     precomp_tokens.emplace_back(std::vector<std::pair<uint8_t, FFInt>>());
-- 
2.43.0


From ae141796df8cbf7a24bc9bf97387ad7b270fd2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:51 +0000
Subject: [PATCH 10/32] fix: trim keeps precomputed tokens and their numbers
 together

---
 source/ShuntingYardParser.cpp | 44 ++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/source/ShuntingYardParser.cpp b/source/ShuntingYardParser.cpp
index f7f419f..15bd646 100644
--- a/source/ShuntingYardParser.cpp
+++ b/source/ShuntingYardParser.cpp
@@ -723,23 +723,32 @@ namespace firefly {
   std::unordered_map<size_t, size_t> ShuntingYardParser::trim(const std::unordered_set<size_t>& elements_to_keep) {
     std::vector<std::vector<std::string>> new_functions {};
     std::vector<std::vector<std::pair<uint8_t, FFInt>>> new_precomp_tokens {};
+    std::vector<std::vector<std::pair<size_t, std::vector<std::string>>>> new_partial_rpn {};
     std::vector<uint64_t> new_evaluation_positions {};
     std::unordered_map<size_t, size_t> new_positions {};
 
-    // TODO check_map and check_vars?
-    INFO_MSG("Trimming parser: " + std::to_string(functions.size() - elements_to_keep.size())
-             + " out of " + std::to_string(functions.size()) + " functions will be removed");
+    // The RPN and the precomputed tokens may hold a different number of functions
+    const size_t size = std::max(functions.size(), precomp_tokens.size());
+    auto keep_function = [&](size_t i) {
+      if (i < functions.size()) {
+        new_functions.emplace_back(std::move(functions[i]));
+      }
 
-    if (!check_is_equal) {
-      for (size_t i = 0; i != functions.size(); ++i) {
-        if (elements_to_keep.find(i) != elements_to_keep.end()) {
-          new_functions.emplace_back(std::move(functions[i]));
+      if (i < precomp_tokens.size()) {
+        new_precomp_tokens.emplace_back(std::move(precomp_tokens[i]));
+        new_partial_rpn.emplace_back(std::move(partial_rpn[i]));
+      }
 
-          if (!precomp_tokens.empty()) {
-            new_precomp_tokens.emplace_back(std::move(precomp_tokens[i]));
-          }
+      return std::max(new_functions.size(), new_precomp_tokens.size()) - 1;
+    };
+
+    INFO_MSG("Trimming parser: " + std::to_string((check_is_equal ? evaluation_positions.size() : size) - elements_to_keep.size())
+             + " out of " + std::to_string(check_is_equal ? evaluation_positions.size() : size) + " functions will be removed");
 
-          new_positions.emplace(std::make_pair(i, new_functions.size() - 1));
+    if (!check_is_equal) {
+      for (size_t i = 0; i != size; ++i) {
+        if (elements_to_keep.find(i) != elements_to_keep.end()) {
+          new_positions.emplace(std::make_pair(i, keep_function(i)));
         }
       }
     } else {
@@ -752,14 +761,9 @@ namespace firefly {
           if (it != copied_functions.end()) {
             new_evaluation_positions.emplace_back(static_cast<uint64_t>(it->second));
           } else {
-            new_functions.emplace_back(std::move(functions[evaluation_positions[i]]));
-
-            if (!precomp_tokens.empty()) {
-              new_precomp_tokens.emplace_back(std::move(precomp_tokens[evaluation_positions[i]]));
-            }
-
-            copied_functions.emplace(std::make_pair(static_cast<size_t>(evaluation_positions[i]), new_functions.size() - 1));
-            new_evaluation_positions.emplace_back(static_cast<uint64_t>(new_functions.size() - 1));
+            const size_t new_position = keep_function(static_cast<size_t>(evaluation_positions[i]));
+            copied_functions.emplace(std::make_pair(static_cast<size_t>(evaluation_positions[i]), new_position));
+            new_evaluation_positions.emplace_back(static_cast<uint64_t>(new_position));
           }
 
           new_positions.emplace(std::make_pair(i, new_evaluation_positions.size() - 1));
@@ -769,10 +773,12 @@ namespace firefly {
 
     new_functions.shrink_to_fit();
     new_precomp_tokens.shrink_to_fit();
+    new_partial_rpn.shrink_to_fit();
     new_evaluation_positions.shrink_to_fit();
 
     functions = std::move(new_functions);
     precomp_tokens = std::move(new_precomp_tokens);
+    partial_rpn = std::move(new_partial_rpn);
     evaluation_positions = std::move(new_evaluation_positions);
 
     return new_positions;
-- 
2.43.0


From 4b0d8939b44bfb666f9b9da6297b5320e8d16046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 11/32] fix: functions can be added to a parser which detects
 equal functions

---
 source/ShuntingYardParser.cpp | 41 ++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/source/ShuntingYardParser.cpp b/source/ShuntingYardParser.cpp
index 15bd646..b2d69d1 100644
--- a/source/ShuntingYardParser.cpp
+++ b/source/ShuntingYardParser.cpp
@@ -354,26 +354,34 @@ namespace firefly {
       functions.emplace_back(tokens);
       return functions.size() - 1;
     } else {
+      const uint64_t current_prime = FFInt::p;
       FFInt::set_new_prime(primes()[prime_counter != 299 ? prime_counter + 1 : prime_counter - 1]);
       FFInt v1 = evaluate(tokens, check_vars_1);
       FFInt::set_new_prime(primes()[prime_counter]);
       FFInt v2 = evaluate(tokens, check_vars_2);
+      FFInt::set_new_prime(current_prime);
 
-      if (check_map.find(std::make_pair(v1.n, v2.n)) != check_map.end()) {
+      const auto it = check_map.find(std::make_pair(v1.n, v2.n));
+
+      if (it != check_map.end()) {
         if (!no_duplicates) {
-          evaluation_positions.emplace_back(check_map[std::make_pair(v1.n, v2.n)]);
-        }
+          evaluation_positions.emplace_back(it->second);
+        } else {
+          // Position at which the value of the equal function appears in an evaluation
+          if (it->second < evaluation_positions.size() && evaluation_positions[it->second] == it->second)
+            return static_cast<size_t>(it->second);
 
-        return static_cast<size_t>(check_map[std::make_pair(v1.n, v2.n)]);
+          return static_cast<size_t>(std::find(evaluation_positions.begin(), evaluation_positions.end(), it->second) - evaluation_positions.begin());
+        }
       } else {
         functions.emplace_back(tokens);
 
         uint64_t s = static_cast<uint64_t>(functions.size() - 1);
         check_map.emplace(std::make_pair(std::make_pair(v1.n, v2.n), s));
         evaluation_positions.emplace_back(s);
-
-        return static_cast<size_t>(s);
       }
+
+      return evaluation_positions.size() - 1;
     }
   }
 
@@ -556,11 +564,6 @@ namespace firefly {
       return;
     }
 
-    // TODO really clear here?
-    check_vars_1.clear();
-    check_vars_2.clear();
-    check_map.clear();
-
     if (!precomputed || force) {
       uint64_t size = functions.size();
       precomp_tokens = std::vector<std::vector<std::pair<uint8_t, FFInt>>>(size);
@@ -726,6 +729,7 @@ namespace firefly {
     std::vector<std::vector<std::pair<size_t, std::vector<std::string>>>> new_partial_rpn {};
     std::vector<uint64_t> new_evaluation_positions {};
     std::unordered_map<size_t, size_t> new_positions {};
+    std::unordered_map<size_t, size_t> copied_functions {};
 
     // The RPN and the precomputed tokens may hold a different number of functions
     const size_t size = std::max(functions.size(), precomp_tokens.size());
@@ -752,8 +756,6 @@ namespace firefly {
         }
       }
     } else {
-      std::unordered_map<size_t, size_t> copied_functions {};
-
       for (size_t i = 0; i != evaluation_positions.size(); ++i) {
         if (elements_to_keep.find(i) != elements_to_keep.end()) {
           const auto& it = copied_functions.find(static_cast<size_t>(evaluation_positions[i]));
@@ -771,6 +773,19 @@ namespace firefly {
       }
     }
 
+    // Functions which are not part of the parser anymore cannot be found as equal functions
+    std::unordered_map<std::pair<uint64_t, uint64_t>, uint64_t, UintPairHasher> new_check_map {};
+
+    for (const auto& el : check_map) {
+      const auto& it = copied_functions.find(static_cast<size_t>(el.second));
+
+      if (it != copied_functions.end()) {
+        new_check_map.emplace(std::make_pair(el.first, static_cast<uint64_t>(it->second)));
+      }
+    }
+
+    check_map = std::move(new_check_map);
+
     new_functions.shrink_to_fit();
     new_precomp_tokens.shrink_to_fit();
     new_partial_rpn.shrink_to_fit();
-- 
2.43.0


From e9be9253d64cb39fca988ba7164894fb96c3e955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 12/32] fix: collect like terms in products of finite-field
 polynomials

---
 source/PolynomialFF.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/PolynomialFF.cpp b/source/PolynomialFF.cpp
index 6cc3410..61623c1 100644
--- a/source/PolynomialFF.cpp
+++ b/source/PolynomialFF.cpp
@@ -325,7 +325,14 @@ namespace firefly {
                          coef_b.first.begin(), new_deg.begin(),
                          std::plus<uint32_t>());
 
-          new_monomials.emplace(std::make_pair(new_deg, new_coef));
+          auto got = new_monomials.emplace(std::make_pair(new_deg, new_coef));
+
+          if (!got.second) {
+            got.first -> second += new_coef;
+
+            if (got.first -> second == 0)
+              new_monomials.erase(got.first);
+          }
         }
       }
     }
-- 
2.43.0


From b1d7957f1036aa8134f072ede8de4fc31a9ceb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 13/32] fix: keep the constant term when shifting a
 finite-field polynomial

---
 source/PolynomialFF.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/PolynomialFF.cpp b/source/PolynomialFF.cpp
index 61623c1..4e1c796 100644
--- a/source/PolynomialFF.cpp
+++ b/source/PolynomialFF.cpp
@@ -410,6 +410,10 @@ namespace firefly {
         }
       }
 
+      // The constant term is not affected by a shift
+      if (pow_poly.coefs.empty() && mon.second != 0)
+        pow_poly.coefs.emplace(mon);
+
       if (!pow_poly.coefs.empty()) {
         if (res.coefs.empty())
           res.coefs = pow_poly.coefs;
-- 
2.43.0


From 9ec9f4543f6df14b6efdc9456be4c3515fea36ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 14/32] fix: forget cached degrees of a finite-field polynomial
 when it changes

---
 source/PolynomialFF.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/PolynomialFF.cpp b/source/PolynomialFF.cpp
index 4e1c796..1fe72fc 100644
--- a/source/PolynomialFF.cpp
+++ b/source/PolynomialFF.cpp
@@ -145,6 +145,9 @@ namespace firefly {
 
     eval_horner = false;
 
+    max_degree.clear();
+    min_degree.clear();
+
     return *this;
   }
 
@@ -167,6 +170,9 @@ namespace firefly {
 
     eval_horner = false;
 
+    max_degree.clear();
+    min_degree.clear();
+
     return *this;
   }
 
-- 
2.43.0


From bd7b96955f2c20fe0fb5b9b583f3a71f95520b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 15/32] fix: products of rational numbers leave the operands
 unchanged

---
 source/RationalNumber.cpp | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/source/RationalNumber.cpp b/source/RationalNumber.cpp
index 2fdc5de..0c7a55d 100644
--- a/source/RationalNumber.cpp
+++ b/source/RationalNumber.cpp
@@ -34,18 +34,7 @@ namespace firefly {
   RationalNumber::RationalNumber() {}
 
   RationalNumber RationalNumber::operator*(const RationalNumber& rn) {
-    mpz_class num(numerator * rn.numerator);
-    mpz_class den(denominator * rn.denominator);
-
-    if (den < 0) {
-      num = -num;
-      den = -den;
-    }
-
-    mpz_class gcd_(gcd(num, den));
-    numerator = num / gcd_;
-    denominator = den / gcd_;
-    return *this;
+    return RationalNumber(numerator * rn.numerator, denominator * rn.denominator);
   }
 
   RationalNumber& RationalNumber::operator-=(const RationalNumber& rn) {
-- 
2.43.0


From d313e3a5ca98cc08b736920257f334b401d9f879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 16/32] fix: convert the empty polynomial to a finite-field
 polynomial

---
 source/Polynomial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Polynomial.cpp b/source/Polynomial.cpp
index 5b38717..b93a7a5 100644
--- a/source/Polynomial.cpp
+++ b/source/Polynomial.cpp
@@ -132,7 +132,7 @@ namespace firefly {
 
   PolynomialFF Polynomial::convert_to_PolynomialFF() {
     ff_map coefs_ff;
-    uint32_t n = coefs[0].powers.size();
+    uint32_t n = coefs.empty() ? 0 : coefs[0].powers.size();
 
     for (auto & coef : coefs) {
       FFInt coef_ff = FFInt(coef.coef.numerator) / FFInt(coef.coef.denominator);
-- 
2.43.0


From a93d393685526d14626504ea6c88f46eb55a53d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 17/32] fix: subtract and divide a number by a vector in the
 written order

---
 source/FFIntVec.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/FFIntVec.cpp b/source/FFIntVec.cpp
index c0b757c..00d6c6b 100644
--- a/source/FFIntVec.cpp
+++ b/source/FFIntVec.cpp
@@ -259,10 +259,10 @@ namespace firefly {
 
   template<int N>
   FFIntVec<N> operator-(const FFInt& b, const FFIntVec<N>& a) {
-    FFIntVec<N> result(a);
+    FFIntVec<N> result(b);
 
     for (int i = 0; i != N; ++i) {
-      result.vec[i] -= b;
+      result.vec[i] -= a.vec[i];
     }
 
     return result;
@@ -281,10 +281,10 @@ namespace firefly {
 
   template<int N>
   FFIntVec<N> operator/(const FFInt& b, const FFIntVec<N>& a) {
-    FFIntVec<N> result(a);
+    FFIntVec<N> result(b);
 
     for (int i = 0; i != N; ++i) {
-      result.vec[i] /= b;
+      result.vec[i] /= a.vec[i];
     }
 
     return result;
-- 
2.43.0


From 1cf4faf4ea18847d7feb4e3574f0e52f91a60690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 18/32] fix: an idle thread wakes all clients which wait for
 the pool

---
 source/include/firefly/ThreadPool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/include/firefly/ThreadPool.hpp b/source/include/firefly/ThreadPool.hpp
index a1d1e69..5991bd9 100644
--- a/source/include/firefly/ThreadPool.hpp
+++ b/source/include/firefly/ThreadPool.hpp
@@ -62,7 +62,7 @@ namespace firefly {
             {
               std::unique_lock<std::mutex> lock(mutex);
               threads_idle[i] = true;
-              condition_wait.notify_one();
+              condition_wait.notify_all();
               condition.wait(lock, [this] { return stop || !tasks.empty(); });
               threads_idle[i] = false;
 
-- 
2.43.0


From 8f9bae39b15e273b54f87dccce18032a0e0c5328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:51 +0000
Subject: [PATCH 19/32] fix: stopping after a number of prime fields does not
 mark the next field as completed

---
 source/include/firefly/Reconstructor.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 5932418..8f6eca1 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -2853,7 +2853,8 @@ namespace firefly {
     new_jobs = false; // to make sure that no new jobs have been started
 #endif
 
-    if (!factor_scan && !scan && save_states) {
+    // if the run was only stopped by prime_counter, the current field is not complete and the files stay as they are
+    if (!factor_scan && !scan && save_states && items_done == items) {
       for (uint32_t item = 0; item != items; ++item) {
         // remove probe files if the interpolation is done
         std::remove(("ff_save/probes/" + std::to_string(item) + "_" + std::to_string(prime_it) + ".gz").c_str());
-- 
2.43.0


From 35b5c3c82ea3279271484fca4fdeb851c60a1212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:34 +0000
Subject: [PATCH 20/32] fix: anchor points set by the user are used after a
 resume

---
 source/include/firefly/Reconstructor.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 8f6eca1..f53dab9 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -2512,8 +2512,11 @@ namespace firefly {
         }
 
         // Load anchor points and the shift to resume from saved probes
+        bool generate_new_anchor_points = true;
+
         if (save_states && load_anchor_points) {
           load_anchor_points = false;
+          generate_new_anchor_points = false;
           std::string line;
           std::ifstream anchor_point_file;
           anchor_point_file.open("ff_save/anchor_points");
@@ -2553,7 +2556,10 @@ namespace firefly {
               ++items_new_prime;
             }
           }
-        } else if (anchor_points.size() > static_cast<std::size_t>(prime_it)) {
+        }
+
+        // The saved anchor points can belong to the previous prime field, those set by the user take precedence
+        if (anchor_points.size() > static_cast<std::size_t>(prime_it)) {
           std::vector<FFInt> tmp_an_vec;
 
           for (const auto value : anchor_points[prime_it]) {
@@ -2565,7 +2571,7 @@ namespace firefly {
           for (auto & rec : reconst) {
             std::get<2>(rec)->set_anchor_points(tmp_an_vec);
           }
-        } else {
+        } else if (generate_new_anchor_points) {
           tmp_rec.generate_anchor_points();
           const auto tmp_an_vec = tmp_rec.get_anchor_points();
 
-- 
2.43.0


From f98a4b9598b4614b62bdf2c4c3c86c9eb338d443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:19 +0000
Subject: [PATCH 21/32] fix: there is exactly one probe file per function at
 any time

---
 source/RatReconst.cpp                    | 27 +++---------------------
 source/include/firefly/Reconstructor.hpp |  6 +-----
 source/include/firefly/utils.hpp         |  7 ++++++
 source/utils.cpp                         | 20 ++++++++++++++++++
 4 files changed, 31 insertions(+), 29 deletions(-)

diff --git a/source/RatReconst.cpp b/source/RatReconst.cpp
index 02f5a97..fedda64 100644
--- a/source/RatReconst.cpp
+++ b/source/RatReconst.cpp
@@ -157,14 +157,7 @@ namespace firefly {
             else
               save_zero_state();
 
-            std::string probe_file_name_tmp = "ff_save/tmp/probe_" + tag + "_" + std::to_string(prime_number + 1) + "_tmp.gz";
-	    std::rename(("ff_save/probes/" + tag + "_" + std::to_string(prime_number) + ".gz").c_str(), probe_file_name_tmp.c_str()); 
-            ogzstream gzfile;
-            std::string probe_file_name = "ff_save/probes/" + tag + "_" + std::to_string(prime_number + 1) + ".gz";
-            gzfile.open(probe_file_name.c_str());
-            gzfile.close();
-	    std::rename(probe_file_name.c_str(), probe_file_name_tmp.c_str());
-	    std::rename(probe_file_name_tmp.c_str(), probe_file_name.c_str());
+            renew_probe_file(tag, prime_number);
           }
 
           ++prime_number;
@@ -238,14 +231,7 @@ namespace firefly {
             else
               save_zero_state();
 
-            std::string probe_file_name_tmp = "ff_save/tmp/probe_" + tag + "_" + std::to_string(prime_number + 1) + "_tmp.gz";
-	    std::rename(("ff_save/probes/" + tag + "_" + std::to_string(prime_number) + ".gz").c_str(), probe_file_name_tmp.c_str()); 
-            ogzstream gzfile;
-            std::string probe_file_name = "ff_save/probes/" + tag + "_" + std::to_string(prime_number + 1) + ".gz";
-            gzfile.open(probe_file_name.c_str());
-            gzfile.close();
-	    std::rename(probe_file_name.c_str(), probe_file_name_tmp.c_str());
-	    std::rename(probe_file_name_tmp.c_str(), probe_file_name.c_str());
+            renew_probe_file(tag, prime_number);
           }
 
           ++prime_number;
@@ -1738,14 +1724,7 @@ namespace firefly {
         std::queue<std::tuple<FFInt, FFInt, std::vector<uint32_t>>> tmp_;
         saved_food.swap(tmp_);
 
-	std::string probe_file_name_tmp = "ff_save/tmp/probe_" + tag + "_" + std::to_string(prime_number) + "_tmp.gz";
-	std::rename(("ff_save/probes/" + tag + "_" + std::to_string(prime_number - 1) + ".gz").c_str(), probe_file_name_tmp.c_str()); 
-	ogzstream gzfile;
-	std::string probe_file_name = "ff_save/probes/" + tag + "_" + std::to_string(prime_number) + ".gz";
-	gzfile.open(probe_file_name.c_str());
-	gzfile.close();
-	std::rename(probe_file_name.c_str(), probe_file_name_tmp.c_str());
-	std::rename(probe_file_name_tmp.c_str(), probe_file_name.c_str());
+        renew_probe_file(tag, prime_number - 1);
       }
 
       queue = std::queue<std::tuple<FFInt, FFInt, std::vector<uint32_t>>>();
diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index f53dab9..011c3e7 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -2863,11 +2863,7 @@ namespace firefly {
     if (!factor_scan && !scan && save_states && items_done == items) {
       for (uint32_t item = 0; item != items; ++item) {
         // remove probe files if the interpolation is done
-        std::remove(("ff_save/probes/" + std::to_string(item) + "_" + std::to_string(prime_it) + ".gz").c_str());
-        ogzstream gzfile;
-        std::string file_name = "ff_save/probes/" + std::to_string(item) + "_" + std::to_string(prime_it + 1) + ".gz";
-        gzfile.open(file_name.c_str());
-        gzfile.close();
+        renew_probe_file(std::to_string(item), prime_it);
 
         if (prime_it) {
           std::string file_name_old = "ff_save/states/" + std::to_string(item) + "_" + std::to_string(prime_it - 1) + ".gz";
diff --git a/source/include/firefly/utils.hpp b/source/include/firefly/utils.hpp
index b45195a..f599d14 100644
--- a/source/include/firefly/utils.hpp
+++ b/source/include/firefly/utils.hpp
@@ -114,4 +114,11 @@ namespace firefly {
    *  @return the number of probes which have been assigned
    */
   uint32_t compute_job_number(const uint32_t queue_length, const uint32_t threads, const uint32_t total_threads, const uint32_t bunch_size);
+  /**
+   *  Replaces the file with the saved probes of a prime field by an empty one for the next prime field.
+   *  There is exactly one file for this tag at any time.
+   *  @param tag the tag of the function
+   *  @param prime_number the index of the completed prime field
+   */
+  void renew_probe_file(const std::string& tag, const uint32_t prime_number);
 }
diff --git a/source/utils.cpp b/source/utils.cpp
index c13f3f0..b25225d 100644
--- a/source/utils.cpp
+++ b/source/utils.cpp
@@ -17,9 +17,13 @@
 //==================================================================================
 
 #include "firefly/utils.hpp"
+#include "firefly/gzstream.hpp"
 #include "firefly/RatReconst.hpp"
 #include "firefly/ReconstHelper.hpp"
 
+#include <cstdio>
+#include <fstream>
+
 namespace firefly {
   std::pair<mpz_class, mpz_class> run_chinese_remainder(
     const std::pair<mpz_class, mpz_class>& p1,
@@ -342,4 +346,20 @@ namespace firefly {
 
     return queue_length - tmp_queue_length;
   }
+
+  void renew_probe_file(const std::string& tag, const uint32_t prime_number) {
+    const std::string tmp_file_name = "ff_save/tmp/probe_" + tag + ".gz";
+    const std::string old_file_name = "ff_save/probes/" + tag + "_" + std::to_string(prime_number) + ".gz";
+    const std::string new_file_name = "ff_save/probes/" + tag + "_" + std::to_string(prime_number + 1) + ".gz";
+
+    if (!std::ifstream(old_file_name.c_str()).is_open()) {
+      return;
+    }
+
+    ogzstream gzfile;
+    gzfile.open(tmp_file_name.c_str());
+    gzfile.close();
+    std::rename(tmp_file_name.c_str(), old_file_name.c_str());
+    std::rename(old_file_name.c_str(), new_file_name.c_str());
+  }
 }
-- 
2.43.0


From 63b9ac336d796bb16aa1194e87ae6ec8fb4d6ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:43 +0000
Subject: [PATCH 22/32] fix: saved anchor points and shifts are replaced at
 once

---
 source/include/firefly/Reconstructor.hpp | 52 ++----------------------
 source/include/firefly/utils.hpp         |  6 +++
 source/utils.cpp                         | 15 +++++++
 3 files changed, 25 insertions(+), 48 deletions(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 011c3e7..3e7a239 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -1002,18 +1002,7 @@ namespace firefly {
 
     if (!done) {
       if (save_states && !load_anchor_points) {
-        std::string tmp_str = "";
-        std::ofstream file;
-        file.open("ff_save/shift");
-        tmp_str = "";
-
-        for (const auto & el : tmp_rec.get_zi_shift_vec()) {
-          tmp_str += std::to_string(el.n) + " ";
-        }
-
-        tmp_str += std::string("\n");
-        file << tmp_str;
-        file.close();
+        save_vector("shift", tmp_rec.get_zi_shift_vec());
       }
 
       run_until_done(prime_counter);
@@ -2134,18 +2123,7 @@ namespace firefly {
       mkdir("ff_save/states", S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
       mkdir("ff_save/tmp", S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
       mkdir("ff_save/probes", S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
-      std::ofstream anchor_file;
-      anchor_file.open("ff_save/anchor_points");
-
-      std::string tmp_str = "";
-
-      for (const auto & el : tmp_rec.get_anchor_points()) {
-        tmp_str += std::to_string(el.n) + " ";
-      }
-
-      tmp_str += std::string("\n");
-      anchor_file << tmp_str;
-      anchor_file.close();
+      save_vector("anchor_points", tmp_rec.get_anchor_points());
 
       file.open("ff_save/validation.gz");
 
@@ -2594,30 +2572,8 @@ namespace firefly {
         shift = tmp_rec.get_zi_shift_vec();
 
         if (save_states) {
-          std::remove("ff_save/anchor_points");
-          std::ofstream file;
-          file.open("ff_save/anchor_points");
-          std::string tmp_str = "";
-
-          for (const auto & el : tmp_rec.get_anchor_points()) {
-            tmp_str += std::to_string(el.n) + " ";
-          }
-
-          tmp_str += std::string("\n");
-          file << tmp_str;
-          file.close();
-
-          std::remove("ff_save/shift");
-          file.open("ff_save/shift");
-          tmp_str = "";
-
-          for (const auto & el : tmp_rec.get_zi_shift_vec()) {
-            tmp_str += std::to_string(el.n) + " ";
-          }
-
-          tmp_str += std::string("\n");
-          file << tmp_str;
-          file.close();
+          save_vector("anchor_points", tmp_rec.get_anchor_points());
+          save_vector("shift", tmp_rec.get_zi_shift_vec());
         }
 
         // start only thr_n jobs first, because the reconstruction can be done after the first feed
diff --git a/source/include/firefly/utils.hpp b/source/include/firefly/utils.hpp
index f599d14..752877a 100644
--- a/source/include/firefly/utils.hpp
+++ b/source/include/firefly/utils.hpp
@@ -121,4 +121,10 @@ namespace firefly {
    *  @param prime_number the index of the completed prime field
    */
   void renew_probe_file(const std::string& tag, const uint32_t prime_number);
+  /**
+   *  Writes a list of numbers to a file. The file is replaced at once.
+   *  @param name the name of the file in the directory ff_save
+   *  @param values the numbers
+   */
+  void save_vector(const std::string& name, const std::vector<FFInt>& values);
 }
diff --git a/source/utils.cpp b/source/utils.cpp
index b25225d..19e9b8b 100644
--- a/source/utils.cpp
+++ b/source/utils.cpp
@@ -362,4 +362,19 @@ namespace firefly {
     std::rename(tmp_file_name.c_str(), old_file_name.c_str());
     std::rename(old_file_name.c_str(), new_file_name.c_str());
   }
+
+  void save_vector(const std::string& name, const std::vector<FFInt>& values) {
+    const std::string tmp_file_name = "ff_save/tmp/" + name;
+
+    std::ofstream file;
+    file.open(tmp_file_name.c_str());
+
+    for (const auto & value : values) {
+      file << std::to_string(value.n) + " ";
+    }
+
+    file << "\n";
+    file.close();
+    std::rename(tmp_file_name.c_str(), ("ff_save/" + name).c_str());
+  }
 }
-- 
2.43.0


From db0c97e19094135a18593d95852245f9f8afc055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:43 +0000
Subject: [PATCH 23/32] fix: a saved state is only valid when it is complete

---
 source/include/firefly/Reconstructor.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 3e7a239..b557f2d 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -1281,6 +1281,7 @@ namespace firefly {
     scan = false;
 
     if (save_states == true) {
+      save_vector("shift", shift);
       std::ofstream file;
       file.open("ff_save/scan");
       file.close();
@@ -2123,9 +2124,12 @@ namespace firefly {
       mkdir("ff_save/states", S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
       mkdir("ff_save/tmp", S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
       mkdir("ff_save/probes", S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
+      std::remove("ff_save/validation.gz");
       save_vector("anchor_points", tmp_rec.get_anchor_points());
+      save_vector("shift", tmp_rec.get_zi_shift_vec());
 
-      file.open("ff_save/validation.gz");
+      // The validation file is put to its place when the states of all functions are saved
+      file.open("ff_save/tmp/validation.gz");
 
       std::vector<FFInt> rand_zi= tmp_rec.get_rand_zi_vec(zi_order);
 
@@ -2214,6 +2218,7 @@ namespace firefly {
 
     if (!factor_scan && save_states) {
       file.close();
+      std::rename("ff_save/tmp/validation.gz", "ff_save/validation.gz");
       tags.clear();
     }
 
-- 
2.43.0


From 4c8cdaf7d9841b01b11090cbe9c73955ad03f4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:43 +0000
Subject: [PATCH 24/32] fix: the state of a vanishing function or an accepted
 shift is saved at once

---
 source/RatReconst.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/RatReconst.cpp b/source/RatReconst.cpp
index fedda64..8570c0c 100644
--- a/source/RatReconst.cpp
+++ b/source/RatReconst.cpp
@@ -2362,9 +2362,10 @@ namespace firefly {
   void RatReconst::accept_shift() {
     if (tag.size() != 0) {
       std::string file_name = "ff_save/states/" + tag + "_" + std::to_string(prime_number) + ".gz";
+      std::string tmp_file_name = "ff_save/tmp/" + tag + "_" + std::to_string(prime_number) + ".gz";
       //std::ofstream file;
       ogzstream file;
-      file.open(file_name.c_str());
+      file.open(tmp_file_name.c_str());
       file << "tag_name\n" << tag_name << "\n";
       file << "normalize_to_den\n" << std::to_string(normalize_to_den) << "\n";
       file << "individual_degrees_num\n";
@@ -2388,6 +2389,7 @@ namespace firefly {
       }
 
       file.close();
+      std::rename(tmp_file_name.c_str(), file_name.c_str());
     }
 
     /*factor_degs.first.clear();
@@ -2498,11 +2500,13 @@ namespace firefly {
   void RatReconst::save_zero_state() {
     ogzstream file;
     std::string file_name = "ff_save/states/" + tag + "_" + std::to_string(prime_number) + ".gz";
-    file.open(file_name.c_str());
+    std::string tmp_file_name = "ff_save/tmp/" + tag + "_" + std::to_string(prime_number) + ".gz";
+    file.open(tmp_file_name.c_str());
     file << "ZERO\n";
     interpolations > 1 ? file << "1\n" : file << "0\n";
     file << tag_name << "\n";
     file.close();
+    std::rename(tmp_file_name.c_str(), file_name.c_str());
   }
 
   void RatReconst::save_zero_consecutive_prime() {
-- 
2.43.0


From dccb2eb67ade2e8f862d0ea1d0ede5ac11ffb44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 25/32] fix: probes are not written to the file of the next
 prime field

---
 source/RatReconst.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/RatReconst.cpp b/source/RatReconst.cpp
index 8570c0c..75f532b 100644
--- a/source/RatReconst.cpp
+++ b/source/RatReconst.cpp
@@ -1711,9 +1711,7 @@ namespace firefly {
     {
       std::unique_lock<std::mutex> lock(mutex_status);
 
-      ++prime_number;
-
-      // Remove old probes and create new file
+      // Remove old probes and create new file, probes which are still written belong to the old prime
       if (tag.size() != 0) {
         while (is_writing_probes) {
           // TODO: better with condition variable: as pointer?
@@ -1724,9 +1722,11 @@ namespace firefly {
         std::queue<std::tuple<FFInt, FFInt, std::vector<uint32_t>>> tmp_;
         saved_food.swap(tmp_);
 
-        renew_probe_file(tag, prime_number - 1);
+        renew_probe_file(tag, prime_number);
       }
 
+      ++prime_number;
+
       queue = std::queue<std::tuple<FFInt, FFInt, std::vector<uint32_t>>>();
       saved_ti.clear();
       zi = 1;
-- 
2.43.0


From e931adf39e35ac59a8ec0bf42c368e939a4aae8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 26/32] fix: probe files are continued only with complete lines
 of the current prime field

---
 source/RatReconst.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/source/RatReconst.cpp b/source/RatReconst.cpp
index 75f532b..bb09c07 100644
--- a/source/RatReconst.cpp
+++ b/source/RatReconst.cpp
@@ -3691,8 +3691,18 @@ namespace firefly {
     igzstream file(file_name.c_str());
     auto prime_it = parse_prime_number(file_name);
 
-    if (!done && prime_it == prime_number) {
-      while (std::getline(file, line)) {
+    if (!done) {
+      // Replace the file by one that belongs to the current prime field and contains only complete lines
+      const std::string item = file_name.substr(file_name.rfind("/") + 1, file_name.rfind("_") - file_name.rfind("/") - 1);
+      const std::string tmp_file_name = "ff_save/tmp/probe_" + item + ".gz";
+      const std::string new_file_name = "ff_save/probes/" + item + "_" + std::to_string(prime_number) + ".gz";
+      ogzstream new_file;
+      new_file.open(tmp_file_name.c_str());
+
+      // The last line ends with the file if it was not written completely
+      while (prime_it == prime_number && std::getline(file, line) && !file.eof()) {
+        new_file << line << "\n";
+
         std::vector<uint32_t> tmp_zi_ord;
 
         if (n > 1)
@@ -3707,6 +3717,12 @@ namespace firefly {
         else
           parsed_probes[tmp_zi_ord].emplace_back(std::make_pair(tmp_probe[0].n, tmp_probe[1].n));
       }
+
+      new_file.close();
+      std::rename(tmp_file_name.c_str(), file_name.c_str());
+
+      if (file_name != new_file_name)
+        std::rename(file_name.c_str(), new_file_name.c_str());
     }
 
     file.close();
-- 
2.43.0


From 9e621e76c113aecf29120f969f5d020e9a6164e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:20 +0000
Subject: [PATCH 27/32] fix: a vanishing normalisation coefficient does not
 change the normalisation in later prime fields

---
 source/RatReconst.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/source/RatReconst.cpp b/source/RatReconst.cpp
index bb09c07..fda892b 100644
--- a/source/RatReconst.cpp
+++ b/source/RatReconst.cpp
@@ -456,14 +456,21 @@ namespace firefly {
             }
 
             if (n == 1) {
-              normalizer_deg = denominator.min_deg();
+              // The normalization has to be the same in all prime fields
+              if (!use_chinese_remainder)
+                normalizer_deg = denominator.min_deg();
+              else if (denominator.coefs.find(normalizer_deg) == denominator.coefs.end())
+                div_by_zero = true;
+
               normalizer_den_num = true;
             }
 
             FFInt equalizer;
 
-            if (normalize_to_den)
-              equalizer = FFInt(1) / denominator.coefs[denominator.min_deg()];
+            if (div_by_zero)
+              equalizer = 1;
+            else if (normalize_to_den)
+              equalizer = FFInt(1) / denominator.coefs[n == 1 ? normalizer_deg : denominator.min_deg()];
             else
               equalizer = FFInt(1) / numerator.coefs[numerator.min_deg()];
 
-- 
2.43.0


From abac14c9b3124e9571627f58750793cf3a869c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:43 +0000
Subject: [PATCH 28/32] fix: factors are attached to the function they were
 found for

---
 source/include/firefly/Reconstructor.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index b557f2d..72eda8b 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -1113,7 +1113,6 @@ namespace firefly {
   template<typename BlackBoxTemp>
   std::vector<RationalFunction> Reconstructor<BlackBoxTemp>::get_result() {
     std::vector<RationalFunction> result {};
-    uint32_t counter = 0;
 
     for (auto & rec : reconst) {
       if (std::get<1>(rec) == DONE) {
@@ -1123,13 +1122,11 @@ namespace firefly {
           result.back().set_var_order(optimal_var_order);
         }
 
-        if (factors_rf.find(counter) != factors_rf.end()) {
-          for (const auto& factor : factors_rf[counter]) {
+        if (factors_rf.find(std::get<0>(rec)) != factors_rf.end()) {
+          for (const auto& factor : factors_rf[std::get<0>(rec)]) {
             result.back().add_factor(factor);
           }
         }
-
-        ++counter;
       }
     }
 
-- 
2.43.0


From c126a51c7a9706b9990e0730b5848f011802047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:43 +0000
Subject: [PATCH 29/32] fix: a black box with fewer functions is refused
 without reading past its values

---
 source/include/firefly/Reconstructor.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 72eda8b..63f2221 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -636,10 +636,17 @@ namespace firefly {
         size_t counter = 0;
 
         for (const auto & el : parsed_factors) {
-          result[el.first] /= el.second.evaluate_pre(values)[0];
+          if (el.first < result.size()) {
+            result[el.first] /= el.second.evaluate_pre(values)[0];
+          }
         }
 
         while (std::getline(validation_file, line)) {
+          if (counter == result.size()) {
+            ++counter;
+            break;
+          }
+
           if (std::stoul(line) != result[counter]) {
             ERROR_MSG("Validation failed: Entry " + std::to_string(counter) + " does not match the black-box result!");
             logger << "Validation failed: Entry " + std::to_string(counter) + " does not match the black-box result!\n";
-- 
2.43.0


From 3ccb1707f06ea3d498014ecd3ae4d720ebae6d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:43 +0000
Subject: [PATCH 30/32] fix: a new reconstruction removes the saved state of a
 former one

---
 source/include/firefly/Reconstructor.hpp | 18 ++++++++++++++++
 source/include/firefly/utils.hpp         |  5 +++++
 source/utils.cpp                         | 27 ++++++++++++++++++++++++
 3 files changed, 50 insertions(+)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 63f2221..695c20c 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -1343,6 +1343,12 @@ namespace firefly {
       mkdir("ff_save", S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
       mkdir("ff_save/factors", S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
       mkdir("ff_save/factors_rf", S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
+
+      // Remove files of a former reconstruction
+      std::remove("ff_save/validation.gz");
+      remove_files("ff_save/factors");
+      remove_files("ff_save/factors_rf");
+      std::remove("ff_save/var_order.gz");
     }
 
     if (verbosity > SILENT) {
@@ -2129,6 +2135,18 @@ namespace firefly {
       mkdir("ff_save/tmp", S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
       mkdir("ff_save/probes", S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
       std::remove("ff_save/validation.gz");
+
+      // Remove files of a former reconstruction
+      remove_files("ff_save/states");
+      remove_files("ff_save/probes");
+      std::remove("ff_save/scan");
+
+      if (!scanned_factors) {
+        remove_files("ff_save/factors");
+        remove_files("ff_save/factors_rf");
+        std::remove("ff_save/var_order.gz");
+      }
+
       save_vector("anchor_points", tmp_rec.get_anchor_points());
       save_vector("shift", tmp_rec.get_zi_shift_vec());
 
diff --git a/source/include/firefly/utils.hpp b/source/include/firefly/utils.hpp
index 752877a..b22e6ef 100644
--- a/source/include/firefly/utils.hpp
+++ b/source/include/firefly/utils.hpp
@@ -127,4 +127,9 @@ namespace firefly {
    *  @param values the numbers
    */
   void save_vector(const std::string& name, const std::vector<FFInt>& values);
+  /**
+   *  Removes all files in a directory. Subdirectories are kept.
+   *  @param directory the path of the directory
+   */
+  void remove_files(const std::string& directory);
 }
diff --git a/source/utils.cpp b/source/utils.cpp
index 19e9b8b..3fee02a 100644
--- a/source/utils.cpp
+++ b/source/utils.cpp
@@ -20,6 +20,7 @@
 #include "firefly/gzstream.hpp"
 #include "firefly/RatReconst.hpp"
 #include "firefly/ReconstHelper.hpp"
+#include "firefly/tinydir.h"
 
 #include <cstdio>
 #include <fstream>
@@ -377,4 +378,30 @@ namespace firefly {
     file.close();
     std::rename(tmp_file_name.c_str(), ("ff_save/" + name).c_str());
   }
+
+  void remove_files(const std::string& directory) {
+    tinydir_dir dir;
+
+    if (tinydir_open(&dir, directory.c_str()) != 0) {
+      return;
+    }
+
+    std::vector<std::string> files;
+
+    while (dir.has_next) {
+      tinydir_file file;
+
+      if (tinydir_readfile(&dir, &file) == 0 && !file.is_dir) {
+        files.emplace_back(file.path);
+      }
+
+      tinydir_next(&dir);
+    }
+
+    tinydir_close(&dir);
+
+    for (const auto & file : files) {
+      std::remove(file.c_str());
+    }
+  }
 }
-- 
2.43.0


From aa0b6126b2d37b33b677eefc76b3722ee3e712a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:34 +0000
Subject: [PATCH 31/32] fix: make reconstructions from precomputed probes
 complete

Supplied probes were used again after a resume, the files were not read
when a field was resumed, one variable was not supported, a run whose
probes were used up could wait forever, and a missing file ended the
process without requests.
---
 source/include/firefly/Reconstructor.hpp | 106 ++++++++++++++---------
 1 file changed, 64 insertions(+), 42 deletions(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 695c20c..53fc2bd 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -2021,12 +2021,18 @@ namespace firefly {
 #ifndef WITH_MPI
     (void) first; // void cast to silence unused parameter warning
 
+    if (precomputed_probes) {
+      load_precomputed_probes_from_file();
+    }
+
     uint32_t to_start = thr_n;//* bunch_size;
     queue_probes(zi_order, to_start);
-    started_probes.emplace(zi_order, to_start);
+    started_probes[zi_order] += to_start;
 
-    if (precomputed_probes) {
-      load_precomputed_probes_from_file();
+    if (precomputed_probes && computed_probes.empty()) {
+      write_requested_probes_to_file();
+      logger.close();
+      std::exit(EXIT_FAILURE);
     }
 #else
     if (first) {
@@ -2352,6 +2358,10 @@ namespace firefly {
         }
 
 #ifndef WITH_MPI
+        if (precomputed_probes) {
+          load_precomputed_probes_from_file();
+        }
+
         // TODO don't start as much ones
         queue_probes(zi_order, thr_n);//* bunch_size);
         started_probes.at(zi_order) += thr_n;//* bunch_size);
@@ -2607,6 +2617,10 @@ namespace firefly {
         uint32_t to_start = 0;
 
 #ifndef WITH_MPI
+        if (precomputed_probes) {
+          load_precomputed_probes_from_file();
+        }
+
         if (probes_for_next_prime > thr_n /** bunch_size*/) {
           to_start = thr_n /** bunch_size*/;
 
@@ -2642,7 +2656,7 @@ namespace firefly {
 #else
             queue_probes(zi_order, to_start, true);
 #endif
-            started_probes.emplace(zi_order, to_start);
+            started_probes[zi_order] += to_start;
 #ifndef WITH_MPI
           }
         } else {
@@ -2661,15 +2675,11 @@ namespace firefly {
 #else
             queue_probes(zi_order, to_start, true);
 #endif
-            started_probes.emplace(zi_order, to_start);
+            started_probes[zi_order] += to_start;
           }
 
 #ifndef WITH_MPI
         }
-
-        if (precomputed_probes) {
-          load_precomputed_probes_from_file();
-        }
 #else
           cond_val.notify_one();
 
@@ -2692,6 +2702,35 @@ namespace firefly {
         probes_for_next_prime = 0;
       }
 
+      if (precomputed_probes) {
+        std::unique_lock<std::mutex> lock_future(future_control);
+
+        if (computed_probes.empty()) {
+          lock_future.unlock();
+
+          {
+            std::unique_lock<std::mutex> lock_feed(feed_control);
+
+            condition_feed.wait(lock_feed, [this](){return feed_jobs == 0 && interpolate_jobs == 0;});
+          }
+
+          {
+            std::lock_guard<std::mutex> lock_status(status_control);
+
+            if (items_done == items) {
+              done = true;
+              continue;
+            } else if (items_done + items_new_prime == items) {
+              new_prime = true;
+              continue;
+            }
+          }
+
+          write_requested_probes_to_file();
+          return;
+        }
+      }
+
       std::vector<uint64_t> indices;
       std::vector<std::vector<FFInt>> probes;
 
@@ -2791,34 +2830,6 @@ namespace firefly {
 
             attempt_to_continue();
           }
-        } else if (precomputed_probes) {
-          lock_probe_queue.unlock();
-          std::unique_lock<std::mutex> lock_future(future_control);
-
-          if (computed_probes.empty()) {
-            lock_future.unlock();
-
-            {
-              std::unique_lock<std::mutex> lock_feed(feed_control);
-
-              condition_feed.wait(lock_feed, [this](){return feed_jobs == 0 && interpolate_jobs == 0;});
-            }
-
-            {
-              std::lock_guard<std::mutex> lock_status(status_control);
-
-              if (items_done == items) {
-                done = true;
-                continue;
-              } else if (items_done + items_new_prime == items) {
-                new_prime = true;
-                continue;
-              }
-            }
-
-            write_requested_probes_to_file();
-            return;
-          }
         }
       }
     }
@@ -3745,7 +3756,8 @@ namespace firefly {
       std::string line;
 
       while (std::getline(gzfile, line)) {
-        std::size_t first_delim = line.find(" | ");
+        // the list of exponents is empty for one variable
+        std::size_t first_delim = line.find("| ");
 
         if (first_delim == std::string::npos) {
           WARNING_MSG(file_name + " has a wrong format!");
@@ -3753,8 +3765,8 @@ namespace firefly {
           throw std::runtime_error(file_name + " has a wrong format!");
         }
 
-        std::string zi_order_string = line.substr(0, first_delim + 1);
-        std::string remainder = line.substr(first_delim + 3);
+        std::string zi_order_string = line.substr(0, first_delim);
+        std::string remainder = line.substr(first_delim + 2);
 
         std::size_t second_delim = remainder.find(" | ");
 
@@ -3766,7 +3778,11 @@ namespace firefly {
 
         FFInt t(std::stoul(remainder.substr(0, second_delim)));
 
-        std::vector<uint32_t> zi_order = parse_vector_32(zi_order_string, n - 1);
+        std::vector<uint32_t> zi_order;
+
+        if (n > 1) {
+          zi_order = parse_vector_32(zi_order_string, n - 1);
+        }
 
         if (zi_order.size() != n - 1) {
           WARNING_MSG(file_name + " has a wrong format!");
@@ -3774,6 +3790,13 @@ namespace firefly {
           throw std::runtime_error(file_name + " has a wrong format!");
         }
 
+        // skip probes which were already used
+        if (!chosen_t[zi_order].emplace(t.n).second) {
+          continue;
+        }
+
+        ++started_probes[zi_order];
+
         size_t pos = 0;
         std::string delimiter = " ";
         std::vector<std::vector<FFInt>> probes {};
@@ -3799,7 +3822,6 @@ namespace firefly {
     } else {
       WARNING_MSG("Cannot find " + file_name + "!");
       logger << "Cannot find " + file_name + "!\n";
-      std::exit(EXIT_FAILURE);
     }
   }
 
-- 
2.43.0


From 0d5bb19c05519c4647d3b089bb62e5483945ae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:36 +0000
Subject: [PATCH 32/32] fix: recognize function names exactly when parsing an
 expression

---
 source/AmplitudeParser.cpp | 89 +++++++++++++++++++-------------------
 1 file changed, 45 insertions(+), 44 deletions(-)

diff --git a/source/AmplitudeParser.cpp b/source/AmplitudeParser.cpp
index 2a82d54..491e0df 100644
--- a/source/AmplitudeParser.cpp
+++ b/source/AmplitudeParser.cpp
@@ -95,6 +95,20 @@ namespace firefly {
   std::vector<std::pair<std::string, std::string>> AmplitudeParser::parse_string(std::string& amplitude, bool replacement) {
     std::vector<std::pair<std::string, std::string>> parsed_integrals {};
 
+    // Position of the function name at the end of a string; names may be part of other names
+    auto find_family = [this](const std::string& str) {
+      for (const auto& fam : integral_families) {
+        if (str.size() >= fam.size() && str.compare(str.size() - fam.size(), fam.size(), fam) == 0) {
+          const std::size_t pos = str.size() - fam.size();
+
+          if (pos == 0 || !std::isalnum(static_cast<unsigned char>(str[pos - 1])))
+            return pos;
+        }
+      }
+
+      return std::string::npos;
+    };
+
     if (!replacement) {
       amplitude.erase(std::remove(amplitude.begin(), amplitude.end(), ' '), amplitude.end());
       amplitude.erase(std::remove(amplitude.begin(), amplitude.end(), '\t'), amplitude.end());
@@ -118,58 +132,45 @@ namespace firefly {
         std::size_t fo = seed.find('[');
         std::string int_fam = seed.substr(0, fo);
 
-        bool found_integral = false;
+        std::size_t fo2 = find_family(int_fam);
+        bool found_integral = fo2 != std::string::npos;
 
-        for (const auto& fam : integral_families) {
-          size_t fo2 = int_fam.find(fam);
+        if (found_integral) {
           std::string coefficient;
+          std::string prefac = "";
 
-          if (fo2 != std::string::npos) {
-            found_integral = true;
-            std::string prefac = "";
+          std::string integral = int_fam.substr(fo2) + seed.substr(fo);
 
-            std::string integral = int_fam.substr(fo2) + seed.substr(fo);
+          if (fo2 != 0) {
+            prefac = int_fam.substr(fo2 - 1, 1);
+          }
 
-            if (fo2 != 0) {
-              prefac = int_fam.substr(fo2 - 1, 1);
-            }
+          if (prefac == "*") {
+            //coefficient = int_fam.substr(0, int_fam.size() - fam.size() - 1);
+            ERROR_MSG("The format 'c_*FUNCTION' is not supported. Use 'FUNCTION*c_' instead.");
+            std::exit(EXIT_FAILURE);
+          } else if (found + 1 < amplitude_size - 1 && amplitude.substr(found + 1, 1) == "*") {
+            std::size_t fo_2 = amplitude.find('[', found + 1);
 
-            if (prefac == "*") {
-              //coefficient = int_fam.substr(0, int_fam.size() - fam.size() - 1);
-	      ERROR_MSG("The format 'c_*FUNCTION' is not supported. Use 'FUNCTION*c_' instead.");
-	      std::exit(EXIT_FAILURE);
-            } else if (found + 1 < amplitude_size - 1 && amplitude.substr(found + 1, 1) == "*") {
-              std::size_t fo_2 = amplitude.find('[', found + 1);
-
-              if (fo_2 != std::string::npos) {
-                std::string seed_2 = amplitude.substr(found + 1, fo_2 - (found + 1));
-
-                for (const auto& tmp_fam : integral_families) {
-                  std::size_t tmp_found = seed_2.rfind(tmp_fam);
-
-                  if (tmp_found != std::string::npos) {
-                    if (seed_2[0] == '*')
-                      coefficient = seed_2.substr(1, tmp_found - 2);
-                    else
-                      coefficient = seed_2.substr(0, tmp_found - 2);
-
-                    found = fo_2 - tmp_fam.size() - 2;
-                  }
-                }
-              } else {
-                coefficient = amplitude.substr(found + 2);
-              }
-            } else
-              coefficient = "1";
+            if (fo_2 != std::string::npos) {
+              std::string seed_2 = amplitude.substr(found + 1, fo_2 - (found + 1));
+              std::size_t tmp_found = find_family(seed_2);
 
-            if (prefac == "-")
-              parsed_integrals.emplace_back(std::make_pair(integral, prefac + "(" + coefficient + ")"));
-            else
-              parsed_integrals.emplace_back(std::make_pair(integral, coefficient));
-          }
+              if (tmp_found != std::string::npos) {
+                coefficient = seed_2.substr(1, tmp_found - 2);
+                // the next function begins with its sign
+                found += tmp_found - 1;
+              }
+            } else {
+              coefficient = amplitude.substr(found + 2);
+            }
+          } else
+            coefficient = "1";
 
-          if (found_integral)
-            break;
+          if (prefac == "-")
+            parsed_integrals.emplace_back(std::make_pair(integral, prefac + "(" + coefficient + ")"));
+          else
+            parsed_integrals.emplace_back(std::make_pair(integral, coefficient));
         }
 
         if (!found_integral) {
-- 
2.43.0

