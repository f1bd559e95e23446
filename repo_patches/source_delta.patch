From 786f181e78f1f9003c160a050994164fccbbe737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:23 +0000
Subject: [PATCH 01/19] fix: strict magnitude comparison must stop at the first
 differing digit

abs_val_is_gt/abs_val_is_lt kept scanning less significant digits after a
more significant digit had already decided the result, so 19 > 20 held.
---
 include/bignum/impl/bn_compare_impl.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/bignum/impl/bn_compare_impl.h b/include/bignum/impl/bn_compare_impl.h
index 459585e..cc45ab9 100644
--- a/include/bignum/impl/bn_compare_impl.h
+++ b/include/bignum/impl/bn_compare_impl.h
@@ -47,6 +47,9 @@ bool abs_val_is_gt(
         if (num1[i] > num2[i]) {
             return true;
         }
+        if (num1[i] < num2[i]) {
+            return false;
+        }
     }
     
     return false;
@@ -104,6 +107,9 @@ bool abs_val_is_lt(
         if (num1[i] < num2[i]) {
             return true;
         }
+        if (num1[i] > num2[i]) {
+            return false;
+        }
     }
     
     return false;
-- 
2.43.0


From e5ae3fe255fabd111f448192114852fa98f31f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:24 +0000
Subject: [PATCH 02/19] fix: order two negative numbers by the mirrored
 magnitude comparison

-5 > -5 was true, -5 >= -5 and -5 <= -5 were false.
---
 include/bignum/impl/bn_type_impl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 8b53407..c6cacd0 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -313,7 +313,7 @@ bool Bignum<limits_t, container_t>::operator > (const Bignum& num) const {
         return false;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
-        return abs_val_is_le<container_t>(this->numData, num.numData);
+        return abs_val_is_lt<container_t>(this->numData, num.numData);
     }
     
     // compare positive vs positive
@@ -332,7 +332,7 @@ bool Bignum<limits_t, container_t>::operator >= (const Bignum& num) const {
         return false;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
-        return abs_val_is_lt<container_t>(this->numData, num.numData);
+        return abs_val_is_le<container_t>(this->numData, num.numData);
     }
     
     // compare positive vs positive
@@ -370,7 +370,7 @@ bool Bignum<limits_t, container_t>::operator <= (const Bignum& num) const {
         return true;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
-        return abs_val_is_gt<container_t>(this->numData, num.numData);
+        return abs_val_is_ge<container_t>(this->numData, num.numData);
     }
     
     // compare positive vs positive
-- 
2.43.0


From 873e97f39304b6d531bebe2d33b8eeeedd3eee6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:51 +0000
Subject: [PATCH 03/19] fix: compare magnitudes by value when a container has
 leading zeroes

The comparisons are documented to work on the numerical value, but a most
significant zero digit (left by push_back, resize or an addition) made a
number larger than, and unequal to, the same value without it.
---
 include/bignum/impl/bn_compare_impl.h | 42 ++++++++++++++++++---------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/include/bignum/impl/bn_compare_impl.h b/include/bignum/impl/bn_compare_impl.h
index cc45ab9..2796cbd 100644
--- a/include/bignum/impl/bn_compare_impl.h
+++ b/include/bignum/impl/bn_compare_impl.h
@@ -1,6 +1,20 @@
 
 
 
+///////////////////////////////////////////////////////////////////////////////
+// Number of digits, not counting zeroes at the most significant end
+///////////////////////////////////////////////////////////////////////////////
+template <class container_type>
+typename container_type::size_type abs_val_digits(const container_type& num) {
+    typename container_type::size_type i = num.size();
+    
+    while (i && !num[i-1]) {
+        --i;
+    }
+    
+    return i;
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 // Equating implementation
 ///////////////////////////////////////////////////////////////////////////////
@@ -9,12 +23,12 @@ bool abs_val_is_eq(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() != num2.size()) {
+    if (abs_val_digits(num1) != abs_val_digits(num2)) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = abs_val_digits(num1);
     
     while (i--) {
         if (num1[i] != num2[i]) {
@@ -33,15 +47,15 @@ bool abs_val_is_gt(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() > num2.size()) {
+    if (abs_val_digits(num1) > abs_val_digits(num2)) {
         return true;
     }
-    if (num1.size() < num2.size()) {
+    if (abs_val_digits(num1) < abs_val_digits(num2)) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = abs_val_digits(num1);
     
     while (i--) {
         if (num1[i] > num2[i]) {
@@ -63,15 +77,15 @@ bool abs_val_is_ge(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() > num2.size()) {
+    if (abs_val_digits(num1) > abs_val_digits(num2)) {
         return true;
     }
-    if (num1.size() < num2.size()) {
+    if (abs_val_digits(num1) < abs_val_digits(num2)) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = abs_val_digits(num1);
     
     while (i--) {
         if (num1[i] > num2[i]) {
@@ -93,15 +107,15 @@ bool abs_val_is_lt(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() < num2.size()) {
+    if (abs_val_digits(num1) < abs_val_digits(num2)) {
         return true;
     }
-    if (num1.size() > num2.size()) {
+    if (abs_val_digits(num1) > abs_val_digits(num2)) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = abs_val_digits(num1);
     
     while (i--) {
         if (num1[i] < num2[i]) {
@@ -123,15 +137,15 @@ bool abs_val_is_le(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() < num2.size()) {
+    if (abs_val_digits(num1) < abs_val_digits(num2)) {
         return true;
     }
-    if (num1.size() > num2.size()) {
+    if (abs_val_digits(num1) > abs_val_digits(num2)) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = abs_val_digits(num1);
     
     while (i--) {
         if (num1[i] < num2[i]) {
-- 
2.43.0


From 76f86b5b0a46af7e176b20517129e2ad15836e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:51 +0000
Subject: [PATCH 04/19] fix: abs_val_sub must not touch digits the minuend does
 not have

Subtracting zero from zero (both without digits) wrote to element 0 of an
empty container and never terminated; a subtrahend with leading zeroes ran
past the end of a shorter minuend.
---
 include/bignum/impl/bn_subtraction_impl.h | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/include/bignum/impl/bn_subtraction_impl.h b/include/bignum/impl/bn_subtraction_impl.h
index f29615d..843a321 100644
--- a/include/bignum/impl/bn_subtraction_impl.h
+++ b/include/bignum/impl/bn_subtraction_impl.h
@@ -16,9 +16,7 @@ void abs_val_sub(
     const container_t& smallerNum
 ) {
     #ifdef BN_DEBUG
-        if (largerNum.size() < smallerNum.size()
-        || abs_val_is_lt(largerNum, smallerNum)
-        ) {
+        if (abs_val_is_lt(largerNum, smallerNum)) {
             throw BNUnderflow{};
         }
     #endif
@@ -35,7 +33,7 @@ void abs_val_sub(
     // borrow/carry counter
     bn_double numBorrowed = 0;
     
-    while (true) {
+    while (outIter < largerNum.size()) {
         // get the single digits that are to be added
         const bn_double inDigit = (inIter < smallerNum.size()) ? smallerNum[inIter] : bn_double{0};
         const bn_double outDigit = (largerNum[outIter]-numBorrowed)-inDigit;
@@ -52,11 +50,6 @@ void abs_val_sub(
         // onto the next number
         ++outIter;
         ++inIter;
-        
-        // determine when to stop counting
-        if (outIter == largerNum.size() && inIter >= smallerNum.size()) {
-            break;
-        }
     }
     
     // pop off any remaining zeroes
-- 
2.43.0


From b4a6e6a1fa6559ee5e949d6b59e06d33fd55c37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:51 +0000
Subject: [PATCH 05/19] fix: subtracting a number of the opposite sign adds the
 magnitudes

5 - (-3) gave 2 and -3 - 5 gave -0.
---
 include/bignum/impl/bn_type_impl.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index c6cacd0..6d25a1d 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -547,15 +547,11 @@ Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
         }
         // subtract a negative from a positive
         else if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
-            container_t temp = abs_val_is_gt(numData, num.numData) ? numData : num.numData;
-            abs_val_sub<limits_t, container_t>(temp, num.numData);
-            numData = std::move(temp);
+            abs_val_add<limits_t, container_t>(numData, num.numData);
         }
         // subtract a positive from a negative
         else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
-            container_t temp = abs_val_is_gt(numData, num.numData) ? numData : num.numData;
-            abs_val_sub<limits_t, container_t>(temp, num.numData);
-            numData = std::move(temp);
+            abs_val_add<limits_t, container_t>(numData, num.numData);
         }
         // subtract a negative from a negative
         else {
-- 
2.43.0


From 90d3364301de60cbf742029dd9f6abd8e1cfcc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:51 +0000
Subject: [PATCH 06/19] fix: an FFT of an empty list must not recurse forever

Multiplying zero by zero (neither has digits) overflowed the stack.
---
 include/bignum/impl/fourier_impl.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/bignum/impl/fourier_impl.h b/include/bignum/impl/fourier_impl.h
index 10ecdb3..55462a2 100644
--- a/include/bignum/impl/fourier_impl.h
+++ b/include/bignum/impl/fourier_impl.h
@@ -45,8 +45,7 @@ void fft_complex(cmplx_list_t<flt_t>& x) {
     const cmplx_size_t<flt_t> len = x.size();
     
     // base case
-    if (len == 1) {
-        x = cmplx_list_t<flt_t>{x[0]};
+    if (len <= 1) {
         return;
     }
 
-- 
2.43.0


From 0cdd8a67a24d89a97d831831c2c1ade2e9f54ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:51 +0000
Subject: [PATCH 07/19] fix: nextPow2 must smear all bits of a 64-bit length

The cascade stopped at 16, so lengths above 2^32 gave a non power of two.
---
 include/bignum/impl/fourier_impl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/bignum/impl/fourier_impl.h b/include/bignum/impl/fourier_impl.h
index 55462a2..3b561d8 100644
--- a/include/bignum/impl/fourier_impl.h
+++ b/include/bignum/impl/fourier_impl.h
@@ -30,8 +30,9 @@ num_t nextPow2(num_t n) {
     n |= n >> 1;
     n |= n >> 2;
     n |= n >> 4;
-    n |= n >> 8;
-    n |= n >> 16;
+    for (unsigned shift = 8; shift < sizeof(num_t) * 8; shift *= 2) {
+        n |= n >> shift;
+    }
     return ++n;
 }
 
-- 
2.43.0


From 24170e16c2966e50d088466f433d80dc7c1bfaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:29 +0000
Subject: [PATCH 08/19] fix: FFT multiplication must not truncate its columns
 to base_double

A column of the convolution is a sum of digit products plus a carry. It
overflowed the double-precision type with two digits of the low and medium
precision numbers, 256 digits in base 2 or 1338 digits in base 8.
---
 include/bignum/impl/bn_multiplication_impl.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/bignum/impl/bn_multiplication_impl.h b/include/bignum/impl/bn_multiplication_impl.h
index be54d91..719b1ed 100644
--- a/include/bignum/impl/bn_multiplication_impl.h
+++ b/include/bignum/impl/bn_multiplication_impl.h
@@ -16,9 +16,8 @@ template <typename limits_t, typename container_t>
 container_t mul_strassen(const container_t& a, const container_t& b) {
     // Default type is double. Use floats if they perform well enough.
     typedef double flt_t;
-    typedef typename limits_t::base_double bn_double;
     typedef typename container_t::size_type big_size_type;
-    static constexpr bn_double NUM_BASE = bn_double{limits_t::SINGLE_BASE_MAX+1};
+    static constexpr bn_u64_t NUM_BASE = limits_t::SINGLE_BASE_MAX+1;
     
 	// building a complex signal with the information of both signals.
     cmplx_list_t<flt_t> fftTable = std::move(create_fft_table<container_t, flt_t>(a, b));
@@ -31,12 +30,15 @@ container_t mul_strassen(const container_t& a, const container_t& b) {
     container_t ret;
     ret.reserve(inverses.size());
 
-    for (cmplx_size_t<flt_t> i = 0, c = 0; i < inverses.size(); ++i) {
+    // a column is a sum of many digit products, it can exceed "base_double"
+    bn_u64_t c = 0;
+
+    for (cmplx_size_t<flt_t> i = 0; i < inverses.size(); ++i) {
         // drop imaginary part of the number
         const flt_t x = inverses[i].real();
         
         // round to an integer
-        const bn_double ci = (bn_double)(c + std::floor(x + 0.5));
+        const bn_u64_t ci = c + (bn_u64_t)std::floor(x + 0.5);
         
         ret.push_back(ci % NUM_BASE);
 
-- 
2.43.0


From 9ee3e192c62032603dc7a49ac29762f867f02997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:29 +0000
Subject: [PATCH 09/19] fix: naive multiplication must accumulate in 64 bits

Products, sums and carries were truncated to the digit type or to unsigned,
which lost the upper half of every large digit product.
---
 include/bignum/impl/bn_multiplication_impl.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/bignum/impl/bn_multiplication_impl.h b/include/bignum/impl/bn_multiplication_impl.h
index 719b1ed..8ea40a5 100644
--- a/include/bignum/impl/bn_multiplication_impl.h
+++ b/include/bignum/impl/bn_multiplication_impl.h
@@ -69,9 +69,9 @@ container_t mul_strassen(const container_t& a, const container_t& b) {
 ///////////////////////////////////////////////////////////////////////////////
 template <typename limits_t, typename container_t>
 container_t mul_naive(const container_t& a, const container_t& b) {
-    typedef typename limits_t::base_double bn_double;
+    typedef typename limits_t::base_single bn_single;
     typedef typename container_t::size_type big_size_type;
-    static constexpr bn_double NUM_BASE = (bn_double)limits_t::SINGLE_BASE_MAX+(bn_double)1;
+    static constexpr bn_u64_t NUM_BASE = limits_t::SINGLE_BASE_MAX+1;
     
     container_t ret{};
     
@@ -83,17 +83,17 @@ container_t mul_naive(const container_t& a, const container_t& b) {
     
     ret.resize(totalLen);
     
-    for (unsigned i = 0; i < b.size(); ++i) {
-        unsigned remainder = 0;
+    for (big_size_type i = 0; i < b.size(); ++i) {
+        bn_u64_t remainder = 0;
         
-        for (unsigned j = 0; j < a.size(); ++j) {
+        for (big_size_type j = 0; j < a.size(); ++j) {
             const big_size_type index = i + j;
-            ret[index] += remainder + a[j] * b[i];
-            remainder = ret[index] / NUM_BASE;
-            ret[index] = ret[index] % NUM_BASE;
+            const bn_u64_t sum = (bn_u64_t)ret[index] + remainder + (bn_u64_t)a[j] * (bn_u64_t)b[i];
+            remainder = sum / NUM_BASE;
+            ret[index] = (bn_single)(sum % NUM_BASE);
         }
         
-        ret[i+a.size()] += remainder;
+        ret[i+a.size()] = (bn_single)remainder;
     }
     
     return ret;
-- 
2.43.0


From caddd7ff77ede8ba9c890e672cc54efa3838137a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:29 +0000
Subject: [PATCH 10/19] fix: 32-bit digits are too wide for the floating-point
 FFT

The default bignum computed 0xFFFFFFFF * 0xFFFFFFFF as 0xFFFFFFFE00000000:
a product of two 32-bit digits needs 64 bits, a double holds 53. Multiply
such numbers with integers.
---
 include/bignum/impl/bn_multiplication_impl.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/bignum/impl/bn_multiplication_impl.h b/include/bignum/impl/bn_multiplication_impl.h
index 8ea40a5..daea6f9 100644
--- a/include/bignum/impl/bn_multiplication_impl.h
+++ b/include/bignum/impl/bn_multiplication_impl.h
@@ -19,6 +19,13 @@ container_t mul_strassen(const container_t& a, const container_t& b) {
     typedef typename container_t::size_type big_size_type;
     static constexpr bn_u64_t NUM_BASE = limits_t::SINGLE_BASE_MAX+1;
     
+    // the products of digits wider than 16 bits do not fit in a double's mantissa
+    if (limits_t::SINGLE_BASE_MAX > bn_max_limit<BN_UINT16>()) {
+        container_t product = mul_naive<limits_t, container_t>(a, b);
+        product.resize(abs_val_digits(product));
+        return product;
+    }
+    
 	// building a complex signal with the information of both signals.
     cmplx_list_t<flt_t> fftTable = std::move(create_fft_table<container_t, flt_t>(a, b));
     
-- 
2.43.0


From 649d89340bf9addd7ffd1b57be7f65521b555c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:29 +0000
Subject: [PATCH 11/19] fix: doubling a digit during division must not overflow
 the digit type

For bases that fill their digit type (bignum, bignum_medp, bignum_lowp) the
base itself was truncated to 0 and any division died with SIGFPE.
---
 include/bignum/impl/bn_division_impl.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/bignum/impl/bn_division_impl.h b/include/bignum/impl/bn_division_impl.h
index ed28528..c23bc71 100644
--- a/include/bignum/impl/bn_division_impl.h
+++ b/include/bignum/impl/bn_division_impl.h
@@ -10,12 +10,11 @@ void abs_val_div(
     const container_t& divisor
 ) {
     typedef typename limits_t::base_single bn_single;
-    typedef typename limits_t::base_double bn_double;
     
     // numerical limits
-    static constexpr bn_double SINGLE_BASE_LIMIT = bn_max_limit<bn_single>() + (bn_double)1;
-    static constexpr bn_double SINGLE_BASE_MAX = bn_max_limit<bn_single>();
-    static constexpr bn_double SINGLE_BASE_MIN = bn_min_limit<bn_single>();
+    static constexpr bn_u64_t SINGLE_BASE_LIMIT = bn_max_limit<bn_single>() + 1;
+    static constexpr bn_u64_t SINGLE_BASE_MAX = bn_max_limit<bn_single>();
+    static constexpr bn_u64_t SINGLE_BASE_MIN = bn_min_limit<bn_single>();
     
     const auto shift_left_1 = [](container_t& container)->void
     {
@@ -29,10 +28,9 @@ void abs_val_div(
 
         while (curr < container.size())
         {
-            bn_single temp = (container[curr] * (bn_single)2) + carry;
-            container[curr] = temp;
-            carry = (bn_single)(temp > (bn_single)SINGLE_BASE_MAX ? 1 : 0);
-            container[curr] = temp % (bn_single)SINGLE_BASE_LIMIT;
+            const bn_u64_t temp = (bn_u64_t)container[curr] * 2 + (bn_u64_t)carry;
+            carry = (bn_single)(temp > SINGLE_BASE_MAX ? 1 : 0);
+            container[curr] = (bn_single)(temp % SINGLE_BASE_LIMIT);
             ++curr;
         }
 
-- 
2.43.0


From 10806f8359651b1585be2927e4b01b53c6d1a55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:29 +0000
Subject: [PATCH 12/19] fix: a number divided by an equal number is one

5 / 5 gave 0. Division into itself (a /= a) is handled explicitly because
the kernel modifies the dividend while it reads the divisor.
---
 include/bignum/impl/bn_division_impl.h | 6 ++++++
 include/bignum/impl/bn_type_impl.h     | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/bignum/impl/bn_division_impl.h b/include/bignum/impl/bn_division_impl.h
index c23bc71..b118d96 100644
--- a/include/bignum/impl/bn_division_impl.h
+++ b/include/bignum/impl/bn_division_impl.h
@@ -40,6 +40,12 @@ void abs_val_div(
         }
     };
 
+    // the dividend changes while the divisor is still needed
+    if (&dividend == &divisor) {
+        dividend = container_t{{(bn_single)1}};
+        return;
+    }
+
     container_t res{{(bn_single)0}};
 
     while (abs_val_is_ge<container_t>(dividend, divisor))
diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 6d25a1d..c2c7193 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -676,7 +676,7 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
 
     // std::deque throws exceptions when a memory error occurs
     try {
-        if (abs_val_is_gt(numData, num.numData))
+        if (abs_val_is_ge(numData, num.numData))
         {
             abs_val_div<limits_t, container_t>(numData, num.numData);
         }
-- 
2.43.0


From 03ac65d4d4d14a91cefc05d575ad27dbf0a745df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:29 +0000
Subject: [PATCH 13/19] fix: division by zero must terminate

The test for a zero divisor only knew a single zero digit, but a zero built
by the constructor or left by a subtraction has no digits at all.
---
 include/bignum/impl/bn_type_impl.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index c2c7193..3a11c35 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -641,8 +641,6 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         return *this;
     }
 
-    static constexpr bn_double SINGLE_BASE_MIN = bn_min_limit<bn_single>();
-    
     // subtract a negative from a positive
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
         descriptor = BN_NEG;
@@ -657,7 +655,7 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         descriptor = BN_POS;
     }
 
-    if (num.numData.size() == 1 && num.numData[0] == SINGLE_BASE_MIN)
+    if (!abs_val_digits(num.numData))
     {
         numData.clear();
         descriptor = descriptor == BN_NEG ? BN_NEG_INF : BN_POS_INF;
@@ -669,7 +667,7 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         return *this;
     }
 
-    if (numData.empty() || (numData.size() == 1 && numData[0] == SINGLE_BASE_MIN))
+    if (!abs_val_digits(numData))
     {
         return *this;
     }
-- 
2.43.0


From c42644da6727f09a9dc2ee2989b6c1504b3ee087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:15 +0000
Subject: [PATCH 14/19] fix: arithmetic results must have a single
 representation

0 + 0 and 1 / 2 held one zero digit while 5 - 5 and the number zero hold
none, and -5 + 5 or 0 / -3 was a negative zero, so equal results compared
different.
---
 include/bignum/bn_type.h           |  6 ++++++
 include/bignum/impl/bn_type_impl.h | 26 ++++++++++++++++++++------
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/bignum/bn_type.h b/include/bignum/bn_type.h
index 78cc93a..3aed8c8 100644
--- a/include/bignum/bn_type.h
+++ b/include/bignum/bn_type.h
@@ -103,6 +103,12 @@ class Bignum final {
         bn_desc_t descriptor = BN_POS;
         container_type numData = {};
     
+    private:
+        /**
+         * Remove leading zeroes after a calculation. Zero is always positive.
+         */
+        void normalize();
+    
     /*
      * Public member information
      */
diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 3a11c35..e3a6aef 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -472,14 +472,12 @@ Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
             if (abs_val_is_ge<container_t>(this->numData, num.numData)) {
                 // subtract as normal
                 abs_val_sub<limits_t, container_t>(numData, num.numData);
-                return *this;
             }
             else {
                 Bignum tempNum = num;
                 abs_val_sub<limits_t, container_t>(tempNum.numData, numData);
                 tempNum.descriptor = BN_NEG;
                 *this = std::move(tempNum);
-                return *this;
             }
         }
         // add a positive to a negative
@@ -488,14 +486,12 @@ Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
             if (abs_val_is_ge<container_t>(this->numData, num.numData)) {
                 // subtract as normal
                 abs_val_sub<limits_t, container_t>(numData, num.numData);
-                return *this;
             }
             else {
                 Bignum tempNum = num;
                 abs_val_sub<limits_t, container_t>(tempNum.numData, numData);
                 tempNum.descriptor = BN_POS;
                 *this = std::move(tempNum);
-                return *this;
             }
         }
         // add a negative to a negative
@@ -511,7 +507,8 @@ Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
         
         throw e;
     }
-    
+
+    normalize();
     return *this;
 }
 
@@ -576,7 +573,8 @@ Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
         
         throw e;
     }
-    
+
+    normalize();
     return *this;
 }
 
@@ -624,6 +622,7 @@ Bignum<limits_t, container_t>::operator *=(const Bignum& num) {
         throw e;
     }
 
+    normalize();
     return *this;
 }
 
@@ -664,11 +663,13 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
 
     if (num.numData.size() == 1 && num.numData[0] == (bn_single)1)
     {
+        normalize();
         return *this;
     }
 
     if (!abs_val_digits(numData))
     {
+        normalize();
         return *this;
     }
 
@@ -692,9 +693,22 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         throw e;
     }
 
+    normalize();
     return *this;
 }
 
+///////////////////////////////////////////////////////////////////////////////
+// Bring a result into its only representation
+///////////////////////////////////////////////////////////////////////////////
+template <class limits_t, class container_t>
+void Bignum<limits_t, container_t>::normalize() {
+    numData.resize(abs_val_digits(numData));
+
+    if (numData.empty()) {
+        descriptor = BN_POS;
+    }
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 // Computation sanity check
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From e22428af824d2c479ecc46af2996749b6c2f0963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:15 +0000
Subject: [PATCH 15/19] fix: calculations with NaN or infinity must not become
 finite

NaN + 5 gave 0, infinity * 2 gave 0 and 5 + infinity gave 5: a non-finite
left operand was replaced by the sign of the right one, and a non-finite
right operand was computed with as if it were a number.
---
 include/bignum/impl/bn_type_impl.h | 50 +++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index e3a6aef..2d79d30 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -454,9 +454,14 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
     
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
-        numData.clear();
-        descriptor = num.descriptor;
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        // infinity minus infinity is undefined
+        if (isNan() || num.isNan() || (isInfinite() && num.isInfinite() && descriptor != num.descriptor)) {
+            setDescriptor(BN_NAN);
+        }
+        else {
+            setDescriptor(isInfinite() ? descriptor : num.descriptor);
+        }
         return *this;
     }
     
@@ -520,9 +525,14 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
     
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
-        numData.clear();
-        descriptor = num.descriptor;
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        // infinity minus infinity is undefined
+        if (isNan() || num.isNan() || (isInfinite() && descriptor == num.descriptor)) {
+            setDescriptor(BN_NAN);
+        }
+        else if (!isInfinite()) {
+            setDescriptor(num.isPositive() ? BN_NEG_INF : BN_POS_INF);
+        }
         return *this;
     }
     
@@ -586,9 +596,17 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator *=(const Bignum& num) {
 
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
-        numData.clear();
-        descriptor = num.descriptor;
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        // infinity times zero is undefined
+        if (isNan() || num.isNan()
+        || (!isInfinite() && !abs_val_digits(numData))
+        || (!num.isInfinite() && !abs_val_digits(num.numData))
+        ) {
+            setDescriptor(BN_NAN);
+        }
+        else {
+            setDescriptor(isPositive() == num.isPositive() ? BN_POS_INF : BN_NEG_INF);
+        }
         return *this;
     }
 
@@ -634,9 +652,17 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
 
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
-        numData.clear();
-        descriptor = num.descriptor;
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        // infinity over infinity is undefined, anything finite over it vanishes
+        if (isNan() || num.isNan() || (isInfinite() && num.isInfinite())) {
+            setDescriptor(BN_NAN);
+        }
+        else if (isInfinite()) {
+            setDescriptor(isPositive() == num.isPositive() ? BN_POS_INF : BN_NEG_INF);
+        }
+        else {
+            clear();
+        }
         return *this;
     }
 
-- 
2.43.0


From d8b260c7bc902307b519290b35b091ca75a1a528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:15 +0000
Subject: [PATCH 16/19] fix: rethrow the exception that interrupted a
 calculation

"throw e" sliced a std::bad_alloc to std::exception.
---
 include/bignum/impl/bn_type_impl.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 2d79d30..2034ec0 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -504,13 +504,13 @@ Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
             abs_val_add<limits_t, container_t>(numData, num.numData);
         }
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
         
         numData.clear();
         
-        throw e;
+        throw;
     }
 
     normalize();
@@ -575,13 +575,13 @@ Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
             }
         }
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
         
         numData.clear();
         
-        throw e;
+        throw;
     }
 
     normalize();
@@ -631,13 +631,13 @@ Bignum<limits_t, container_t>::operator *=(const Bignum& num) {
         ret.numData = std::move(mul_strassen<limits_t, container_t>(numData, num.numData));
         *this = std::move(ret);
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
 
         numData.clear();
 
-        throw e;
+        throw;
     }
 
     normalize();
@@ -710,13 +710,13 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
             numData = {bn_single{0}};
         }
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
         
         numData.clear();
         
-        throw e;
+        throw;
     }
 
     normalize();
-- 
2.43.0


From 26fdfedc1683d7adb88fd4af1502773937b70f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:15 +0000
Subject: [PATCH 17/19] fix: print the digits of 8-bit numbers as numbers

bignum_base2 and bignum_lowp printed their digits as raw characters, so a
binary number came out as NUL and SOH bytes.
---
 include/bignum/impl/bn_type_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 2034ec0..950815d 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -38,7 +38,7 @@ std::ostream& operator << (std::ostream& ostr, const Bignum<limits_t, container_
     
     typename Bignum<limits_t, container_t>::container_type::size_type iter = numList.size();
     while (iter--) {
-        ostr << numList[iter];
+        ostr << (bn_u64_t)numList[iter];
     }
 
     return ostr;
-- 
2.43.0


From 96be9f29b72f50ee27e32ee174bc1ea10b10da3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:15 +0000
Subject: [PATCH 18/19] fix: order infinities by sign and treat negative zero
 as zero

+INF > 5 was false, +INF > -INF was false, -INF < 5 depended on the digits,
and -0 (setDescriptor on a zero) was unequal to, and less than, 0.
---
 include/bignum/bn_type.h           |  5 +++
 include/bignum/impl/bn_type_impl.h | 51 ++++++++++++++++++++----------
 2 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/include/bignum/bn_type.h b/include/bignum/bn_type.h
index 3aed8c8..55a93ae 100644
--- a/include/bignum/bn_type.h
+++ b/include/bignum/bn_type.h
@@ -108,6 +108,11 @@ class Bignum final {
          * Remove leading zeroes after a calculation. Zero is always positive.
          */
         void normalize();
+        
+        /**
+         * Classify a number by its sign, from negative to positive infinity.
+         */
+        int signRank() const;
     
     /*
      * Public member information
diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 950815d..efc4579 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -284,7 +284,7 @@ Bignum<limits_t, container_t>::operator[](typename container_type::size_type ite
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 inline bool Bignum<limits_t, container_t>::operator==(const Bignum& num) const {
-    if (this->descriptor != num.descriptor) {
+    if (signRank() != num.signRank()) {
         return false;
     }
     return abs_val_is_eq<container_t>(this->numData, num.numData);
@@ -295,7 +295,7 @@ inline bool Bignum<limits_t, container_t>::operator==(const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 inline bool Bignum<limits_t, container_t>::operator!=(const Bignum& num) const {
-    if (this->descriptor != num.descriptor) {
+    if (signRank() != num.signRank()) {
         return true;
     }
     return !abs_val_is_eq<container_t>(this->numData, num.numData);
@@ -306,12 +306,12 @@ inline bool Bignum<limits_t, container_t>::operator!=(const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator > (const Bignum& num) const {
-    if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
-        return true;
-    }
-    else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
+    if (isNan() || num.isNan()) {
         return false;
     }
+    else if (signRank() != num.signRank()) {
+        return signRank() > num.signRank();
+    }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
         return abs_val_is_lt<container_t>(this->numData, num.numData);
     }
@@ -325,12 +325,12 @@ bool Bignum<limits_t, container_t>::operator > (const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator >= (const Bignum& num) const {
-    if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
-        return true;
-    }
-    else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
+    if (isNan() || num.isNan()) {
         return false;
     }
+    else if (signRank() != num.signRank()) {
+        return signRank() > num.signRank();
+    }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
         return abs_val_is_le<container_t>(this->numData, num.numData);
     }
@@ -344,11 +344,11 @@ bool Bignum<limits_t, container_t>::operator >= (const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator < (const Bignum& num) const {
-    if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
+    if (isNan() || num.isNan()) {
         return false;
     }
-    else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
-        return true;
+    else if (signRank() != num.signRank()) {
+        return signRank() < num.signRank();
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
         return abs_val_is_gt<container_t>(this->numData, num.numData);
@@ -363,11 +363,11 @@ bool Bignum<limits_t, container_t>::operator < (const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator <= (const Bignum& num) const {
-    if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
+    if (isNan() || num.isNan()) {
         return false;
     }
-    else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
-        return true;
+    else if (signRank() != num.signRank()) {
+        return signRank() < num.signRank();
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
         return abs_val_is_ge<container_t>(this->numData, num.numData);
@@ -723,6 +723,25 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
     return *this;
 }
 
+///////////////////////////////////////////////////////////////////////////////
+// Order of the descriptors, a negative zero is as good as a positive one
+///////////////////////////////////////////////////////////////////////////////
+template <class limits_t, class container_t>
+int Bignum<limits_t, container_t>::signRank() const {
+    switch (descriptor) {
+        case BN_NEG_INF:
+            return -2;
+        case BN_NEG:
+            return abs_val_digits(numData) ? -1 : 0;
+        case BN_POS:
+            return abs_val_digits(numData) ? 1 : 0;
+        case BN_POS_INF:
+            return 2;
+        default:
+            return 3;
+    }
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 // Bring a result into its only representation
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 4ed35dfde63483c41503af6ea8ab838c90560d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:09 +0000
Subject: [PATCH 19/19] fix: stream 8-bit digits as numbers

---
 include/bignum/bn_int_type.h           |  1 +
 include/bignum/impl/bn_int_type_impl.h | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/bignum/bn_int_type.h b/include/bignum/bn_int_type.h
index a403775..514e4eb 100644
--- a/include/bignum/bn_int_type.h
+++ b/include/bignum/bn_int_type.h
@@ -10,6 +10,7 @@
 
 #include <iostream>
 #include <limits>
+#include <type_traits>
 
 #include "bignum/bn_setup.h"
 
diff --git a/include/bignum/impl/bn_int_type_impl.h b/include/bignum/impl/bn_int_type_impl.h
index a77795f..da7d3dd 100644
--- a/include/bignum/impl/bn_int_type_impl.h
+++ b/include/bignum/impl/bn_int_type_impl.h
@@ -235,10 +235,22 @@ constexpr BNIntType<numType, intId> BNIntType<numType, intId>::operator~() const
 ///////////////////////////////////////////////////////////////////////////////
 template <typename numType, BN_UINT64 intId>
 inline std::ostream& operator << (std::ostream& outStr, const BNIntType<numType, intId>& bni) {
-    return outStr << bni.num;
+    // an 8-bit integer would be written as a character
+    return outStr << (BN_UINT64)bni.num;
 }
 
 template <typename numType, BN_UINT64 intId>
 inline std::istream& operator >> (std::istream& inStr, BNIntType<numType, intId>& bni) {
-    return inStr >> bni.num;
+    // an 8-bit integer would be read as a character
+    typename std::conditional<sizeof(numType) == 1, BN_UINT16, numType>::type num = bni.num;
+    
+    inStr >> num;
+    
+    if (num > std::numeric_limits<numType>::max()) {
+        num = std::numeric_limits<numType>::max();
+        inStr.setstate(std::ios_base::failbit);
+    }
+    
+    bni.num = (numType)num;
+    return inStr;
 }
-- 
2.43.0

