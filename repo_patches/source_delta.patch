From 36faa5fe586563955cbc8e6db397201ac46cc6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 01/48] fix: big_num reductions accumulate in 64 bits

any_set, all_set, is_one, fit_in_64 and the tail of operator== folded 64-bit
words into an int, losing every bit above 31.
---
 include/logic/big_num.hh | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index f9bc667..b07af72 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -466,7 +466,7 @@ public:
                 return true;
             } else {
                 // the rest has to be zero
-                return std::reduce(values.begin() + op_s, values.end(), 0,
+                return std::reduce(values.begin() + op_s, values.end(), big_num_holder_type{0},
                                    [](auto a, auto b) { return a | b; }) == 0;
             }
         } else {
@@ -474,7 +474,7 @@ public:
                 if (values[i] != op.values[i]) return false;
             }
             // the rest has to be zero
-            return std::reduce(op.values.begin() + s, op.values.end(), 0,
+            return std::reduce(op.values.begin() + s, op.values.end(), big_num_holder_type{0},
                                [](auto a, auto b) { return a | b; }) == 0;
         }
         return true;
@@ -771,7 +771,8 @@ public:
         // we use the fact that SIMD instructions are faster than compare and branch
         // so summation is faster than any_of in theory
         // also all unused bit are set to 0 by default
-        auto r = std::reduce(values.begin(), values.end(), 0, [](auto a, auto b) { return a | b; });
+        auto r = std::reduce(values.begin(), values.end(), big_num_holder_type{0},
+                             [](auto a, auto b) { return a | b; });
         return r != 0;
     }
 
@@ -787,7 +788,8 @@ public:
     [[maybe_unused]] void unmask() { std::fill(values.begin(), values.end(), 0); }
 
     [[nodiscard]] bool all_set() const {
-        auto v = std::reduce(values.begin(), values.begin() + s - 1, 0,
+        auto v = std::reduce(values.begin(), values.begin() + s - 1,
+                             std::numeric_limits<big_num_holder_type>::max(),
                              [](auto a, auto b) { return a & b; });
         auto constexpr max =
             std::numeric_limits<big_num_holder_type>::max() >> (s * big_num_threshold - size);
@@ -806,13 +808,14 @@ public:
         if constexpr (s == 1) {
             return values[0] == 1u;
         } else {
-            return values[0] == 1u && (std::reduce(values.begin() + 1, values.end(), 0,
-                                                   [](auto a, auto b) { return a | b; }) == 0u);
+            return values[0] == 1u &&
+                   (std::reduce(values.begin() + 1, values.end(), big_num_holder_type{0},
+                                [](auto a, auto b) { return a | b; }) == 0u);
         }
     }
 
     [[nodiscard]] bool fit_in_64() const {
-        return std::reduce(values.begin() + 1, values.end(), 0,
+        return std::reduce(values.begin() + 1, values.end(), big_num_holder_type{0},
                            [](auto a, auto b) { return a | b; }) == 0;
     }
 
-- 
2.43.0


From f8678dc6a4c93ed6de14aa82943a37ea44ba775f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:55 +0000
Subject: [PATCH 02/48] fix: big_num::extend only fills ones for negative
 numbers

---
 include/logic/big_num.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index b07af72..fd4d4f4 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -114,8 +114,9 @@ public:
             for (auto i = 0ul; i < s; i++) result.values[i] = values[i];
             // based on the sign, need to fill out leading ones
             if constexpr (signed_) {
+                bool const sign = negative();
                 for (uint64_t i = size; i < op_size; i++) {
-                    result.set(i, true);
+                    result.set(i, sign);
                 }
             }
             return result;
-- 
2.43.0


From 863831ac6359f8a18357d15e1617279f0a2a4e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:05 +0000
Subject: [PATCH 03/48] fix: big_num results keep the bits above the declared
 size at zero

~, +, * and the string constructors left stray bits above size in the top word
(set() ignores indices >= size), which == and the reductions then observed. The
string constructor also left words the text does not reach uninitialised.
---
 include/logic/big_num.hh | 13 ++++++++-----
 include/logic/bit.hh     |  1 +
 include/logic/logic.hh   |  2 ++
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index fd4d4f4..4876b4f 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -148,7 +148,7 @@ public:
         return std::accumulate(values.begin(), values.end(), std::popcount);
     }
 
-    void mask_off() {
+    constexpr void mask_off() {
         // mask off bit that's excessive bit
         auto constexpr amount = s * 64 - size;
         auto constexpr mask = std::numeric_limits<uint64_t>::max() >> amount;
@@ -171,9 +171,7 @@ public:
             result.values[i] = ~values[i];
         }
         // mask off the top bit, if any
-        for (auto i = size; i < s * big_num_threshold; i++) {
-            result.set(i, false);
-        }
+        result.mask_off();
         return result;
     }
 
@@ -582,6 +580,7 @@ public:
             result.values[i] = (v << 64) >> 64;
             carry = v >> 64;
         }
+        result.mask_off();
         return result;
     }
 
@@ -633,6 +632,7 @@ public:
             __uint128_t c = a * b;
             result.values[0] = (c << 64) >> 64;
             result.values[1] = c >> 64;
+            result.mask_off();
             return result;
         }
         // we're not using Karatsuba's algorithm since it can get infinitely recursion or underflow
@@ -901,7 +901,10 @@ public:
     [[nodiscard]] uint64_t to_uint64() const { return values[0]; }
 
     // constructors
-    constexpr explicit big_num(std::string_view v) { util::parse_raw_str(v, size, values.data()); }
+    constexpr explicit big_num(std::string_view v) : big_num() {
+        util::parse_raw_str(v, size, values.data());
+        mask_off();
+    }
 
     template <typename T>
     requires std::is_arithmetic_v<T>
diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 769ab9b..e2e526b 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -1002,6 +1002,7 @@ public:
             value = static_cast<T>(util::parse_raw_str(v));
         } else {
             util::parse_raw_str(v, size, value.values.data());
+            value.mask_off();
         }
     }
 
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 0c5933e..f93d4b1 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -1018,6 +1018,8 @@ public:
         } else {
             util::parse_raw_str(v, size, value.value.values.data());
             util::parse_xz_raw_str(v, size, xz_mask.value.values.data());
+            value.value.mask_off();
+            xz_mask.value.mask_off();
         }
     }
 
-- 
2.43.0


From fd0cf99d8c930dca0387a78a5559f8b9eb68b1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:15 +0000
Subject: [PATCH 04/48] fix: big_num multiplication stays inside its word array

The partial product index is a word index, so it has to be compared against
the number of words, not the number of bits.
---
 include/logic/big_num.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 4876b4f..f90cbc4 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -651,12 +651,12 @@ public:
                 uint64_t hi = c >> 64u;
                 uint64_t lo = (c << 64u) >> 64;
 
-                if ((i + j) < size) {
+                if ((i + j) < s) {
                     temp.values[i + j] = lo;
                     result = result + temp;
                     temp.values[i + j] = 0;
                 }
-                if ((i + j + 1) < size) {
+                if ((i + j + 1) < s) {
                     temp.values[i + j + 1] = hi;
                     result = result + temp;
                     temp.values[i + j + 1] = 0;
-- 
2.43.0


From 4a8cfef995e6865c01ada09ddfef3d379acc5d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:22 +0000
Subject: [PATCH 05/48] fix: compare signed big_num of the same or smaller size
 word by word

The branch did not compile (op is not a pointer) and walked size words instead
of s.
---
 include/logic/big_num.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index f90cbc4..5c41cea 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -449,8 +449,8 @@ public:
                 }
                 return true;
             } else {
-                auto op_t = op->template extend<size>();
-                for (auto i = 0u; i < size; i++) {
+                auto op_t = op.template extend<size>();
+                for (auto i = 0u; i < s; i++) {
                     if (values[i] != op_t.values[i]) return false;
                 }
                 return true;
-- 
2.43.0


From c67f6a1c40cc3b8b078b3906fb8382d3b83df748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:29 +0000
Subject: [PATCH 06/48] fix: order negative big_num values correctly

Negating both sides and swapping the comparison is wrong when the sizes differ
and for the most negative value, whose negation is itself.
---
 include/logic/big_num.hh | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 5c41cea..f797023 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -496,10 +496,11 @@ public:
             }
             // if it's both positive or both negative, we fall back to the normal comparison
             // per LRM, signed comparison is only used when both operands are signed
-            // notice that if both of them are negative, we need to revert the result
-            // since the smaller number appears to be bigger due to 2's complement
-            else if (negative() && negative()) {
-                return negate() < op.negate();
+            // 2's complement keeps the order when both of them are negative, as long as they
+            // have the same size
+            else if constexpr (op_size != size) {
+                auto constexpr target_size = util::max(size, op_size);
+                return this->template extend<target_size>() > op.template extend<target_size>();
             }
         }
         // from top to bottom comparison
-- 
2.43.0


From c10779a2527dae22160fa9f64b392eefbff80c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 07/48] fix: signed big_num division and remainder

The signed branch called a function that does not exist, divided by the signed
divisor instead of its magnitude and negated the remainder whenever the signs
differed. Mixed signedness did not compile.
---
 include/logic/big_num.hh | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index f797023..88415cd 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -836,16 +836,20 @@ public:
         }
         if constexpr (result_signed) {
             // this implies that both of them are signed numbers
-            auto op_pos = op.negative() ? op.negate() : op;
-            auto this_pos = negative() ? negate() : *this;
-            std::tie(q, r) = this_pos.div_mode_(op);
+            big_num<size, false> const op_pos = op.negative() ? op.negate() : op;
+            big_num<size, false> const this_pos = negative() ? negate() : *this;
+            std::tie(q, r) = this_pos.div_mod_unsigned(op_pos);
             // if both of them are negative or positive, the sign will cancel out
             if (op.negative() ^ negative()) {
                 q = q.negate();
+            }
+            // the remainder takes the sign of the dividend (LRM 11.4.3)
+            if (negative()) {
                 r = r.negate();
             }
         } else {
-            std::tie(q, r) = div_mod_unsigned(op);
+            big_num<size, false> const l = *this;
+            std::tie(q, r) = l.div_mod_unsigned(op);
         }
         return {q, r};
     }
-- 
2.43.0


From 2fdc373935b909c466b84afbee577d87a84820f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:27 +0000
Subject: [PATCH 08/48] fix: keep native values canonical modulo their declared
 width

Construction, assignment, ~, +, -, *, unary minus, sign casts and negate left
whatever fitted in the C++ holder, so e.g. a 5-bit value could compare as 255,
a signed value was no longer sign extended after mask_off, and a signed 1-bit
value could not be -1. Signed holders also overflowed (undefined behaviour);
the arithmetic is now done on uint64_t and truncated.
---
 include/logic/bit.hh   | 106 ++++++++++++++++++++++++++++++++---------
 include/logic/logic.hh |   4 +-
 include/logic/util.hh  |   3 +-
 3 files changed, 87 insertions(+), 26 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index e2e526b..203d273 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -323,9 +323,14 @@ public:
         }
     }
 
-    void mask_off() {
+    constexpr void mask_off() {
         if constexpr (native_num) {
-            if constexpr (size > 1) {
+            if constexpr (signed_) {
+                // a signed holder is sign extended from the declared width
+                auto constexpr amount = big_num_threshold - size;
+                value = static_cast<T>(
+                    static_cast<int64_t>(static_cast<uint64_t>(value) << amount) >> amount);
+            } else if constexpr (size > 1) {
                 auto constexpr amount = sizeof(T) * 8 - size;
                 auto constexpr mask_max = bit_mask();
                 auto mask = mask_max >> amount;
@@ -336,6 +341,22 @@ public:
         }
     }
 
+    // the declared bits of a native holder, without any sign extension
+    [[nodiscard]] constexpr uint64_t raw_bits() const requires(native_num) {
+        return static_cast<uint64_t>(value) &
+               (std::numeric_limits<uint64_t>::max() >> (big_num_threshold - size));
+    }
+
+    // store the low bits of v, i.e. v modulo 2^size
+    constexpr void set_raw_bits(uint64_t v) requires(native_num) {
+        if constexpr (std::is_same_v<T, bool>) {
+            value = v & 1;
+        } else {
+            value = static_cast<T>(v);
+            mask_off();
+        }
+    }
+
     void clear() {
         if constexpr (native_num) {
             value = 0;
@@ -353,6 +374,7 @@ public:
             result.value = !value;
         } else {
             result.value = ~value;
+            result.mask_off();
         }
         return result;
     }
@@ -368,6 +390,7 @@ public:
     auto operator&(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value & op.value;
+        result.mask_off();
         return result;
     }
 
@@ -401,6 +424,7 @@ public:
     auto operator^(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value ^ op.value;
+        result.mask_off();
         return result;
     }
 
@@ -434,6 +458,7 @@ public:
     auto operator|(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
         result.value = value | op.value;
+        result.mask_off();
         return result;
     }
 
@@ -700,11 +725,13 @@ public:
     }
 
     constexpr bit<msb, lsb, signed_> operator-() const {
+        bit<msb, lsb, signed_> result;
         if constexpr (native_num) {
-            return bit<msb, lsb, signed_>(-value);
+            result.set_raw_bits(-static_cast<uint64_t>(value));
         } else {
-            return bit<msb, lsb, signed_>(value.negate());
+            result.value = value.negate();
         }
+        return result;
     }
 
     constexpr auto operator+() const { return *this; }
@@ -723,7 +750,12 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator+(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value + op.value;
+        if constexpr (native_num) {
+            // unsigned arithmetic wraps around and doesn't overflow
+            result.set_raw_bits(static_cast<uint64_t>(value) + static_cast<uint64_t>(op.value));
+        } else {
+            result.value = value + op.value;
+        }
         return result;
     }
 
@@ -747,7 +779,12 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator-(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value - op.value;
+        if constexpr (native_num) {
+            // unsigned arithmetic wraps around and doesn't overflow
+            result.set_raw_bits(static_cast<uint64_t>(value) - static_cast<uint64_t>(op.value));
+        } else {
+            result.value = value - op.value;
+        }
         return result;
     }
 
@@ -771,7 +808,12 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator*(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value * op.value;
+        if constexpr (native_num) {
+            // unsigned arithmetic wraps around and doesn't overflow
+            result.set_raw_bits(static_cast<uint64_t>(value) * static_cast<uint64_t>(op.value));
+        } else {
+            result.value = value * op.value;
+        }
         return result;
     }
 
@@ -841,6 +883,7 @@ public:
             } else {
                 res.value = static_cast<decltype(bit<size - 1, 0, true>::value)>(value);
             }
+            res.mask_off();
         } else {
             res.value = value.to_signed();
         }
@@ -854,6 +897,7 @@ public:
                 res.value = value;
             } else {
                 res.value = static_cast<decltype(bit<size - 1, 0, false>::value)>(value);
+                res.mask_off();
             }
         } else {
             // big number is always unsigned
@@ -874,11 +918,7 @@ public:
 
     void mask() {
         if constexpr (native_num) {
-            if constexpr (size == 1) {
-                value = true;
-            } else {
-                value = std::numeric_limits<T>::max() >> (sizeof(T) * 8 - size);
-            }
+            set_raw_bits(std::numeric_limits<uint64_t>::max());
         } else {
             value.mask();
         }
@@ -899,18 +939,16 @@ public:
 
     void negate() {
         if constexpr (native_num) {
-            value = (~value) + 1;
-            mask_off();
+            set_raw_bits(-static_cast<uint64_t>(value));
         } else {
-            return value.negate();
+            value = value.negate();
         }
     }
 
     [[nodiscard]] bit<size - 1, 0> negate() const {
         bit<size - 1, 0> res;
         if constexpr (native_num) {
-            res.value = (~value) + 1;
-            res.mask_off();
+            res.set_raw_bits(-static_cast<uint64_t>(value));
         } else {
             res.value = value.negate();
         }
@@ -999,21 +1037,27 @@ public:
      */
     explicit constexpr bit(std::string_view v) {
         if constexpr (native_num) {
-            value = static_cast<T>(util::parse_raw_str(v));
+            set_raw_bits(util::parse_raw_str(v));
         } else {
             util::parse_raw_str(v, size, value.values.data());
             value.mask_off();
         }
     }
 
-    explicit constexpr bit(T v) requires(util::native_num(size)) : value(v) {}
+    explicit constexpr bit(T v) requires(util::native_num(size)) : value(v) { mask_off(); }
+    template <typename K>
+    requires(std::is_arithmetic_v<K> &&util::native_num(size)) explicit constexpr bit(K v) {
+        set_raw_bits(static_cast<uint64_t>(v));
+    }
     template <typename K>
     requires(std::is_arithmetic_v<K> && !util::native_num(size)) constexpr bit(K v)  // NOLINT
         : value(v) {}
 
     template <uint64_t new_size, bool new_signed>
     explicit bit(const big_num<new_size, new_signed> &big_num) requires(size <= big_num_threshold)
-        : value(big_num.values[0]) {}
+    {
+        set_raw_bits(big_num.values[0]);
+    }
 
     template <uint64_t op_hi, uint64_t op_lo, bool op_signed>
     constexpr bit(logic<op_hi, op_lo, op_signed> &&logic) {  // NOLINT
@@ -1031,19 +1075,19 @@ public:
     // implicit conversion via assignment
     template <int new_msb, int new_lsb, bool new_signed>
     bit &operator=(const bit<new_msb, new_lsb, new_signed> &b) {
-        value = b.value;
+        assign_(b);
         return *this;
     }
 
     template <typename T>
     bit &operator=(T v) requires(std::is_arithmetic<T>::value) {
-        value = v;
+        value = bit<msb, lsb, signed_>(v).value;
         return *this;
     }
 
     template <int new_msb, int new_lsb>
     constexpr bit(const bit<new_msb, new_lsb, true> &b) {  // NOLINT
-        value = b.value;
+        assign_(b);
     }
 
     static constexpr bit<0> one_() {
@@ -1053,6 +1097,22 @@ public:
     }
 
 private:
+    // value of b modulo 2^size. if b is narrower, it's extended based on its own sign
+    template <int new_msb, int new_lsb, bool new_signed>
+    constexpr void assign_(const bit<new_msb, new_lsb, new_signed> &b) {
+        using op_type = bit<new_msb, new_lsb, new_signed>;
+        if constexpr (native_num && op_type::native_num) {
+            set_raw_bits(static_cast<uint64_t>(b.value));
+        } else if constexpr (native_num) {
+            set_raw_bits(b.value.values[0]);
+        } else if constexpr (op_type::size < size) {
+            value = b.template extend<size>().value;
+        } else {
+            std::copy_n(b.value.values.begin(), value.values.size(), value.values.begin());
+            mask_off();
+        }
+    }
+
     /*
      * unpacking, which is basically slicing as syntax sugars
      */
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index f93d4b1..919eb2c 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -1013,8 +1013,8 @@ public:
     explicit logic(const char *str) : logic(std::string_view(str)) {}
     explicit constexpr logic(std::string_view v) {
         if constexpr (util::native_num(size)) {
-            value.value = util::parse_raw_str(v);
-            xz_mask.value = util::parse_xz_raw_str(v);
+            value.set_raw_bits(util::parse_raw_str(v));
+            xz_mask.set_raw_bits(util::parse_xz_raw_str(v));
         } else {
             util::parse_raw_str(v, size, value.value.values.data());
             util::parse_xz_raw_str(v, size, xz_mask.value.values.data());
diff --git a/include/logic/util.hh b/include/logic/util.hh
index 11e9464..408061f 100644
--- a/include/logic/util.hh
+++ b/include/logic/util.hh
@@ -89,7 +89,8 @@ struct get_holder_type<s, signed_, typename std::enable_if<in_range(s, 1, 1) &&
 
 template <uint64_t s, bool signed_>
 struct get_holder_type<s, signed_, typename std::enable_if<in_range(s, 1, 1) && signed_>::type> {
-    using type = bool;
+    // needs to hold 0 and -1
+    using type = int8_t;
 };
 
 template <uint64_t s, bool signed_>
-- 
2.43.0


From 5b0c18f273432f59498e8b837491142eb787a8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:48 +0000
Subject: [PATCH 09/48] fix: shifts of native values take the amount modulo
 nothing

Amounts were truncated to the shifted type and used unchecked as a C++ shift
count, so amounts of at least the width were undefined, signed amounts were
negative, and amounts wider than 64 bits did not compile.
---
 include/logic/bit.hh | 75 +++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 43 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 203d273..1f8328a 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -357,6 +357,16 @@ public:
         }
     }
 
+    // the unsigned value when used as a shift amount. since sizes are less than 2^64, anything that
+    // doesn't fit shifts everything out
+    [[nodiscard]] uint64_t shift_amount() const {
+        if constexpr (native_num) {
+            return raw_bits();
+        } else {
+            return value.fit_in_64() ? value.values[0] : std::numeric_limits<uint64_t>::max();
+        }
+    }
+
     void clear() {
         if constexpr (native_num) {
             value = 0;
@@ -510,20 +520,12 @@ public:
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator>>(const bit<op_msb, op_lsb, op_signed> &amount) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> res;
-        // couple cases
-        // 1. both of them are native number
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            // make sure to mask off any bit dur to signed extension
-            res.value = (value >> static_cast<T>(amount.value)) & value_mask(size - amount.value);
-        } else if constexpr ((!native_num)) {
-            res.value = value >> amount.value;
+        // make sure not to shift in any bit due to signed extension
+        auto const shift = amount.shift_amount();
+        if constexpr (native_num) {
+            res.set_raw_bits(shift < size ? raw_bits() >> shift : 0);
         } else {
-            // itself is a native number but amount is not
-            // convert to itself as a big number
-            big_num<size, signed_> big_num;
-            big_num.values[0] = static_cast<uint64_t>(value);
-            auto res_num = big_num >> amount;
-            res.value = static_cast<T>(res_num.values[0]);
+            res.value = value >> shift;
         }
 
         return res;
@@ -554,61 +556,48 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator>>=(
+    bit<msb, lsb, signed_, array> &operator>>=(
         const bit<op_msb, op_lsb, op_signed> &amount) {
         auto res = (*this) >> amount;
-        value = res.value;
+        assign_(res);
         return *this;
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator<<(const bit<op_msb, op_lsb, op_signed> &amount) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> res;
-        // couple cases
-        // 1. both of them are native number
-        // clang doesn't allow accessing native_num as amount.native_num
-        // see https://stackoverflow.com/a/44996066
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            res.value = value << static_cast<T>(amount.value);
-        } else if constexpr ((!native_num)) {
-            res.value = value << amount.value;
+        auto const shift = amount.shift_amount();
+        if constexpr (native_num) {
+            res.set_raw_bits(shift < size ? raw_bits() << shift : 0);
         } else {
-            // itself is a native number but amount is not
-            // convert to itself as a big number
-            big_num<size> big_num;
-            big_num.values[0] = static_cast<uint64_t>(value);
-            auto res_num = big_num << amount;
-            res.value = static_cast<T>(res_num.values[0]);
+            res.value = value << shift;
         }
 
         return res;
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator<<=(
+    bit<msb, lsb, signed_, array> &operator<<=(
         const bit<op_msb, op_lsb, op_signed> &amount) {
         auto res = (*this) << amount;
-        value = res.value;
+        assign_(res);
         return *this;
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto ashr(const bit<op_msb, op_lsb, op_signed> &amount) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> res;
-        // couple cases
-        // 1. both of them are native number
-        if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
+        auto const shift = amount.shift_amount();
+        if constexpr (native_num) {
             // no need to mask since C++ does arithmetic shifts by default
-            res.value = value >> static_cast<T>(amount.value);
-        } else if constexpr ((!native_num)) {
-            res.value = value.ashr(amount.value);
+            // once everything is shifted out only the sign (or 0 if unsigned) is left
+            auto const v = static_cast<std::conditional_t<signed_, int64_t, uint64_t>>(value);
+            res.set_raw_bits(static_cast<uint64_t>(v >> util::min<uint64_t>(shift, 63)));
+            if constexpr (!signed_) {
+                if (shift >= size) res.clear();
+            }
         } else {
-            // itself is a native number but amount is not
-            // convert to itself as a big number
-            big_num<size> big_num;
-            big_num.values[0] = static_cast<uint64_t>(value);
-            auto res_num = big_num.ashr(amount);
-            res.value = static_cast<T>(res_num.values[0]);
+            res.value = value.ashr(shift);
         }
 
         return res;
-- 
2.43.0


From c5a5ec42c45153298aa7ac00cf55a19e3c2502cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 10/48] fix: compound assignments accept any operand type

They returned a reference to the type of the binary result, which only
compiles when that is the type of the left operand, and copied the raw holder
of a wider result.
---
 include/logic/bit.hh   | 15 ++++++---------
 include/logic/logic.hh | 10 +++++-----
 2 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 1f8328a..3f2d8c3 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -415,11 +415,10 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator&=(
+    bit<msb, lsb, signed_, array> &operator&=(
         const bit<op_msb, op_lsb, op_signed> &op) {
         auto res = (*this) & op;
-        value = res.value;
-        mask_off();
+        assign_(res);
         return *this;
     }
 
@@ -449,11 +448,10 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator^=(
+    bit<msb, lsb, signed_, array> &operator^=(
         const bit<op_msb, op_lsb, op_signed> &op) {
         auto res = (*this) ^ op;
-        value = res.value;
-        mask_off();
+        assign_(res);
         return *this;
     }
 
@@ -483,11 +481,10 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    bit<size - 1, 0, util::signed_result(signed_, op_signed)> &operator|=(
+    bit<msb, lsb, signed_, array> &operator|=(
         const bit<op_msb, op_lsb, op_signed> &op) {
         auto res = (*this) | op;
-        value = res.value;
-        mask_off();
+        assign_(res);
         return *this;
     }
 
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 919eb2c..0fdbe02 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -342,7 +342,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator&=(
+    logic<msb, lsb, signed_, array> &operator&=(
         const logic<op_msb, op_lsb, op_signed> &op) {
         auto const res = (*this) & op;
         this->value = res.value;
@@ -407,7 +407,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator|=(
+    logic<msb, lsb, signed_, array> &operator|=(
         const logic<op_msb, op_lsb, op_signed> &op) {
         auto const res = (*this) | op;
         this->value = res.value;
@@ -461,7 +461,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator^=(
+    logic<msb, lsb, signed_, array> &operator^=(
         const logic<op_msb, op_lsb, op_signed> &op) {
         auto const res = (*this) ^ op;
         this->value = res.value;
@@ -572,7 +572,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator>>=(
+    logic<msb, lsb, signed_, array> &operator>>=(
         const logic<op_msb, op_lsb, op_signed> &amount) {
         auto res = (*this) >> amount;
         value = res.value;
@@ -600,7 +600,7 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    logic<size - 1, 0, util::signed_result(signed_, op_signed)> &operator<<=(
+    logic<msb, lsb, signed_, array> &operator<<=(
         const logic<op_msb, op_lsb, op_signed> &amount) {
         auto res = (*this) << amount;
         value = res.value;
-- 
2.43.0


From ea1b87e336920691d2b70d61327b4215287d6cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:25 +0000
Subject: [PATCH 11/48] fix: native division and remainder never trap

2-state x/0 and x%0 and the most negative value divided by -1 raised SIGFPE,
and operands of mixed signedness were promoted to signed int.
---
 include/logic/bit.hh | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 3f2d8c3..dc2247d 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -823,7 +823,18 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator%(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value % op.value;
+        if constexpr (!native_num) {
+            result.value = value % op.value;
+        } else if (!op.any_set()) {
+            // same convention as the big number: no exception in the simulation
+            result.clear();
+        } else if constexpr (util::signed_result(signed_, op_signed)) {
+            // the most negative value % -1 overflows in C++
+            result.set_raw_bits(op.value == -1 ? 0
+                                               : static_cast<uint64_t>(value % op.value));
+        } else {
+            result.set_raw_bits(raw_bits() % op.raw_bits());
+        }
         return result;
     }
 
@@ -847,7 +858,18 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator/(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value / op.value;
+        if constexpr (!native_num) {
+            result.value = value / op.value;
+        } else if (!op.any_set()) {
+            // same convention as the big number: no exception in the simulation
+            result.clear();
+        } else if constexpr (util::signed_result(signed_, op_signed)) {
+            // the most negative value / -1 overflows in C++
+            result.set_raw_bits(op.value == -1 ? -static_cast<uint64_t>(value)
+                                               : static_cast<uint64_t>(value / op.value));
+        } else {
+            result.set_raw_bits(raw_bits() / op.raw_bits());
+        }
         return result;
     }
 
-- 
2.43.0


From e31ba11cd19de10277fa9f72b2935bd04841da2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:55 +0000
Subject: [PATCH 12/48] fix: operands are sign extended only if the result is
 signed

Operands of different widths and mixed signedness were each extended by their
own sign; LRM 11.8.2 extends both as unsigned.
---
 include/logic/bit.hh   | 45 ++++++++++++++++++++++++++----------------
 include/logic/logic.hh | 43 +++++++++++++++++++++++++---------------
 2 files changed, 55 insertions(+), 33 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index dc2247d..6cf0349 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -266,6 +266,17 @@ public:
         return res;
     }
 
+    // extension of an operand, where the signedness comes from the whole expression
+    // see LRM 11.8.2
+    template <uint64_t target_size, bool result_signed>
+    [[nodiscard]] constexpr auto resize() const {
+        if constexpr (result_signed) {
+            return this->template extend<target_size>();
+        } else {
+            return to_unsigned().template extend<target_size>();
+        }
+    }
+
     /*
      * concatenation
      */
@@ -407,8 +418,8 @@ public:
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
     requires(target_size >= util::max(size, bit<op_msb, op_lsb>::size)) auto and_(
         const bit<op_msb, op_lsb, op_signed> &op) const {
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto l = this->template resize<target_size, util::signed_result(signed_, op_signed)>();
+        auto r = op.template resize<target_size, util::signed_result(signed_, op_signed)>();
         auto result = l & r;
         result.mask_off();
         return result;
@@ -440,8 +451,8 @@ public:
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
     requires(target_size >= util::max(size, bit<op_msb, op_lsb>::size)) auto xor_(
         const bit<op_msb, op_lsb, op_signed> &op) const {
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto l = this->template resize<target_size, util::signed_result(signed_, op_signed)>();
+        auto r = op.template resize<target_size, util::signed_result(signed_, op_signed)>();
         auto result = l ^ r;
         result.mask_off();
         return result;
@@ -473,8 +484,8 @@ public:
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
     requires(target_size >= util::max(size, bit<op_msb, op_lsb>::size)) auto or_(
         const bit<op_msb, op_lsb, op_signed> &op) const {
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto l = this->template resize<target_size, util::signed_result(signed_, op_signed)>();
+        auto r = op.template resize<target_size, util::signed_result(signed_, op_signed)>();
         auto result = l | r;
         result.mask_off();
         return result;
@@ -749,8 +760,8 @@ public:
     requires(target_size >= util::max(size, bit<op_msb, op_lsb>::size)) auto add(
         const bit<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto l = this->template resize<target_size, util::signed_result(signed_, op_signed)>();
+        auto r = op.template resize<target_size, util::signed_result(signed_, op_signed)>();
         auto result = l + r;
         return result;
     }
@@ -778,8 +789,8 @@ public:
     requires(target_size >= util::max(size, bit<op_msb, op_lsb>::size)) auto minus(
         const bit<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto l = this->template resize<target_size, util::signed_result(signed_, op_signed)>();
+        auto r = op.template resize<target_size, util::signed_result(signed_, op_signed)>();
         auto result = l - r;
         return result;
     }
@@ -807,8 +818,8 @@ public:
     requires(target_size >= util::max(size, bit<op_msb, op_lsb>::size)) auto multiply(
         const bit<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto l = this->template resize<target_size, util::signed_result(signed_, op_signed)>();
+        auto r = op.template resize<target_size, util::signed_result(signed_, op_signed)>();
         auto result = l * r;
         return result;
     }
@@ -842,8 +853,8 @@ public:
     requires(target_size >= util::max(size, bit<op_msb, op_lsb>::size)) auto mod(
         const bit<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto l = this->template resize<target_size, util::signed_result(signed_, op_signed)>();
+        auto r = op.template resize<target_size, util::signed_result(signed_, op_signed)>();
         auto result = l % r;
         return result;
     }
@@ -877,8 +888,8 @@ public:
     requires(target_size >= util::max(size, bit<op_msb, op_lsb>::size)) auto divide(
         const bit<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto l = this->template resize<target_size, util::signed_result(signed_, op_signed)>();
+        auto r = op.template resize<target_size, util::signed_result(signed_, op_signed)>();
         auto result = l / r;
         return result;
     }
@@ -898,7 +909,7 @@ public:
         return res;
     }
 
-    [[nodiscard]] bit<size - 1, 0, false> to_unsigned() const {
+    [[nodiscard]] constexpr bit<size - 1, 0, false> to_unsigned() const {
         bit<size - 1, 0, false> res;
         if constexpr (native_num) {
             if constexpr (size == 1) {
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 0fdbe02..542f884 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -233,6 +233,17 @@ public:
         return result;
     }
 
+    // extension of an operand, where the signedness comes from the whole expression
+    // see LRM 11.8.2
+    template <uint64_t target_size, bool result_signed>
+    [[nodiscard]] constexpr auto resize() const {
+        if constexpr (result_signed) {
+            return this->template extend<target_size>();
+        } else {
+            return to_unsigned().template extend<target_size>();
+        }
+    }
+
     /*
      * concatenation
      */
@@ -335,8 +346,8 @@ public:
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
     requires(target_size >= util::max(size, logic<op_msb, op_lsb>::size)) auto and_(
         const logic<op_msb, op_lsb, op_signed> &op) const {
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto l = this->template resize<target_size, util::signed_result(signed_, op_signed)>();
+        auto r = op.template resize<target_size, util::signed_result(signed_, op_signed)>();
         auto result = l & r;
         return result;
     }
@@ -400,8 +411,8 @@ public:
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
     requires(target_size >= util::max(size, logic<op_msb, op_lsb>::size)) auto or_(
         const logic<op_msb, op_lsb, op_signed> &op) const {
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto l = this->template resize<target_size, util::signed_result(signed_, op_signed)>();
+        auto r = op.template resize<target_size, util::signed_result(signed_, op_signed)>();
         auto result = l | r;
         return result;
     }
@@ -454,8 +465,8 @@ public:
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
     requires(target_size >= util::max(size, logic<op_msb, op_lsb>::size)) auto xor_(
         const logic<op_msb, op_lsb, op_signed> &op) const {
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto l = this->template resize<target_size, util::signed_result(signed_, op_signed)>();
+        auto r = op.template resize<target_size, util::signed_result(signed_, op_signed)>();
         auto result = l | r;
         return result;
     }
@@ -770,8 +781,8 @@ public:
     requires(target_size >= util::max(size, logic<op_msb, op_lsb>::size)) auto add(
         const logic<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto l = this->template resize<target_size, util::signed_result(signed_, op_signed)>();
+        auto r = op.template resize<target_size, util::signed_result(signed_, op_signed)>();
         auto result = l + r;
         return result;
     }
@@ -801,8 +812,8 @@ public:
     requires(target_size >= util::max(size, logic<op_msb, op_lsb>::size)) auto minus(
         const logic<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto l = this->template resize<target_size, util::signed_result(signed_, op_signed)>();
+        auto r = op.template resize<target_size, util::signed_result(signed_, op_signed)>();
         auto result = l - r;
         return result;
     }
@@ -832,8 +843,8 @@ public:
     requires(target_size >= util::max(size, logic<op_msb, op_lsb>::size)) auto multiply(
         const logic<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto l = this->template resize<target_size, util::signed_result(signed_, op_signed)>();
+        auto r = op.template resize<target_size, util::signed_result(signed_, op_signed)>();
         auto result = l * r;
         return result;
     }
@@ -864,8 +875,8 @@ public:
     requires(target_size >= util::max(size, logic<op_msb, op_lsb>::size)) auto divide(
         const logic<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto l = this->template resize<target_size, util::signed_result(signed_, op_signed)>();
+        auto r = op.template resize<target_size, util::signed_result(signed_, op_signed)>();
         auto result = l / r;
         return result;
     }
@@ -896,8 +907,8 @@ public:
     requires(target_size >= util::max(size, logic<op_msb, op_lsb>::size)) auto mod(
         const logic<op_msb, op_lsb, op_signed> &op) const {
         // resize things to target size
-        auto l = this->template extend<target_size>();
-        auto r = op.template extend<target_size>();
+        auto l = this->template resize<target_size, util::signed_result(signed_, op_signed)>();
+        auto r = op.template resize<target_size, util::signed_result(signed_, op_signed)>();
         auto result = l % r;
         return result;
     }
-- 
2.43.0


From ba11315c37636d63458d7aa3191e44bf29bd96f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:04 +0000
Subject: [PATCH 13/48] fix: extending a signed 4-state value replicates an
 unknown sign bit

---
 include/logic/logic.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 542f884..4e7f2c2 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -229,7 +229,12 @@ public:
         [[nodiscard]] constexpr logic<target_size - 1, 0, signed_> extend() const {
         logic<target_size - 1, 0, signed_> result;
         result.value = value.template extend<target_size>();
-        result.xz_mask = xz_mask.template extend<target_size>();
+        if constexpr (signed_) {
+            // an unknown sign bit is replicated as well
+            result.xz_mask = xz_mask.to_signed().template extend<target_size>();
+        } else {
+            result.xz_mask = xz_mask.template extend<target_size>();
+        }
         return result;
     }
 
-- 
2.43.0


From 6aff406a7006ae74ba131679aade37fb02a477b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 14/48] fix: comparisons between any widths and signedness

== and != truncated the right operand to the left one's holder, unsigned
comparisons of signed holders compared sign extensions beyond the declared
width, and a native operand against a big number either did not compile or
ran off the end of the function.
---
 include/logic/bit.hh | 53 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 6cf0349..9c6fa5a 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -277,6 +277,13 @@ public:
         }
     }
 
+    // the big number used in comparing against op, if exactly one of them is a big number
+    template <int op_msb, int op_lsb, bool op_signed>
+    [[nodiscard]] constexpr auto compare_resize(const bit<op_msb, op_lsb, op_signed> &) const {
+        auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
+        return this->template resize<target_size, util::signed_result(signed_, op_signed)>().value;
+    }
+
     /*
      * concatenation
      */
@@ -620,18 +627,32 @@ public:
     template <int op_msb, int op_lsb, bool op_signed>
     bool operator==(const bit<op_msb, op_lsb, op_signed> &v) const {
         if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            return value == static_cast<T>(v.value);
-        } else {
+            // LRM specifies that only if both operands are signed we do signed comparison
+            if constexpr (signed_ && op_signed) {
+                return value == v.value;
+            } else {
+                return raw_bits() == v.raw_bits();
+            }
+        } else if constexpr (!native_num && !bit<op_msb, op_lsb>::native_num) {
             return value == v.value;
+        } else {
+            return compare_resize(v) == v.compare_resize(*this);
         }
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
     bool operator!=(const bit<op_msb, op_lsb, op_signed> &v) const {
         if constexpr (native_num && bit<op_msb, op_lsb>::native_num) {
-            return value != static_cast<T>(v.value);
-        } else {
+            // LRM specifies that only if both operands are signed we do signed comparison
+            if constexpr (signed_ && op_signed) {
+                return value != v.value;
+            } else {
+                return raw_bits() != v.raw_bits();
+            }
+        } else if constexpr (!native_num && !bit<op_msb, op_lsb>::native_num) {
             return value != v.value;
+        } else {
+            return compare_resize(v) != v.compare_resize(*this);
         }
     }
 
@@ -652,10 +673,12 @@ public:
             if constexpr (signed_ && op_signed) {
                 return value > v.value;
             } else {
-                return static_cast<uint64_t>(value) > static_cast<uint64_t>(v.value);
+                return raw_bits() > v.raw_bits();
             }
-        } else if constexpr (!native_num) {
+        } else if constexpr (!native_num && !bit<op_msb, op_lsb>::native_num) {
             return value > v.value;
+        } else {
+            return compare_resize(v) > v.compare_resize(*this);
         }
     }
 
@@ -671,10 +694,12 @@ public:
             if constexpr (signed_ && op_signed) {
                 return value < v.value;
             } else {
-                return static_cast<uint64_t>(value) < static_cast<uint64_t>(v.value);
+                return raw_bits() < v.raw_bits();
             }
-        } else if constexpr (!native_num) {
+        } else if constexpr (!native_num && !bit<op_msb, op_lsb>::native_num) {
             return value < v.value;
+        } else {
+            return compare_resize(v) < v.compare_resize(*this);
         }
     }
 
@@ -690,10 +715,12 @@ public:
             if constexpr (signed_ && op_signed) {
                 return value >= v.value;
             } else {
-                return static_cast<uint64_t>(value) >= static_cast<uint64_t>(v.value);
+                return raw_bits() >= v.raw_bits();
             }
-        } else if constexpr (!native_num) {
+        } else if constexpr (!native_num && !bit<op_msb, op_lsb>::native_num) {
             return value >= v.value;
+        } else {
+            return compare_resize(v) >= v.compare_resize(*this);
         }
     }
 
@@ -709,10 +736,12 @@ public:
             if constexpr (signed_ && op_signed) {
                 return value <= v.value;
             } else {
-                return static_cast<uint64_t>(value) <= static_cast<uint64_t>(v.value);
+                return raw_bits() <= v.raw_bits();
             }
-        } else if constexpr (!native_num) {
+        } else if constexpr (!native_num && !bit<op_msb, op_lsb>::native_num) {
             return value <= v.value;
+        } else {
+            return compare_resize(v) <= v.compare_resize(*this);
         }
     }
 
-- 
2.43.0


From 5c0ece52f5d95428ab7941c8b2174973620f3372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:25 +0000
Subject: [PATCH 15/48] fix: 4-state & with an unknown left operand

x & 0 gave x, z & 1 gave 1 and z & z gave z: the right hand side of the table
was looked up with the left operand's value bit.
---
 include/logic/logic.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 4e7f2c2..eb343e3 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -335,9 +335,10 @@ public:
         // only happens between 1 and x/z. Notice that 1 is encoded as (1, 0) and x is (, 1)
         //
         auto mask = (((xz_mask ^ op.xz_mask) & ~xz_mask) & value) |     // 1   & x/z
-                    (((op.xz_mask ^ xz_mask) & ~op.xz_mask) & ~value);  // x/z & 1
-        result.value &= ~mask;
+                    (((op.xz_mask ^ xz_mask) & ~op.xz_mask) & op.value);  // x/z & 1
         result.xz_mask |= mask;
+        // z & z is x as well
+        result.value &= ~result.xz_mask;
 
         return result;
     }
-- 
2.43.0


From 55a761f7c1cdb568176f722e0781a83fd88cd0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 16/48] fix: 4-state | with an unknown left operand

x | 0 gave 1 and z | 1 gave x.
---
 include/logic/logic.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index eb343e3..f3b4598 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -402,7 +402,7 @@ public:
         // z x x x x
         // compute the mask for case // 1 & x/z and x/z & 1
         auto mask = (((xz_mask ^ op.xz_mask) & ~xz_mask) & value) |     // 1   | x/z
-                    (((op.xz_mask ^ xz_mask) & ~op.xz_mask) & ~value);  // x/z | 1
+                    (((op.xz_mask ^ xz_mask) & ~op.xz_mask) & op.value);  // x/z | 1
         result.value |= mask;
         result.xz_mask &= ~mask;
         return result;
-- 
2.43.0


From 22faed1cc86c42f4e9a2ccdefabab3093c857222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:43 +0000
Subject: [PATCH 17/48] fix: 4-state ^ of different widths computed |

---
 include/logic/logic.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index f3b4598..fc899c4 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -473,7 +473,7 @@ public:
         const logic<op_msb, op_lsb, op_signed> &op) const {
         auto l = this->template resize<target_size, util::signed_result(signed_, op_signed)>();
         auto r = op.template resize<target_size, util::signed_result(signed_, op_signed)>();
-        auto result = l | r;
+        auto result = l ^ r;
         return result;
     }
 
-- 
2.43.0


From 54f799fcf4eb935cc96625264f5f76706b85a868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:55 +0000
Subject: [PATCH 18/48] fix: 4-state operators accept any 2-state right operand

logic(op) inside the class names the class itself instead of deducing the
operand's range, so an operand of another range did not compile.
---
 include/logic/logic.hh | 51 +++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index fc899c4..e1cb9bb 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -344,9 +344,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator&(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator&(logic(op));
+    auto operator&(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return this->template operator&(logic<op_msb, op_lsb, op_signed>(op));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -409,9 +408,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator|(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator|(logic(op));
+    auto operator|(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return this->template operator|(logic<op_msb, op_lsb, op_signed>(op));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -463,9 +461,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator^(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator^(logic(op));
+    auto operator^(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return this->template operator^(logic<op_msb, op_lsb, op_signed>(op));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -583,9 +580,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator>>(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator>>(logic(op));
+    auto operator>>(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return this->template operator>>(logic<op_msb, op_lsb, op_signed>(op));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -611,9 +607,8 @@ public:
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
-    requires((util::abs_diff(op_msb, op_lsb) + 1) != size) auto operator<<(
-        const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template operator<<(logic(op));
+    auto operator<<(const bit<op_msb, op_lsb, op_signed> &op) const {
+        return this->template operator<<(logic<op_msb, op_lsb, op_signed>(op));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -653,7 +648,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto ashl(const bit<op_msb, op_lsb, op_signed> &amount) const {
-        return this->template ashl(logic(amount));
+        return this->template ashl(logic<op_msb, op_lsb, op_signed>(amount));
     }
 
     /*
@@ -667,7 +662,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator==(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator==(logic(target));
+        return this->template operator==(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -678,7 +673,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator!=(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator!=(logic(target));
+        return this->template operator!=(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -688,7 +683,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     [[nodiscard]] bool match(const bit<op_msb, op_lsb, op_signed> &op) const {
-        return this->template match(logic(op));
+        return this->template match(logic<op_msb, op_lsb, op_signed>(op));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -709,7 +704,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator>(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator>(logic(target));
+        return this->template operator>(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -720,7 +715,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator<(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator<(logic(target));
+        return this->template operator<(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -731,7 +726,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator>=(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator>=(logic(target));
+        return this->template operator>=(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -742,7 +737,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     logic<0> operator<=(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator<=(logic(target));
+        return this->template operator<=(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     constexpr auto operator-() const {
@@ -780,7 +775,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator+(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator+(logic(target));
+        return this->template operator+(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -811,7 +806,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator-(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator-(logic(target));
+        return this->template operator-(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -842,7 +837,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator*(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator*(logic(target));
+        return this->template operator*(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -874,7 +869,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator/(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator/(logic(target));
+        return this->template operator/(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
@@ -906,7 +901,7 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator%(const bit<op_msb, op_lsb, op_signed> &target) const {
-        return this->template operator%(logic(target));
+        return this->template operator%(logic<op_msb, op_lsb, op_signed>(target));
     }
 
     template <uint64_t target_size, int op_msb, int op_lsb, bool op_signed>
-- 
2.43.0


From 381f9480601a5bc909478d23205e032bdd7c7d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:01 +0000
Subject: [PATCH 19/48] fix: reduction & and | look at every bit before giving
 x

An unknown bit decided the result even if a later bit was a deciding 0 or 1.
The bits are also addressed by the declared range.
---
 include/logic/logic.hh | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index e1cb9bb..428661e 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -499,29 +499,31 @@ public:
     [[nodiscard]] logic<0> r_and() const {
         // zero trump everything
         // brute force way to compute
-        for (auto i = 0u; i < size; i++) {
+        bool unknown = false;
+        for (auto i = util::min(msb, lsb); i <= util::max(msb, lsb); i++) {
             auto b = value[i];
             auto m = xz_mask[i];
             if (!b && !m)
                 return zero_();
             else if (m)
-                return x_();
+                unknown = true;
         }
-        return one_();
+        return unknown ? x_() : one_();
     }
 
     [[nodiscard]] logic<0> r_nand() const { return !r_and(); }
 
     [[nodiscard]] logic<0> r_or() const {
-        for (auto i = 0u; i < size; i++) {
+        bool unknown = false;
+        for (auto i = util::min(msb, lsb); i <= util::max(msb, lsb); i++) {
             auto b = value[i];
             auto m = xz_mask[i];
             if (b && !m)
                 return one_();
             else if (m)
-                return x_();
+                unknown = true;
         }
-        return zero_();
+        return unknown ? x_() : zero_();
     }
 
     [[nodiscard]] logic<0> r_nor() const { return !r_or(); }
-- 
2.43.0


From 4bf8bacb9563ea264dbecd0448b17ff53df0fbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:08 +0000
Subject: [PATCH 20/48] fix: reduction ^ counts the ones

The parity of the zeros is only that of the ones for even widths. popcount did
not compile for bool, signed or multi-word holders.
---
 include/logic/big_num.hh | 3 ++-
 include/logic/bit.hh     | 2 +-
 include/logic/logic.hh   | 3 +--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 88415cd..e92f179 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -145,7 +145,8 @@ public:
     }
 
     [[maybe_unused]] [[nodiscard]] uint64_t popcount() const {
-        return std::accumulate(values.begin(), values.end(), std::popcount);
+        return std::accumulate(values.begin(), values.end(), uint64_t{0},
+                               [](uint64_t sum, auto v) { return sum + std::popcount(v); });
     }
 
     constexpr void mask_off() {
diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 9c6fa5a..c0a43cf 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -335,7 +335,7 @@ public:
 
     [[nodiscard]] uint64_t popcount() const {
         if constexpr (native_num) {
-            return std::popcount(value);
+            return std::popcount(raw_bits());
         } else {
             return value.popcount();
         }
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 428661e..4f9f2cf 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -538,8 +538,7 @@ public:
         // if x/z is set, it's always x
         if (xz_mask.any_set()) return x_();
         auto bits_count = value.popcount();
-        auto zeros = size - bits_count;
-        return (zeros % 2) ? one_() : zero_();
+        return (bits_count % 2) ? one_() : zero_();
     }
 
     [[nodiscard]] logic<0> r_xnor() const { return !r_xor(); }
-- 
2.43.0


From c00b55973688515b9259d97cb44b14c6bd8a6459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:16 +0000
Subject: [PATCH 21/48] fix: 2-state reductions

Multi-word r_and computed r_xor, native r_and was wrong for 1-bit and signed
holders and native r_xor did not compile.
---
 include/logic/big_num.hh | 14 +-------------
 include/logic/bit.hh     | 21 +++++----------------
 2 files changed, 6 insertions(+), 29 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index e92f179..0d2fc7b 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -299,19 +299,7 @@ public:
     // reduction
     [[maybe_unused]] [[nodiscard]] bool r_and() const {
         // only if all the bit are set
-        auto b = std::all_of(values.begin(), values.begin() + s - 1, [](auto const v) {
-            return v == std::numeric_limits<uint64_t>::max();
-        });
-        if constexpr (values.size() * 8 == size) {
-            return b;
-        } else {
-            if (b) return false;
-
-            for (uint64_t i = (values.size() - 1); i < s; i++) {
-                if (!get(i)) return false;
-            }
-        }
-        return true;
+        return all_set();
     }
 
     [[maybe_unused]] [[nodiscard]] bool r_xor() const {
diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index c0a43cf..246dd07 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -508,11 +508,11 @@ public:
 
     // reduction
     [[nodiscard]] bool r_and() const requires(native_num) {
-        auto constexpr max = std::numeric_limits<T>::max() >> (sizeof(T) * 8 - size);
-        return value == max;
+        auto constexpr max = std::numeric_limits<uint64_t>::max() >> (big_num_threshold - size);
+        return raw_bits() == max;
     }
 
-    [[nodiscard]] bool r_and() const requires(!native_num) { return value.r_xor(); }
+    [[nodiscard]] bool r_and() const requires(!native_num) { return value.r_and(); }
 
     [[maybe_unused]] [[nodiscard]] bool r_nand() const { return !r_and(); }
 
@@ -521,11 +521,7 @@ public:
     [[maybe_unused]] [[nodiscard]] bool r_nor() const { return !r_or(); }
 
     [[nodiscard]] bool r_xor() const requires(native_num) {
-        bool b = get<0>();
-        for (auto i = 1; i < size; i++) {
-            b = b ^ get(i);
-        }
-        return b;
+        return popcount() % 2;
     }
 
     [[nodiscard]] bool r_xor() const requires(!native_num) { return value.r_xor(); }
@@ -1005,8 +1001,7 @@ public:
 
     [[nodiscard]] bool all_set() const {
         if constexpr (native_num) {
-            auto constexpr max = value_mask(size);
-            return value == max;
+            return r_and();
         } else {
             return value.all_set();
         }
@@ -1193,12 +1188,6 @@ private:
         this->template unpack_<base + arg0_size>(args...);
     }
 
-    [[nodiscard]] T value_mask(uint64_t requested_size) const {
-        auto mask = std::numeric_limits<uint64_t>::max();
-        mask = mask >> (64ull - requested_size);
-        return static_cast<T>(mask);
-    }
-
     [[nodiscard]] inline bit<0> get_(int idx) const {
         if constexpr (!big_endian) {
             idx = lsb - idx;
-- 
2.43.0


From aa655d1cd5972923bd7ccf6cde3be91a9a1d052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:44 +0000
Subject: [PATCH 22/48] fix: bit selects and bit writes address the declared
 range

Ranges with a base were addressed from 0 by reads and subtracted twice by
descending writes, out of range bits were read and written outside the value
(or through an undefined shift), an x or z bit of a 4-state value was written at
its index into the 1-bit result, and selecting by an x index read a bit. A
written sign bit is now sign extended into the holder.
---
 include/logic/bit.hh   | 111 +++++++++++++++++++----------------------
 include/logic/logic.hh |  46 +++++++----------
 include/logic/util.hh  |   3 ++
 3 files changed, 72 insertions(+), 88 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 246dd07..207da6e 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -25,6 +25,14 @@ public:
 
     T value;
 
+    // whether idx is in the declared range, and its position in the storage if it is
+    static constexpr bool in_range(int idx) {
+        return idx >= util::min(msb, lsb) && idx <= util::max(msb, lsb);
+    }
+    static constexpr uint64_t bit_pos(int idx) {
+        return static_cast<uint64_t>(big_endian ? idx - int64_t{lsb} : lsb - int64_t{idx});
+    }
+
     // basic formatting
     [[nodiscard]] std::string str(std::string_view fmt = "b") const {
         if constexpr (native_num) {
@@ -47,36 +55,27 @@ public:
     bit<0> inline operator[](int idx) const requires(!array) { return get_(idx); }
 
     template <int idx>
-    requires(idx < size && native_num) [[nodiscard]] bit<0> inline get() const requires(!array) {
+    requires(in_range(idx)) [[nodiscard]] bit<0> inline get() const requires(!array) {
         return this->operator[](idx);
     }
 
     template <int op_msb, int op_lsb, bool op_signed, bool op_array>
     bool inline get(const bit<op_msb, op_lsb, op_signed, op_array> &op) const requires(!array) {
-        int index;
-        if constexpr (bit<op_msb, op_lsb>::native_num) {
-            index = op.value - util::min(msb, lsb);
-        } else {
-            if (op.fit_in_64()) {
-                index = op.value.value[0] - util::min(msb, lsb);
-            } else {
-                return false;
-            }
-        }
-        return get_(index);
+        return static_cast<bool>(get_(op.to_index()));
     }
 
     void inline set(int idx, bool v) {
-        if constexpr (!big_endian) {
-            idx = lsb - idx;
-        }
-        auto i = static_cast<uint64_t>(idx - util::min(lsb, msb));
+        // out of bound bits are ignored
+        if (!in_range(idx)) [[unlikely]]
+            return;
+        auto i = bit_pos(idx);
         if constexpr (native_num) {
             if (v) {
                 value |= 1ull << i;
             } else {
                 value &= ~(1ull << i);
             }
+            mask_off();
         } else {
             value.set(i, v);
         }
@@ -84,34 +83,22 @@ public:
 
     template <int idx>
     void set(bool v) requires(!array) {
-        constexpr auto idx_ = big_endian ? idx : (lsb - idx);
-        constexpr auto i = static_cast<uint64_t>(idx_ - util::min(lsb, msb));
-        if constexpr (native_num) {
+        constexpr auto i = bit_pos(idx);
+        if constexpr (!in_range(idx)) {
+            return;
+        } else if constexpr (native_num) {
             if (v) {
                 value |= 1ull << i;
             } else {
                 value &= ~(1ull << i);
             }
+            mask_off();
         } else {
             value.template set<i>(v);
         }
     }
 
-    void inline set(int idx, bit<0> v) {
-        if constexpr (!big_endian) {
-            idx = lsb - idx;
-        }
-        auto i = static_cast<uint64_t>(idx - util::min(lsb, msb));
-        if constexpr (native_num) {
-            if (v) {
-                value |= 1ull << i;
-            } else {
-                value &= ~(1ull << i);
-            }
-        } else {
-            value.set(idx, v.value);
-        }
-    }
+    void inline set(int idx, bit<0> v) { this->set(idx, v.value); }
 
     template <int idx>
     void set(bit<0> v) requires(!array) {
@@ -120,14 +107,16 @@ public:
 
     template <int idx, bool v>
     void set() requires(!array) {
-        auto constexpr idx_ = big_endian ? idx : (lsb - idx);
-        constexpr auto i = idx_ - util::min(lsb, msb);
-        if constexpr (native_num) {
+        constexpr auto i = bit_pos(idx);
+        if constexpr (!in_range(idx)) {
+            return;
+        } else if constexpr (native_num) {
             if constexpr (v) {
                 value |= 1ull << i;
             } else {
                 value &= ~(1ull << i);
             }
+            mask_off();
         } else {
             value.template set<i, v>();
         }
@@ -1036,6 +1025,25 @@ public:
         this->template update_(start, end, op);
     }
 
+    // the value when used as an index. anything that's too far away to be in any range is saturated
+    [[nodiscard]] int to_index() const {
+        auto constexpr limit = util::invalid_index;
+        if constexpr (native_num && signed_) {
+            return static_cast<int>(
+                util::max<int64_t>(-limit, util::min<int64_t>(static_cast<int64_t>(value), limit)));
+        } else if constexpr (native_num) {
+            return static_cast<int>(util::min<uint64_t>(value, limit));
+        } else {
+            if constexpr (signed_) {
+                if (negative()) {
+                    auto const v = negate().shift_amount();
+                    return -static_cast<int>(util::min<uint64_t>(v, limit));
+                }
+            }
+            return static_cast<int>(util::min<uint64_t>(shift_amount(), limit));
+        }
+    }
+
     /*
      * value conversions
      */
@@ -1189,31 +1197,14 @@ private:
     }
 
     [[nodiscard]] inline bit<0> get_(int idx) const {
-        if constexpr (!big_endian) {
-            idx = lsb - idx;
-        }
+        // out of bound access
+        if (!in_range(idx)) [[unlikely]]
+            return bit<0>(false);
+        auto i = bit_pos(idx);
         if constexpr (native_num) {
-            return bit<0>((value >> idx) & 1);
-        } else {
-            return bit<0>(value[idx]);
-        }
-    }
-
-    template <int idx>
-    [[nodiscard]] inline bit<0> get_() const {
-        if constexpr (!big_endian) {
-            constexpr auto idx_ = lsb - idx;
-            if constexpr (native_num) {
-                return bit<0>((value >> idx_) & 1);
-            } else {
-                return bit<0>(value.template get<idx_>());
-            }
+            return bit<0>((value >> i) & 1);
         } else {
-            if constexpr (native_num) {
-                return bit<0>((value >> idx) & 1);
-            } else {
-                return bit<0>(value.template get<idx>());
-            }
+            return bit<0>(value[i]);
         }
     }
 
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 4f9f2cf..049820b 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -55,9 +55,9 @@ public:
         if (idx <= util::max(msb, lsb) && idx >= util::min(msb, lsb)) [[likely]] {
             logic<0> r;
             if (x_set(idx)) [[unlikely]] {
-                r.set_x(idx);
+                r.set_x(0);
             } else if (z_set(idx)) [[unlikely]] {
-                r.set_z(idx);
+                r.set_z(0);
             } else {
                 r.value = value[idx];
                 r.xz_mask.value = false;
@@ -70,12 +70,13 @@ public:
     }
 
     template <int idx>
-    requires(idx < size) [[nodiscard]] inline logic<0> get() const requires(!array) {
+    requires(bit<msb, lsb>::in_range(idx)) [[nodiscard]] inline logic<0> get() const
+        requires(!array) {
         logic<0> r{false};
         if (this->template x_set<idx>()) [[unlikely]] {
-            r.set_x<idx>();
+            r.set_x(0);
         } else if (this->template z_set<idx>()) [[unlikely]] {
-            r.set_z<idx>();
+            r.set_z(0);
         } else {
             r.value = value.template get<idx>();
         }
@@ -85,32 +86,13 @@ public:
     template <int op_msb, int op_lsb, bool op_signed, bool op_array>
     logic<0> inline get(const logic<op_msb, op_lsb, op_signed, op_array> &op) const
         requires(!array) {
-        int index;
-        if constexpr (util::native_num(util::total_size(msb, lsb))) {
-            index = op.value - util::min(msb, lsb);
-        } else {
-            if (op.fit_in_64() && !op.xz_mask.any_set()) {
-                index = op.value.value[0] - util::min(msb, lsb);
-            } else {
-                return x_();
-            }
-        }
-        return operator[](index);
+        // an unknown index is never in range
+        return operator[](op.to_index());
     }
 
     template <int op_msb, int op_lsb, bool op_signed, bool op_array>
     logic<0> inline get(const bit<op_msb, op_lsb, op_signed, op_array> &op) const requires(!array) {
-        int index;
-        if constexpr (util::native_num(util::total_size(msb, lsb))) {
-            index = op.value - util::min(msb, lsb);
-        } else {
-            if (op.fit_in_64()) {
-                index = op.value.value[0] - util::min(msb, lsb);
-            } else {
-                return x_();
-            }
-        }
-        return operator[](index);
+        return operator[](op.to_index());
     }
 
     void set(int idx, bool v) requires(!array) {
@@ -946,6 +928,14 @@ public:
         this->template update_(start, end, op);
     }
 
+    // the value when used as an index. an unknown index is outside any range
+    [[nodiscard]] int to_index() const {
+        if (xz_mask.any_set())
+            return util::invalid_index;
+        else
+            return value.to_index();
+    }
+
     /*
      * value conversions
      */
@@ -1095,7 +1085,7 @@ public:
 private:
     void unmask_bit(uint64_t idx) { xz_mask.set(idx, false); }
 
-    template <uint64_t idx>
+    template <int idx>
     void unmask_bit() {
         xz_mask.template set<idx, false>();
     }
diff --git a/include/logic/util.hh b/include/logic/util.hh
index 408061f..9732b81 100644
--- a/include/logic/util.hh
+++ b/include/logic/util.hh
@@ -79,6 +79,9 @@ constexpr bool match_endian(int op1_hi, int op1_lo, int op2_hi, int op2_lo) {
 
 constexpr uint64_t total_size(int msb, int lsb) { return abs_diff(msb, lsb) + 1; }
 
+// index that's outside any declared range
+constexpr int invalid_index = 1 << 30;
+
 template <uint64_t s, bool signed_, typename enable = void>
 struct get_holder_type;
 
-- 
2.43.0


From ef6d4df4d258e9ab54613378f7e0075c5e9791e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:52 +0000
Subject: [PATCH 23/48] fix: constant part selects of signed native values

The mask dropped the top addressed bit and the arithmetic shift smeared the sign
over the result.
---
 include/logic/bit.hh | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 207da6e..62e0f94 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -1224,14 +1224,8 @@ protected:
         } else {
             constexpr auto default_mask = bit_mask();
             uint64_t mask = default_mask << min;
-            uint64_t shmnt;
-            if constexpr (signed_) {
-                shmnt = 2;
-            } else {
-                shmnt = 1;
-            }
-            mask &= (default_mask >> (t_size - max - shmnt));
-            result.value = (value & static_cast<T>(mask)) >> min;
+            mask &= (default_mask >> (t_size - max - 1));
+            result.value = (raw_bits() & mask) >> min;
         }
         return result;
     }
-- 
2.43.0


From 4ce36d0367011b1b88ea7982cfef35451514507c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 24/48] fix: constant part selects of ranges with a base and of
 65 bits

The constraint compared indices against the width, multi-word values ignored
the base, and a 65-bit select of a multi-word value was treated as native.
---
 include/logic/bit.hh   | 18 +++++++++++-------
 include/logic/logic.hh | 14 +++++---------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 62e0f94..c175cba 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -140,17 +140,19 @@ public:
      * native holder always produce native numbers
      */
     template <int a, int b>
-    requires(util::max(a, b) < size && native_num && b >= lsb) bit<util::abs_diff(a, b)>
+    requires(in_range(a) && in_range(b) && native_num && b >= lsb) bit<util::abs_diff(a, b)>
     constexpr inline slice() const requires(!array) { return this->template slice_<a, b>(); }
 
     /*
      * big number but small slice
      */
     template <int a, int b>
-    requires(util::max(a, b) < size && !native_num && util::native_num(util::abs_diff(a, b)) &&
+    requires(in_range(a) && in_range(b) && !native_num &&
+             util::native_num(util::total_size(a, b)) &&
              b >= lsb) constexpr bit<util::abs_diff(a, b)> inline slice() const requires(!array) {
         bit<util::abs_diff(a, b), false> result;
-        auto res = value.template slice<a, b>();
+        constexpr auto base = util::min(msb, lsb);
+        auto res = value.template slice<a - base, b - base>();
         // need to shrink it down
         result.value = res.values[0];
         return result;
@@ -160,15 +162,17 @@ public:
      * big number and big slice
      */
     template <int a, int b>
-    requires(util::max(a, b) < size && !native_num && !util::native_num(util::abs_diff(a, b)) &&
+    requires(in_range(a) && in_range(b) && !native_num &&
+             !util::native_num(util::total_size(a, b)) &&
              b >= lsb) constexpr bit<util::abs_diff(a, b)> inline slice() const requires(!array) {
         bit<util::abs_diff(a, b), false> result;
-        result.value = value.template slice<a, b>();
+        constexpr auto base = util::min(msb, lsb);
+        result.value = value.template slice<a - base, b - base>();
         return result;
     }
 
     template <int a, int b>
-    requires(util::max(a, b) < size) auto inline slice_ref() requires(!array) {
+    requires(in_range(a) && in_range(b)) auto inline slice_ref() requires(!array) {
         return slice_ref_fixed<a, b, decltype(*this)>(*this);
     }
 
@@ -1210,7 +1214,7 @@ private:
 
 protected:
     template <int a, int b>
-    requires(util::max(a, b) < size && native_num && b >= lsb) bit<util::abs_diff(a, b)>
+    requires(in_range(a) && in_range(b) && native_num && b >= lsb) bit<util::abs_diff(a, b)>
     constexpr inline slice_() const {
         // assume the import has type-checked properly, e.g. by a compiler
         constexpr auto base = util::min(msb, lsb);
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 049820b..ccbbb40 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -158,13 +158,13 @@ public:
      * slices
      */
     template <int a, int b>
-    requires(util::max(a, b) < size) constexpr logic<util::abs_diff(a, b)> inline slice() const
-        requires(!array) {
+    requires(bit<msb, lsb>::in_range(a) && bit<msb, lsb>::in_range(b)) constexpr logic<
+        util::abs_diff(a, b)> inline slice() const requires(!array) {
         return this->template slice_<a, b>();
     }
 
     template <int a, int b>
-    requires(util::max(a, b) < size) auto inline slice_ref() requires(!array) {
+    requires(bit<msb, lsb>::in_range(a) && bit<msb, lsb>::in_range(b)) auto inline slice_ref() requires(!array) {
         return slice_ref_fixed<a, b, decltype(*this)>(*this);
     }
 
@@ -1121,12 +1121,8 @@ private:
 
 protected:
     template <int a, int b>
-    requires(util::max(a, b) < size) constexpr logic<util::abs_diff(a, b)> inline slice_() const {
-        if constexpr (size <= util::max(a, b)) {
-            // out of bound access will be X
-            return logic<util::abs_diff(a, b)>{};
-        }
-
+    requires(bit<msb, lsb>::in_range(a) && bit<msb, lsb>::in_range(b)) constexpr logic<
+        util::abs_diff(a, b)> inline slice_() const {
         logic<util::abs_diff(a, b), 0, false> result;
         result.value = value.template slice<a, b>();
         // copy over masks
-- 
2.43.0


From c23ec3a2c55d559ecdd2f138e98321b21cfa7ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:03 +0000
Subject: [PATCH 25/48] fix: run-time part selects outside the value

Out of range selects used an undefined shift or, for a negative bound of a
multi-word value, looped for 2^64 iterations; they now read 0 (2-state) or x
(4-state), as does an indexed select with an unknown base. Signed and 1-bit
values returned sign extensions beyond the selected bits, and multi-word values
ignored the declared base.
---
 include/logic/big_num.hh |  3 ++-
 include/logic/bit.hh     | 29 ++++++++++++++++++++++-------
 include/logic/logic.hh   | 10 ++++++++--
 3 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 0d2fc7b..3cff0e1 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -101,7 +101,8 @@ public:
         auto end = util::max(a, b);
         big_num<target_size, false> result;
 
-        for (auto i = start; i <= end; i++) {
+        // anything out of bound is 0
+        for (auto i = start; i <= end && i < size && i - start < target_size; i++) {
             result.set(i - start, get(i));
         }
         return result;
diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index c175cba..4c96608 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -186,7 +186,7 @@ public:
     template <uint32_t target_size, bool increase = true, typename T>
     [[nodiscard]] auto slice(T base) const {
         int end;
-        int base_value = static_cast<int>(base.to_num());
+        int base_value = base.to_index();
         if constexpr (increase) {
             end = base_value + static_cast<int>(target_size - 1);
         } else {
@@ -198,7 +198,7 @@ public:
     template <uint32_t target_size, bool increase = true, typename T>
     [[nodiscard]] auto slice_ref(T base) {
         int end;
-        int base_value = static_cast<int>(base.to_num());
+        int base_value = base.to_index();
         if constexpr (increase) {
             end = base_value + static_cast<int>(target_size - 1);
         } else {
@@ -1237,21 +1237,36 @@ protected:
     template <uint32_t target_size>
     [[nodiscard]] auto slice_(int a, int b) const {
         bit<target_size - 1, false> result;
-        if constexpr (native_num) {
+        if (!in_range(a) || !in_range(b)) [[unlikely]] {
+            // bits out of the declared range are 0
+            auto const v = this->to_unsigned();
+            int64_t const start = util::min(a, b);
+            int64_t const end = util::min<int64_t>(util::max(a, b), start + target_size - 1);
+            for (auto i = util::max<int64_t>(start, util::min(msb, lsb));
+                 i <= util::min<int64_t>(end, util::max(msb, lsb)); i++) {
+                result.set(static_cast<int>(i - start), v[i - util::min(msb, lsb)].value);
+            }
+            return result;
+        }
+        if constexpr (native_num && !util::native_num(target_size)) {
+            // can't be in range
+            return result;
+        } else if constexpr (native_num) {
             // assume the import has type-checked properly, e.g. by a compiler
             auto base = util::min(msb, lsb);
             auto max = util::max(a, b) - base;
             auto min = util::min(a, b) - base;
-            auto t_size = sizeof(T) * 8;
-            constexpr auto default_mask = bit_mask();
+            auto t_size = big_num_threshold;
+            constexpr auto default_mask = std::numeric_limits<uint64_t>::max();
             uint64_t mask = default_mask << min;
             mask &= (default_mask >> (t_size - max - 1));
-            result.value = (value & static_cast<T>(mask)) >> min;
+            result.set_raw_bits((raw_bits() & mask) >> min);
 
             return result;
         } else {
             // may need to shrink
-            auto v = value.template slice<target_size>(a, b);
+            auto base = util::min(msb, lsb);
+            auto v = value.template slice<target_size>(a - base, b - base);
             if constexpr (util::native_num(target_size)) {
                 result.value = static_cast<decltype(result.value)>(v.values[0]);
             } else {
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index ccbbb40..84a476d 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -174,6 +174,12 @@ public:
         logic<target_size - 1, 0> result;
         result.value = value.template slice<target_size>(a, b);
         result.xz_mask = xz_mask.template slice<target_size>(a, b);
+        // anything out of bound is x
+        for (int64_t i = 0, start = util::min(a, b); i < target_size; i++) {
+            if (start + i < util::min(msb, lsb) || start + i > util::max(msb, lsb)) [[unlikely]] {
+                result.set_x(static_cast<int>(i));
+            }
+        }
         return result;
     }
 
@@ -182,7 +188,7 @@ public:
     template <uint32_t target_size, bool increase = true, typename T>
     auto slice(T base) const {
         int end;
-        int base_value = static_cast<int>(base.to_num());
+        int base_value = base.to_index();
         if constexpr (increase) {
             end = base_value + static_cast<int>(target_size - 1);
         } else {
@@ -194,7 +200,7 @@ public:
     template <uint32_t target_size, bool increase = true, typename T>
     auto slice_ref(T base) {
         int end;
-        int base_value = static_cast<int>(base.to_num());
+        int base_value = base.to_index();
         if constexpr (increase) {
             end = base_value + static_cast<int>(target_size - 1);
         } else {
-- 
2.43.0


From e874861426e6983a5bd88cbd6eeef38238316a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:54 +0000
Subject: [PATCH 26/48] fix: part select writes take the source from its least
 significant bit

The source was indexed by the destination's indices: a constant update of a
2-state value did not subtract the start, ranges with a base or of the other
endianness read the wrong bits, bits outside the destination were written out
of bounds, and a source that is the destination was read while written.
---
 include/logic/bit.hh   | 43 +++++++++++++------------------
 include/logic/logic.hh | 58 ++++++++++++++----------------------------
 2 files changed, 36 insertions(+), 65 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 4c96608..2fab82c 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -1005,21 +1005,8 @@ public:
      */
     // setting values
     template <int hi, int lo = hi, int op_hi, int op_lo, bool op_signed>
-    void update(const bit<op_hi, op_lo, op_signed> &op) requires(hi < size && lo < size) {
-        auto constexpr start = util::min(hi, lo);
-        auto constexpr end = util::max(hi, lo) + 1;
-        for (auto i = start; i < end; i++) {
-            // notice that if it is out of range, 0 will be returned
-            // we need to revert the index accessing scheme here, if the endian doesn't match
-            int idx;
-            if constexpr (bit<op_hi, op_lo>::big_endian ^ big_endian) {
-                idx = util::max(op_lo, op_hi) - i;
-            } else {
-                idx = i;
-            }
-            auto b = op.operator[](idx);
-            set(i, b);
-        }
+    void update(const bit<op_hi, op_lo, op_signed> &op) requires(in_range(hi) && in_range(lo)) {
+        this->update_(hi, lo, op);
     }
 
     template <int op_hi, int op_lo, bool op_signed>
@@ -1278,19 +1265,23 @@ protected:
 
     template <int op_msb, int op_lsb, bool op_signed>
     void update_(int hi, int lo, const bit<op_msb, op_lsb, op_signed> &op) {
-        auto start = util::min(hi, lo);
-        auto end = util::max(hi, lo) + 1;
-        for (auto i = start; i < end; i++) {
+        // the source can be the destination itself
+        auto const src = op;
+        int64_t const start = util::min(hi, lo);
+        int64_t const end = util::max(hi, lo);
+        // bits out of bound are ignored
+        for (auto i = util::max<int64_t>(start, util::min(msb, lsb));
+             i <= util::min<int64_t>(end, util::max(msb, lsb)); i++) {
+            // count from the least significant bit of both sides, whatever the endian is
+            auto const offset = big_endian ? i - start : end - i;
             // notice that if it is out of range, 0 will be returned
-            // we need to revert the index accessing scheme here, if the endian doesn't match
-            uint64_t idx;
-            if constexpr (bit<op_msb, op_lsb>::big_endian ^ big_endian) {
-                idx = util::max(op_lsb, op_msb) - i;
-            } else {
-                idx = i;
+            bool b = false;
+            if (offset < bit<op_msb, op_lsb>::size) {
+                auto const idx =
+                    bit<op_msb, op_lsb>::big_endian ? op_lsb + offset : op_lsb - offset;
+                b = src.operator[](static_cast<int>(idx)).value;
             }
-            auto b = op.operator[](idx - start);
-            set(i, b);
+            set(static_cast<int>(i), b);
         }
     }
 
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 84a476d..f3135f3 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -923,7 +923,8 @@ public:
     // setting values
     template <int hi, int lo = hi, int op_hi, int op_lo, bool op_signed>
     requires(!array) void update(const logic<op_hi, op_lo, op_signed> &op) requires(
-        hi < size && lo < size && util::match_endian(hi, lo, msb, lsb)) {
+        bit<msb, lsb>::in_range(hi) && bit<msb, lsb>::in_range(lo) &&
+        util::match_endian(hi, lo, msb, lsb)) {
         this->template update_<hi, lo>(op);
     }
 
@@ -1138,52 +1139,31 @@ protected:
     }
 
     template <int hi, int lo = hi, int op_hi, int op_lo, bool op_signed>
-    void update_(const logic<op_hi, op_lo, op_signed> &op) requires(hi < size && lo < size &&
-                                                                    util::match_endian(hi, lo, msb,
-                                                                                       lsb)) {
-        auto constexpr start = util::min(hi, lo);
-        auto constexpr end = util::max(hi, lo) + 1;
-        for (auto i = start; i < end; i++) {
-            // notice that if it is out of range, 0 will be returned
-            // we need to revert the index accessing scheme here, if the endian doesn't match
-            uint64_t idx;
-            if constexpr (logic<op_hi, op_lo, op_signed>::big_endian ^ big_endian) {
-                idx = util::max(op_lo, op_hi) - i;
-            } else {
-                idx = i;
-            }
-            idx = idx - start;
-            logic<0, 0> b;
-            if (idx > util::max(op_lo, op_hi) || idx < util::min(op_lo, op_hi)) {
-                // out of bound access, set to 0
-                b = zero_();
-            } else {
-                b = op.operator[](idx);
-            }
-            set_(i, b);
-        }
+    void update_(const logic<op_hi, op_lo, op_signed> &op) requires(
+        bit<msb, lsb>::in_range(hi) && bit<msb, lsb>::in_range(lo) &&
+        util::match_endian(hi, lo, msb, lsb)) {
+        this->update_(hi, lo, op);
     }
 
     template <int op_hi, int op_lo, bool op_signed>
     void update_(int hi, int lo, const logic<op_hi, op_lo, op_signed> &op) {
-        auto start = util::min(hi, lo);
-        auto end = util::max(hi, lo) + 1;
-        for (auto i = start; i < end; i++) {
-            // notice that if it is out of range, 0 will be returned
-            // we need to revert the index accessing scheme here, if the endian doesn't match
-            uint64_t idx;
-            if constexpr (logic<op_hi, op_lo, op_signed>::big_endian ^ big_endian) {
-                idx = util::max(op_lo, op_hi) - i;
-            } else {
-                idx = i;
-            }
-            idx = idx - start;
+        // the source can be the destination itself
+        auto const src = op;
+        int64_t const start = util::min(hi, lo);
+        int64_t const end = util::max(hi, lo);
+        // bits out of bound are ignored
+        for (auto i = util::max<int64_t>(start, util::min(msb, lsb));
+             i <= util::min<int64_t>(end, util::max(msb, lsb)); i++) {
+            // count from the least significant bit of both sides, whatever the endian is
+            auto const offset = big_endian ? i - start : end - i;
             logic<0, 0> b;
-            if (idx > util::max(op_lo, op_hi) || idx < util::min(op_lo, op_hi)) {
+            if (offset >= logic<op_hi, op_lo>::size) {
                 // out of bound access, set to 0
                 b = zero_();
             } else {
-                b = op.operator[](idx);
+                auto const idx =
+                    logic<op_hi, op_lo>::big_endian ? op_lo + offset : op_lo - offset;
+                b = src.operator[](static_cast<int>(idx));
             }
             set_(i, b);
         }
-- 
2.43.0


From 01d7f6a1746254583c7d09423ce741a8a25f00db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:34 +0000
Subject: [PATCH 27/48] fix: big_num from a negative native integer

An unsigned big number was not the integer modulo 2^size: the words above the
first stayed 0.
---
 include/logic/big_num.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/logic/big_num.hh b/include/logic/big_num.hh
index 3cff0e1..412d85e 100644
--- a/include/logic/big_num.hh
+++ b/include/logic/big_num.hh
@@ -903,15 +903,15 @@ public:
 
     template <typename T>
     requires std::is_arithmetic_v<T>
-    explicit constexpr big_num(T v) : values({v}) {
-        if constexpr (signed_) {
+    explicit constexpr big_num(T v) : values({static_cast<big_num_holder_type>(v)}) {
+        if constexpr (std::is_signed_v<T>) {
             if (v < 0) {
                 for (auto i = 1u; i < s; i++) {
                     values[i] = std::numeric_limits<big_num_holder_type>::max();
                 }
-                mask_off();
             }
         }
+        mask_off();
     }
 
     // set values to 0 when initialized
-- 
2.43.0


From 4333641764ef075eb461f2c0b68740df75e7e477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 28/48] fix: concatenation keeps every bit

Native values were shifted in their own holder (losing the upper operand's bits)
and a negative lower operand overwrote the upper one; results of 64 bits and
more did not compile; the unknown bits of logic.concat(bit) were not moved up
with their values. A const value can be concatenated.
---
 include/logic/bit.hh   | 27 ++++++++++++++-------------
 include/logic/logic.hh | 10 +++++-----
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 2fab82c..f4fbc5a 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -281,28 +281,20 @@ public:
      * concatenation
      */
     template <int arg0_msb, int arg0_lsb, bool arg0_signed>
-    auto concat(const bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) {
+    auto concat(const bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) const {
         auto constexpr arg0_size = bit<arg0_msb, arg0_lsb>::size;
         auto constexpr final_size = size + arg0_size;
-        if constexpr (final_size < big_num_threshold) {
-            return bit<final_size - 1>(value << arg0_size | arg0.value);
+        if constexpr (util::native_num(final_size)) {
+            return bit<final_size - 1>(raw_bits() << arg0_size | arg0.raw_bits());
         } else {
             auto res = bit<final_size - 1>();
-            if constexpr (bit<arg0_msb, arg0_lsb>::native_num) {
-                // convert to big num
-                big_num<arg0_size, false> b(arg0.value);
-                auto big_num = value.concat(b);
-                res.big_num = big_num;
-            } else {
-                auto big_num = value.concat(arg0.value);
-                res.big_num = big_num;
-            }
+            res.value = to_big_num().concat(arg0.to_big_num());
             return res;
         }
     }
 
     template <typename U, typename... Ts>
-    auto concat(U arg0, Ts... args) {
+    auto concat(U arg0, Ts... args) const {
         return concat(arg0).concat(args...);
     }
 
@@ -358,6 +350,15 @@ public:
                (std::numeric_limits<uint64_t>::max() >> (big_num_threshold - size));
     }
 
+    // the declared bits as a big number
+    [[nodiscard]] constexpr big_num<size, false> to_big_num() const {
+        if constexpr (native_num) {
+            return big_num<size, false>(raw_bits());
+        } else {
+            return value;
+        }
+    }
+
     // store the low bits of v, i.e. v modulo 2^size
     constexpr void set_raw_bits(uint64_t v) requires(native_num) {
         if constexpr (std::is_same_v<T, bool>) {
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index f3135f3..296772e 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -241,7 +241,7 @@ public:
      * concatenation
      */
     template <int arg0_msb, int arg0_lsb, bool arg0_signed>
-    constexpr auto concat(const logic<arg0_msb, arg0_lsb, arg0_signed> &arg0) {
+    constexpr auto concat(const logic<arg0_msb, arg0_lsb, arg0_signed> &arg0) const {
         auto constexpr final_size = size + logic<arg0_msb, arg0_lsb, arg0_signed>::size;
         auto res = logic<final_size - 1, 0, signed_>();
         res.value = value.concat(arg0.value);
@@ -251,17 +251,17 @@ public:
     }
 
     template <int arg0_msb, int arg0_lsb, bool arg0_signed>
-    constexpr auto concat(const bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) {
+    constexpr auto concat(const bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) const {
         auto constexpr final_size = size + bit<arg0_msb, arg0_lsb, arg0_signed>::size;
         auto res = logic<final_size - 1, 0, signed_>();
         res.value = value.concat(arg0);
-        // concat masks as well
-        res.xz_mask = xz_mask.template extend<final_size>();
+        // concat masks as well. the low bits are all known
+        res.xz_mask = xz_mask.concat(bit<final_size - size - 1>());
         return res;
     }
 
     template <typename U, typename... Ts>
-    constexpr auto concat(U arg0, Ts... args) {
+    constexpr auto concat(U arg0, Ts... args) const {
         return this->concat(arg0).concat(args...);
     }
 
-- 
2.43.0


From b937f2972487780f37fab17432c3f0dad96be131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 29/48] fix: unpacking a 2-state value into 2-state targets

It assigned a bit to the target's holder, which does not compile.
---
 include/logic/bit.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index f4fbc5a..b339f6e 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -1163,7 +1163,12 @@ private:
     requires(base < size) void unpack_(bit<arg0_msb, arg0_lsb, arg0_signed> &arg0) const {
         auto constexpr arg0_size = bit<arg0_msb, arg0_lsb, arg0_signed>::size;
         auto constexpr upper_bound = util::min(size - 1, arg0_size + base - 1);
-        arg0.value = this->template slice<base, upper_bound>();
+        arg0 = this->template slice<base, upper_bound>();
+    }
+
+    template <int>
+    [[maybe_unused]] void unpack_() const {
+        // noop to keep gcc happy
     }
 
     template <int base, int arg0_msb, int arg0_lsb, bool arg0_signed>
-- 
2.43.0


From 748fef35893cf8029fd2c1a7afeeca3a734e43b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:09 +0000
Subject: [PATCH 30/48] fix: lower case hexadecimal digits a-f mean 10 to 15

---
 src/util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index fd5dfcc..a9d2e5f 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -97,7 +97,7 @@ constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
                 else if (c >= '0' && c <= '9')
                     s = c - '0';
                 else if (c >= 'a' && c <= 'f')
-                    s = c - 'a';
+                    s = c - 'a' + 10;
                 else if (c >= 'A' && c <= 'F')
                     s = c - 'A' + 10;
                 result |= s << (idx * 4ull);
-- 
2.43.0


From 3f996e3ffc87fade66182db7d24da6557b78e10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:12 +0000
Subject: [PATCH 31/48] fix: parse unknown binary digits above bit 31 and in
 upper case

Also, text longer than 64 bits shifted by more than 63.
---
 src/util.cc | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index a9d2e5f..7b7434c 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -35,6 +35,11 @@ char get_output_base(std::string_view fmt) {
     }
 }
 
+// digits beyond 64 bits are dropped
+constexpr uint64_t shift_digit(uint64_t digit, uint64_t amount) {
+    return amount < 64 ? digit << amount : 0;
+}
+
 constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
     uint64_t result = 0;
     switch (base) {
@@ -57,8 +62,8 @@ constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
             uint64_t idx = 0;
             for (auto i = 0ull; i < value.size(); i++) {
                 auto c = value[value.size() - i - 1];
-                if (c == '1' || c == 'z') {
-                    result |= 1ull << idx;
+                if (c == '1' || c == 'z' || c == 'Z') {
+                    result |= shift_digit(1, idx);
                 }
                 if (c != '_') idx++;
             }
@@ -78,7 +83,7 @@ constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
                     s = 0b111;
                 else
                     s = c - '0';
-                result |= s << (idx * 3ull);
+                result |= shift_digit(s, idx * 3ull);
                 if (c != '_') idx++;
             }
             break;
@@ -100,7 +105,7 @@ constexpr uint64_t parse_raw_str_(std::string_view value, char base) {
                     s = c - 'a' + 10;
                 else if (c >= 'A' && c <= 'F')
                     s = c - 'A' + 10;
-                result |= s << (idx * 4ull);
+                result |= shift_digit(s, idx * 4ull);
                 if (c != '_') idx++;
             }
             break;
@@ -132,8 +137,8 @@ uint64_t parse_xz_raw_str_(std::string_view value, char base) {
             uint64_t idx = 0;
             for (auto i = 0u; i < value.size(); i++) {
                 auto c = value[value.size() - i - 1];
-                if (c == 'x' || c == 'z') {
-                    result |= 1u << idx;
+                if (c == 'x' || c == 'X' || c == 'z' || c == 'Z') {
+                    result |= shift_digit(1, idx);
                 }
                 if (c != '_') idx++;
             }
@@ -149,7 +154,7 @@ uint64_t parse_xz_raw_str_(std::string_view value, char base) {
                 // this will be taken care of by the xz mask parsing
                 if (c == 'x' || c == 'X' || c == 'z' || c == 'Z') {
                     s = 0b111;
-                    result |= s << (idx * 3);
+                    result |= shift_digit(s, idx * 3);
                 }
                 if (c != '_') idx++;
             }
@@ -164,7 +169,7 @@ uint64_t parse_xz_raw_str_(std::string_view value, char base) {
                 // this will be taken care of by the xz mask parsing
                 if (c == 'x' || c == 'X' || c == 'z' || c == 'Z') {
                     s = 0b1111;
-                    result |= s << (idx * 4);
+                    result |= shift_digit(s, idx * 4);
                 }
                 if (c != '_') idx++;
             }
-- 
2.43.0


From 35f67b89fcd7da9d826fd6903fedcda7aa200fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:15 +0000
Subject: [PATCH 32/48] fix: parse multi-word literals digit by digit

Underscores were counted as digits when the text was cut into words, octal words
of 21 digits were stored 64 bits apart, and decimals longer than 64 characters
were cut like binary ones.
---
 src/util.cc | 55 +++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 8 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 7b7434c..6440a96 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -206,23 +206,53 @@ uint64_t get_stride(char base) {
     }
 }
 
+// underscores don't count as digits, unless it's a string
+std::string get_digits(std::string_view value, char base) {
+    std::string result(value);
+    if (base != 's' && base != 'S') {
+        result.erase(std::remove(result.begin(), result.end(), '_'), result.end());
+    }
+    return result;
+}
+
+void parse_decimal(std::string_view value, uint64_t num_array, uint64_t* ptr) {
+    for (auto const c : value) {
+        if (c < '0' || c > '9') continue;
+        __uint128_t carry = c - '0';
+        for (auto i = 0u; i < num_array; i++) {
+            carry += static_cast<__uint128_t>(ptr[i]) * 10;
+            ptr[i] = static_cast<uint64_t>(carry);
+            carry >>= 64;
+        }
+    }
+}
+
 void parse_raw_str(std::string_view value, uint64_t size, uint64_t* ptr) {
     // use existing functions to parse single uint64_t values, except for decimals.
     // big number decimals are just inefficient, and I don't know why would anyone use it.
     auto [base, start_pos] = get_input_base(value);
-    value = value.substr(start_pos);
+    auto const digits = get_digits(value.substr(start_pos), base);
+    value = digits;
     auto remaining_size = value.size();
     auto end = value.size();
     auto const stride = get_stride(base);
     auto const batch_size = 64 / stride;
 
     auto num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
+    std::fill_n(ptr, num_array, 0);
+    if (base == 'd' || base == 'D') {
+        parse_decimal(value, num_array, ptr);
+        return;
+    }
     uint64_t idx = 0;
-    while (remaining_size > 0 && idx < num_array) {
+    while (remaining_size > 0 && idx < num_array * 64) {
         auto begin = remaining_size >= batch_size ? remaining_size - batch_size : 0;
-        ptr[idx] = parse_raw_str_(value.substr(begin, end - begin), base);
+        auto const v = parse_raw_str_(value.substr(begin, end - begin), base);
+        // notice that an octal batch only has 63 bits
+        ptr[idx / 64] |= v << (idx % 64);
+        if (idx % 64 && idx / 64 + 1 < num_array) ptr[idx / 64 + 1] |= v >> (64 - idx % 64);
 
-        idx++;
+        idx += batch_size * stride;
         end = begin;
         remaining_size = remaining_size > batch_size ? remaining_size - batch_size : 0;
     }
@@ -232,19 +262,28 @@ void parse_xz_raw_str(std::string_view value, uint64_t size, uint64_t* ptr) {
     // use existing functions to parse single uint64_t values, except for decimals.
     // big number decimals are just inefficient, and I don't know why would anyone use it.
     auto [base, start_pos] = get_input_base(value);
-    value = value.substr(start_pos);
+    auto const digits = get_digits(value.substr(start_pos), base);
+    value = digits;
     auto remaining_size = value.size();
     auto end = value.size();
     auto const stride = get_stride(base);
     auto const batch_size = 64 / stride;
 
     auto num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
+    std::fill_n(ptr, num_array, 0);
+    if (base == 'd' || base == 'D') {
+        // no unknown digits
+        return;
+    }
     uint64_t idx = 0;
-    while (remaining_size > 0 && idx < num_array) {
+    while (remaining_size > 0 && idx < num_array * 64) {
         auto begin = remaining_size >= batch_size ? remaining_size - batch_size : 0;
-        ptr[idx] = parse_xz_raw_str_(value.substr(begin, end - begin), base);
+        auto const v = parse_xz_raw_str_(value.substr(begin, end - begin), base);
+        // notice that an octal batch only has 63 bits
+        ptr[idx / 64] |= v << (idx % 64);
+        if (idx % 64 && idx / 64 + 1 < num_array) ptr[idx / 64 + 1] |= v >> (64 - idx % 64);
 
-        idx++;
+        idx += batch_size * stride;
         end = begin;
         remaining_size = remaining_size > batch_size ? remaining_size - batch_size : 0;
     }
-- 
2.43.0


From 9f3c7ead6246cc7e9ed82b3e627bbb989d9fe677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:57 +0000
Subject: [PATCH 33/48] fix: the decimal size table has an entry for 128 bits

decimal_size_table[128] was read past the end.
---
 src/util.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 6440a96..24a2db9 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -289,15 +289,15 @@ void parse_xz_raw_str(std::string_view value, uint64_t size, uint64_t* ptr) {
     }
 }
 
-constexpr std::array<uint64_t, 128> compute_decimal_size() {
+constexpr std::array<uint64_t, 129> compute_decimal_size() {
     // we precompute 128 entries of decimal sizes. if larger than that we need to
     // recompute each time. no caching allowed for the sakes of concurrency since
     // we need to protect the cache with a mutex if that is the case
-    std::array<uint64_t, 128> result{};
+    std::array<uint64_t, 129> result{};
     // zero is ill-defined
     result[0] = 1;
 
-    for (auto i = 1u; i < 128; i++) {
+    for (auto i = 1u; i <= 128; i++) {
         __uint128_t value = 0;
         value = ~value;
         // shift based on the size
-- 
2.43.0


From 40ca17ce21c11d6c2836277a062bfa4255f06ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:00 +0000
Subject: [PATCH 34/48] fix: an unknown top digit that has fewer bits than its
 base

It was printed as a mixed digit (X/Z) although all its bits are unknown alike,
and bits above the size leaked into it.
---
 src/util.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index 24a2db9..23db303 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -480,9 +480,10 @@ uint64_t get_mask(uint64_t stride) { return std::numeric_limits<uint64_t>::max()
 
 std::string fmt_value(char base, uint64_t size, uint64_t value, uint64_t xz_mask) {
     auto stride = get_stride(base);
-    const auto mask = get_mask(stride);
     std::stringstream ss;
     for (auto i = 0u; i < size; i += stride) {
+        // the top digit can have fewer bits
+        const auto mask = get_mask(util::min(stride, size - i));
         auto v = (value >> i) & mask;
         auto xz = (xz_mask >> i) & mask;
         if (xz != 0) {
-- 
2.43.0


From d8a5a920e9220f82a7b9ddc6d55a0180e29d3508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:34 +0000
Subject: [PATCH 35/48] fix: 2-state values format like 4-state values

Native octal and hexadecimal digits came out reversed, strings printed numbers,
sign bits above the size were printed, multi-word values were padded and
reversed word by word, and unsigned multi-word values did not compile. The 2-state
overloads now share the 4-state implementation.
---
 include/logic/bit.hh |   8 ++-
 src/util.cc          | 130 ++++---------------------------------------
 2 files changed, 17 insertions(+), 121 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index b339f6e..703cd03 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -37,9 +37,9 @@ public:
     [[nodiscard]] std::string str(std::string_view fmt = "b") const {
         if constexpr (native_num) {
             if (signed_ && negative() && util::decimal_fmt(fmt)) {
-                return util::to_string(fmt, size, negate().value, true);
+                return util::to_string(fmt, size, negate().raw_bits(), true);
             } else {
-                return util::to_string(fmt, size, value, false);
+                return util::to_string(fmt, size, raw_bits(), false);
             }
         } else {
             if (signed_ && negative() && util::decimal_fmt(fmt)) {
@@ -126,7 +126,9 @@ public:
      * relates to whether it's negative or not
      */
     [[nodiscard]] bool negative() const {
-        if constexpr (native_num) {
+        if constexpr (!signed_) {
+            return false;
+        } else if constexpr (native_num) {
             return value < 0;
         } else {
             return value.negative();
diff --git a/src/util.cc b/src/util.cc
index 23db303..c2d4082 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -424,58 +424,6 @@ std::string format_value_2power(char base, uint64_t value) {
     return ss.str();
 }
 
-std::string to_string(std::string_view fmt, uint64_t size, uint64_t value, bool is_negative) {
-    char base;
-    uint64_t actual_size;
-    bool padding;
-    parse_fmt(fmt, size, base, actual_size, padding);
-
-    // now print out the format
-    std::stringstream ss;
-    switch (base) {
-        case 'b':
-        case 'B': {
-            auto b = std::bitset<64>(value);
-            auto s = b.to_string().substr(64 - size);
-            // need to reverse it
-            std::reverse(s.begin(), s.end());
-            ss << s;
-            break;
-        }
-        case 'o':
-        case 'O':
-        case 'x':
-        case 'h':
-        case 'X':
-        case 'H': {
-            ss << format_value_2power(base, value);
-            break;
-        }
-        case 's':
-        case 'S':
-            for (auto i = 0u; i < size; i += 8) {
-                auto c = value >> (i * 8) & 0xFF;
-                ss << c;
-            }
-            break;
-        case 'd':
-        case 'D': {
-            if (value == 0) {
-                ss << 0;
-            } else {
-                while (value > 0) {
-                    auto r = value % 10;
-                    ss << r;
-                    value /= 10;
-                }
-            }
-            break;
-        }
-        default:;
-    }
-    return pad_result(is_negative, base, actual_size, padding, ss);
-}
-
 uint64_t get_mask(uint64_t stride) { return std::numeric_limits<uint64_t>::max() >> (64 - stride); }
 
 std::string fmt_value(char base, uint64_t size, uint64_t value, uint64_t xz_mask) {
@@ -631,72 +579,6 @@ std::string to_string(std::string_view fmt, uint64_t size, uint64_t value, uint6
     return to_string_(fmt, size, value, xz_mask, is_negative, true);
 }
 
-std::string to_string_(std::string_view fmt, uint64_t size, const uint64_t* value, bool is_negative,
-                       bool use_padding) {
-    char base;
-    uint64_t actual_size;
-    bool padding;
-    parse_fmt(fmt, size, base, actual_size, padding);
-
-    auto num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
-
-    std::stringstream ss;
-    if (base != 'd' && base != 'D') {
-        // notice that because in oct format, 3 is not a power of 2, we need to be extra careful
-        if (base == 'o' || base == 'O') {
-            auto num_chunks = static_cast<uint64_t>(std::ceil(static_cast<double>(size) / 3));
-            for (auto i = 0u; i < num_chunks; i++) {
-                auto start = i * 3;
-                auto value_idx = start / 64;
-                auto start_idx = start % 64;
-                // if it's across the 64-bit boundary
-                uint64_t v;
-                if ((64 - start_idx) < 3) {
-                    v = (value[value_idx] >> start_idx) & 0x7;
-                    v |= (value[value_idx + 1]) & (0x7 >> (64 - start_idx));
-                } else {
-                    v = (value[value_idx] >> start_idx) & 0x7;
-                }
-                auto s = to_string(fmt, 3, v, false);
-                ss << s;
-            }
-        } else {
-            for (auto i = 0u; i < num_array - 1; i++) {
-                ss << to_string(fmt, 64, value[i], false);
-            }
-            if (size % 64) {
-                ss << to_string(fmt, size % 64, value[num_array - 1], false);
-            }
-        }
-    } else {
-        // FIXME
-        // give up. display the least significant two parts
-        auto size_ = size > 128 ? 128 : size;
-        __uint128_t v = 0;
-        if (size_ > 64) {
-            v |= value[1];
-            v = v << 64;
-        }
-        v |= value[0];
-        auto q = v;
-        while (q != 0) {
-            auto r = q % 10;
-            ss << static_cast<uint64_t>(r);
-            q = q / 10;
-        }
-    }
-
-    if (use_padding)
-        return pad_result(is_negative, base, actual_size, padding, ss);
-    else
-        return ss.str();
-}
-
-std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value,
-                      bool is_negative) {
-    return to_string_(fmt, size, value, is_negative, true);
-}
-
 std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value,
                       const uint64_t* xz_mask, bool is_negative) {
     char base;
@@ -799,6 +681,18 @@ std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value
     return pad_result(is_negative, base, actual_size, padding, ss);
 }
 
+// 2-state values are formatted as 4-state values without unknown bits
+std::string to_string(std::string_view fmt, uint64_t size, uint64_t value, bool is_negative) {
+    return to_string(fmt, size, value, 0, is_negative);
+}
+
+std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value,
+                      bool is_negative) {
+    auto const num_array = (size % 64 == 0) ? size / 64 : (size / 64 + 1);
+    std::vector<uint64_t> const xz_mask(num_array, 0);
+    return to_string(fmt, size, value, xz_mask.data(), is_negative);
+}
+
 bool decimal_fmt(std::string_view fmt) {
     auto base = get_output_base(fmt);
     return base == 'd' || base == 'D';
-- 
2.43.0


From b2bee5741dddc98a6d536250b285c86027d95c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:36 +0000
Subject: [PATCH 36/48] fix: octal digits that cross a word boundary

The bits of the upper word were not moved into place, the word after the last
one was read, and an unknown top digit was taken as 3 bits wide.
---
 src/util.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index c2d4082..209f2c1 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -602,14 +602,16 @@ std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value
                 uint64_t xz;
                 if ((64 - start_idx) < 3) {
                     v = (value[value_idx] >> start_idx) & 0x7;
-                    v |= (value[value_idx + 1]) & (0x7 >> (64 - start_idx));
                     xz = (xz_mask[value_idx] >> start_idx) & 0x7;
-                    xz |= (xz_mask[value_idx + 1]) & (0x7 >> (64 - start_idx));
+                    if (value_idx + 1 < num_array) {
+                        v |= (value[value_idx + 1] << (64 - start_idx)) & 0x7;
+                        xz |= (xz_mask[value_idx + 1] << (64 - start_idx)) & 0x7;
+                    }
                 } else {
                     v = (value[value_idx] >> start_idx) & 0x7;
                     xz = (xz_mask[value_idx] >> start_idx) & 0x7;
                 }
-                auto s = to_string_(fmt, 3, v, xz, false, false);
+                auto s = to_string_(fmt, util::min<uint64_t>(3, size - start), v, xz, false, false);
                 ss << s;
             }
         } else {
-- 
2.43.0


From 7a3f846182a99894f7300a7113bc45fe44b20a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:02 +0000
Subject: [PATCH 37/48] fix: print the top word of values whose width is a
 multiple of 64

---
 src/util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index 209f2c1..29988d3 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -615,7 +615,7 @@ std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value
                 ss << s;
             }
         } else {
-            for (auto i = 0u; i < num_array - 1; i++) {
+            for (auto i = 0u; i < size / 64; i++) {
                 ss << to_string_(fmt, 64, value[i], xz_mask[i], false, false);
             }
             if (size % 64) {
-- 
2.43.0


From 341f62bc9021108e81c848de23151dc4097406c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:05 +0000
Subject: [PATCH 38/48] fix: decimal formatting of multi-word values

0 printed nothing, all-x and all-z values narrower than 128 bits printed X, and
only the low 128 bits of wider values were printed, padded to one character per
bit.
---
 src/util.cc | 81 ++++++++++++++++++++---------------------------------
 1 file changed, 31 insertions(+), 50 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 29988d3..6eef8c5 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -347,10 +347,10 @@ void parse_fmt(const std::string_view& fmt, uint64_t size, char& base, uint64_t&
         }
         case 'd':
         case 'D': {
-            // give up if the size is larger than 128
-            // will implement this in the future
             if (size > 128) {
-                possible_size = size;
+                // number of digits of 2^size - 1. 2^size is never a power of 10
+                possible_size = static_cast<uint64_t>(
+                    std::floor(static_cast<long double>(size) * std::log10(2.0L)) + 1);
             } else {
                 possible_size = decimal_size_table[size];
             }
@@ -625,58 +625,39 @@ std::string to_string(std::string_view fmt, uint64_t size, const uint64_t* value
         }
 
     } else {
-        // FIXME
-        // give up. display the least significant two parts
-        auto size_ = size > 128 ? 128 : size;
-        __uint128_t v = 0;
-        __uint128_t xz = 0;
-        if (size_ > 64) {
-            v |= value[1];
-            v = v << 64;
-            xz |= xz_mask[1];
-            xz = xz << 64;
+        // bits above the size are always 0
+        std::vector<uint64_t> q(value, value + num_array);
+        bool has_xz = false, has_x = false, has_known = false, has_z = false;
+        for (auto i = 0u; i < size; i++) {
+            auto const v = (value[i / 64] >> (i % 64)) & 1;
+            auto const xz = (xz_mask[i / 64] >> (i % 64)) & 1;
+            has_xz |= xz;
+            has_known |= !xz;
+            has_x |= xz && !v;
+            has_z |= xz && v;
         }
-        v |= value[0];
-        xz |= xz_mask[0];
-        if (xz != 0) {
-            // contains x/z
-            if ((~xz) == 0) {
-                // all x or z
-                if (v == 0) {
-                    ss << 'x';
-                } else {
-                    if ((~v) == 0) {
-                        // all z
-                        ss << 'z';
-                    } else {
-                        ss << 'X';
-                    }
-                }
+        if (has_xz) {
+            // lower case if all the bits are unknown alike, see LRM 21.2.1.4
+            if (!has_known && !(has_x && has_z)) {
+                ss << (has_x ? 'x' : 'z');
             } else {
-                // has some real digits
-                bool has_x = false;
-                for (auto i = 0u; i < size_; i++) {
-                    auto x = (xz >> i) & 1;
-                    if (x) {
-                        auto vv = (v >> i) & 1;
-                        if (vv == 0) {
-                            has_x = true;
-                            break;
-                        }
-                    }
-                }
-                if (has_x)
-                    ss << "X";
-                else
-                    ss << "Z";
+                ss << (has_x ? 'X' : 'Z');
             }
         } else {
-            auto q = v;
-            while (q != 0) {
-                auto r = q % 10;
+            // long division, least significant digit first
+            bool zero;
+            do {
+                __uint128_t r = 0;
+                zero = true;
+                for (auto i = 0u; i < num_array; i++) {
+                    auto &word = q[num_array - i - 1];
+                    r = (r << 64) | word;
+                    word = static_cast<uint64_t>(r / 10);
+                    r = r % 10;
+                    zero = zero && word == 0;
+                }
                 ss << static_cast<uint64_t>(r);
-                q = q / 10;
-            }
+            } while (!zero);
         }
     }
 
-- 
2.43.0


From 477b02989bf99ea525aefe9b4fe78152014261d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 39/48] fix: formatting signed 4-state values

A value with an unknown sign bit printed a minus sign in front of X, and sign
extension bits above the size reached the formatter.
---
 include/logic/logic.hh | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 296772e..f7b3d18 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -26,20 +26,21 @@ public:
     // basic formatting
     [[nodiscard]] std::string str(std::string_view fmt = "b") const {
         if constexpr (signed_) {
-            auto is_negative = value.negative();
+            // unknown values don't have a sign
+            auto is_negative = value.negative() && !xz_mask.any_set();
             if (is_negative && util::decimal_fmt(fmt)) {
-                auto value_ = value.negate().value;
+                auto value_ = value.negate();
                 if constexpr (util::native_num(size)) {
                     uint64_t xz = xz_mask.value;
-                    return util::to_string(fmt, size, value_, xz, true);
+                    return util::to_string(fmt, size, value_.raw_bits(), xz, true);
                 } else {
-                    return util::to_string(fmt, size, value_.values.data(),
+                    return util::to_string(fmt, size, value_.value.values.data(),
                                            xz_mask.value.values.data(), true);
                 }
             }
         }
         if constexpr (util::native_num(size)) {
-            uint64_t v = value.value;
+            uint64_t v = value.raw_bits();
             uint64_t xz = xz_mask.value;
             return util::to_string(fmt, size, v, xz, false);
         } else {
-- 
2.43.0


From f6426a9b4dc55d85ed38ef56cfedb7abc0abe000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:17 +0000
Subject: [PATCH 40/48] fix: an empty format prints a string instead of
 throwing

---
 src/util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index 6eef8c5..ce59950 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -327,7 +327,7 @@ void parse_fmt(const std::string_view& fmt, uint64_t size, char& base, uint64_t&
     }
     // now that we now the base, need to see what's requested size
     std::optional<uint64_t> requested_size;
-    if (pos != 0) {
+    if (pos != 0 && !fmt.empty()) {
         // don't copy here?
         requested_size = std::stoul(std::string(fmt.substr(0, pos)));
     }
-- 
2.43.0


From e7f534fe5e4f34fac88cc512550493d00d5de206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:40 +0000
Subject: [PATCH 41/48] fix: packed array element reads and writes stay in
 their element

The end address was one past the element, so a write changed the next element's
lowest bit, and the index was compared against the number of bits instead of
the declared bounds. Indices wider than 64 bits read a single bit.
---
 include/logic/array.hh | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/include/logic/array.hh b/include/logic/array.hh
index 62b0b2e..1d3c5dc 100644
--- a/include/logic/array.hh
+++ b/include/logic/array.hh
@@ -40,6 +40,9 @@ private:
     constexpr static int get_slice_size(int hi, int lo) {
         return base_size * util::total_size(hi, lo);
     }
+    constexpr static bool in_bound(int index) {
+        return index >= util::min(msb, lsb) && index <= util::max(msb, lsb);
+    }
     using VT = typename util::get_array_type<T, msb, lsb, T::is_4state>::type;
 
 public:
@@ -78,40 +81,28 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     auto operator[](const logic<op_msb, op_lsb, op_signed> &op) const {
-        // if the value is too big, we return X
-        static const auto size_logic = logic<31, 0>(array_size);
-        if (op.xz_mask.any_set() || op >= size_logic) [[unlikely]] {
+        // if the value is unknown or out of bound, we return X
+        auto const index = op.to_index();
+        if (!in_bound(index)) [[unlikely]] {
             using T_ = typename util::get_array_base_type<T, base_size, T::is_4state>::type;
             return T_{};
         } else {
-            int index;
-            if constexpr (util::native_num(logic<op_msb, op_lsb>::size)) {
-                index = op.value.value;
-            } else {
-                index = op.value.value[0];
-            }
             auto idx = index - util::min(msb, lsb);
             auto start_addr = idx * base_size;
-            auto end_addr = (idx + 1) * base_size;
+            auto end_addr = (idx + 1) * base_size - 1;
             return VT::template slice<base_size>(start_addr, end_addr);
         }
     }
 
     template <int op_msb, int op_lsb, bool op_signed, typename K>
     void update(const logic<op_msb, op_lsb, op_signed> &op, const K &value) {
-        static const auto size_logic = logic<31, 0>(array_size);
-        if (op.xz_mask.any_set() || op >= size_logic) [[unlikely]] {
+        auto const index = op.to_index();
+        if (!in_bound(index)) [[unlikely]] {
             return;
         } else {
-            int index;
-            if constexpr (util::native_num(logic<op_msb, op_lsb>::size)) {
-                index = op.value.value;
-            } else {
-                index = op.value.value[0];
-            }
             auto idx = index - util::min(msb, lsb);
             int start_addr = idx * base_size;
-            int end_addr = (idx + 1) * base_size;
+            int end_addr = (idx + 1) * base_size - 1;
             VT::template update_(start_addr, end_addr, value);
         }
     }
-- 
2.43.0


From 20f7a3e2b3640d09472b539a2754723be3ef984e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:52 +0000
Subject: [PATCH 42/48] fix: bounds of unpacked arrays with a base, slices of
 2-state arrays

unpacked_array::update compared the declared index against the element count,
storing outside the array for a nonzero base. Constant slices of packed arrays
of 2-state elements did not compile.
---
 include/logic/array.hh |  5 +++--
 include/logic/bit.hh   | 10 ++++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/logic/array.hh b/include/logic/array.hh
index 1d3c5dc..4d39b70 100644
--- a/include/logic/array.hh
+++ b/include/logic/array.hh
@@ -132,11 +132,12 @@ public:
 
     template <int idx, typename V>
     auto update(const V v) {
-        if (idx >= size) return;
         // need to compute the base
         auto constexpr i = idx - util::min(msb, lsb);
         // use the underlying logic implementation
-        value[i] = v;
+        if constexpr (i >= 0 && static_cast<uint64_t>(i) < size) {
+            value[i] = v;
+        }
     }
 
 private:
diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 703cd03..c37826d 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -1229,6 +1229,16 @@ protected:
         return result;
     }
 
+    // used by packed arrays
+    template <int a, int b>
+    requires(in_range(a) && in_range(b) && !native_num) bit<util::abs_diff(a, b)>
+    constexpr inline slice_() const { return this->template slice_<util::total_size(a, b)>(a, b); }
+
+    template <int hi, int lo, int op_msb, int op_lsb, bool op_signed>
+    void update_(const bit<op_msb, op_lsb, op_signed> &op) requires(in_range(hi) && in_range(lo)) {
+        this->update_(hi, lo, op);
+    }
+
     template <uint32_t target_size>
     [[nodiscard]] auto slice_(int a, int b) const {
         bit<target_size - 1, false> result;
-- 
2.43.0


From b48a428ac80417c35088f0c731e53647a2cb27cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:25 +0000
Subject: [PATCH 43/48] fix: unpacked array index computation doesn't overflow

---
 include/logic/array.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/logic/array.hh b/include/logic/array.hh
index 4d39b70..8814a39 100644
--- a/include/logic/array.hh
+++ b/include/logic/array.hh
@@ -122,7 +122,7 @@ public:
 
     const T &operator[](int idx) const {
         const static T x_ = T{};
-        auto i = static_cast<uint32_t>(idx - util::min(msb, lsb));
+        auto i = static_cast<uint64_t>(int64_t{idx} - util::min(msb, lsb));
         if (i >= size) {
             return x_;
         } else {
-- 
2.43.0


From ae1e820ef5d4476a5e63aa9e041533d577a7e737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:33 +0000
Subject: [PATCH 44/48] fix: assigning and matching a narrower signed value
 with an unknown sign bit

The value bits were sign extended but the unknown bits were not.
---
 include/logic/logic.hh | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index f7b3d18..7cbdc26 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -668,7 +668,12 @@ public:
 
     template <int op_msb, int op_lsb, bool op_signed>
     [[nodiscard]] bool match(const logic<op_msb, op_lsb, op_signed> &op) const {
-        return value == op.value && xz_mask == op.xz_mask;
+        if constexpr (util::signed_result(signed_, op_signed)) {
+            // unknown sign bits are extended as well
+            return value == op.value && xz_mask.to_signed() == op.xz_mask.to_signed();
+        } else {
+            return value == op.value && xz_mask == op.xz_mask;
+        }
     }
 
     template <int op_msb, int op_lsb, bool op_signed>
@@ -1050,8 +1055,7 @@ public:
     // implicit conversion via assignment
     template <int new_msb, int new_lsb, bool new_signed>
     logic &operator=(const logic<new_msb, new_lsb, new_signed> &b) {
-        value = b.value;
-        xz_mask = b.xz_mask;
+        assign_(b);
         return *this;
     }
 
@@ -1064,8 +1068,7 @@ public:
 
     template <int new_msb, int new_lsb>
     constexpr logic(const logic<new_msb, new_lsb, true> &b) {  // NOLINT
-        value = b.value;
-        xz_mask = b.xz_mask;
+        assign_(b);
     }
 
     // useful constants
@@ -1091,6 +1094,17 @@ public:
     }
 
 private:
+    template <int new_msb, int new_lsb, bool new_signed>
+    constexpr void assign_(const logic<new_msb, new_lsb, new_signed> &b) {
+        value = b.value;
+        if constexpr (new_signed && logic<new_msb, new_lsb>::size < size) {
+            // an unknown sign bit is replicated as well
+            xz_mask = b.xz_mask.to_signed();
+        } else {
+            xz_mask = b.xz_mask;
+        }
+    }
+
     void unmask_bit(uint64_t idx) { xz_mask.set(idx, false); }
 
     template <int idx>
-- 
2.43.0


From d5f752faa12a548f9ab64b534346e2774b314ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:44 +0000
Subject: [PATCH 45/48] fix: ^ of 1-bit values of different signedness

---
 include/logic/bit.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index c37826d..9641d11 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -446,8 +446,12 @@ public:
     template <int op_lsb, bool op_signed>
     auto operator^(const bit<size - 1 + op_lsb, op_lsb, op_signed> &op) const {
         bit<size - 1, 0, util::signed_result(signed_, op_signed)> result;
-        result.value = value ^ op.value;
-        result.mask_off();
+        if constexpr (native_num) {
+            result.set_raw_bits(raw_bits() ^ op.raw_bits());
+        } else {
+            result.value = value ^ op.value;
+            result.mask_off();
+        }
         return result;
     }
 
-- 
2.43.0


From 893f4fcd51b7561bcb77aa524245bfdca8cbc41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:40 +0000
Subject: [PATCH 46/48] fix: highest_bit of a negative native value is in its
 declared width

---
 include/logic/bit.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 9641d11..b69ffe9 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -973,7 +973,7 @@ public:
             if (value == 0)
                 return size;
             else {
-                auto r = __builtin_clzll(static_cast<uint64_t>(value));
+                auto r = __builtin_clzll(raw_bits());
                 return 64 - r - 1;
             }
         } else {
-- 
2.43.0


From ecfc8f501bde808789ab045a6cca929d27751b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:58 +0000
Subject: [PATCH 47/48] fix: post increment and decrement of values that don't
 start at bit 0

---
 include/logic/bit.hh   | 6 ++++--
 include/logic/logic.hh | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index b69ffe9..0769352 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -554,14 +554,16 @@ public:
 
     // NOLINTNEXTLINE
     bit<size - 1, 0, signed_> operator++(int) {
-        bit<size - 1, 0, signed_> v = *this;
+        bit<size - 1, 0, signed_> v;
+        v = *this;
         this->operator++();
         return v;
     }
 
     // NOLINTNEXTLINE
     bit<size - 1, 0, signed_> operator--(int) {
-        bit<size - 1, 0, signed_> v = *this;
+        bit<size - 1, 0, signed_> v;
+        v = *this;
         this->operator--();
         return v;
     }
diff --git a/include/logic/logic.hh b/include/logic/logic.hh
index 7cbdc26..c9e2cf5 100644
--- a/include/logic/logic.hh
+++ b/include/logic/logic.hh
@@ -544,14 +544,16 @@ public:
 
     // NOLINTNEXTLINE
     logic<size - 1, 0, signed_> operator++(int) {
-        logic<size - 1, 0, signed_> v = *this;
+        logic<size - 1, 0, signed_> v;
+        v = *this;
         this->operator++();
         return v;
     }
 
     // NOLINTNEXTLINE
     logic<size - 1, 0, signed_> operator--(int) {
-        logic<size - 1, 0, signed_> v = *this;
+        logic<size - 1, 0, signed_> v;
+        v = *this;
         this->operator--();
         return v;
     }
-- 
2.43.0


From 7a18eedcf7dc5eb40411f2f9e6ba0da6b2b9ae2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:38 +0000
Subject: [PATCH 48/48] fix: comparing a packed array of bits with a value of
 the other storage kind

---
 include/logic/bit.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/logic/bit.hh b/include/logic/bit.hh
index 0769352..228710c 100644
--- a/include/logic/bit.hh
+++ b/include/logic/bit.hh
@@ -273,8 +273,9 @@ public:
     }
 
     // the big number used in comparing against op, if exactly one of them is a big number
-    template <int op_msb, int op_lsb, bool op_signed>
-    [[nodiscard]] constexpr auto compare_resize(const bit<op_msb, op_lsb, op_signed> &) const {
+    template <int op_msb, int op_lsb, bool op_signed, bool op_array>
+    [[nodiscard]] constexpr auto compare_resize(
+        const bit<op_msb, op_lsb, op_signed, op_array> &) const {
         auto constexpr target_size = util::max(size, bit<op_msb, op_lsb>::size);
         return this->template resize<target_size, util::signed_result(signed_, op_signed)>().value;
     }
-- 
2.43.0

