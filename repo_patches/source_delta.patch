From 867836f49bc5cbce4bb17ec2f8eb328278037794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:25 +0000
Subject: [PATCH 01/53] fix: identifiers with Z after the ninth character

The tail of a long identifier was skipped only up to the first letter Z,
which then stayed behind as the next delimiter: a valid program was
rejected, or the scanner read past the end of the source.
---
 compiler/x1algc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 6696895..dcb12ac 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -544,7 +544,7 @@ Static Void read_until_next_delimiter()
                 marker = (fnw & (d6 - 1)) * d21;
                 fnw    = fnw / d6 + d21 * 63;
             }
-            while (dl < 62)
+            while (dl < 63)
                 read_next_symbol();
         }
         goto _L4;
-- 
2.43.0


From 2605cb13c774309739e62aa7ef60986a7b0a0b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:46 +0000
Subject: [PATCH 02/53] fix: overflow in integer power
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The product was accumulated in a plain int: 2↑32 gave 0 and 10↑20 an
arbitrary value instead of the overflow error (undefined behaviour).
---
 simulator/virtual_stack.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/simulator/virtual_stack.cpp b/simulator/virtual_stack.cpp
index 68a6440..11a1830 100644
--- a/simulator/virtual_stack.cpp
+++ b/simulator/virtual_stack.cpp
@@ -1,6 +1,7 @@
 #include "virtual_stack.h"
 
 #include <cmath>
+#include <cstdlib>
 #include <sstream>
 
 #include "machine.h"
@@ -276,13 +277,21 @@ void Stack_Cell::subtract(const Stack_Cell &another)
 //
 static int power(int x, unsigned n)
 {
-    int result = 1;
+    const int64_t max_int = BITS(26);
+    int64_t result        = 1;
+    int64_t factor        = x;
     while (n) {
         if (n & 1) {
-            result *= x;
+            result *= factor;
         }
         n = n >> 1;
-        x *= x;
+        if (n) {
+            factor *= factor;
+        }
+        // Magnitudes never decrease, so the final result is out of range as well.
+        if (std::abs(result) > max_int || std::abs(factor) > max_int) {
+            throw std::runtime_error("Overflow in integer arithmetic");
+        }
     }
     return result;
 }
-- 
2.43.0


From 6c36b89c1938b4503f082f8c6ff87dec2d0e2f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:20 +0000
Subject: [PATCH 03/53] fix: assignment of a too large real value to an integer

A real value out of the integer range was converted to int unchecked
(undefined behaviour) on assignment, as a subscript and in value arrays.
Report the overflow instead.
---
 simulator/opcodes.cpp   |  5 +++--
 simulator/processor.cpp |  2 +-
 simulator/x1_arch.cpp   | 13 +++++++++++++
 simulator/x1_arch.h     |  1 +
 4 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 8435906..9e34f31 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -535,7 +535,7 @@ bool Processor::call_opc(unsigned opc)
         for (unsigned i = 0; i < ndim; ++i) {
             int dimsize = x1_to_integer(load_word(addr + 2 + i));
             int idx     = idxs[i].is_int_value() ? x1_to_integer(idxs[i].get_int())
-                                                 : (int)roundl(x1_to_ieee(idxs[i].get_real()));
+                                                 : ieee_to_integer(x1_to_ieee(idxs[i].get_real()));
             if (i == 0)
                 idx0 = idx;
             elt_addr += idx * dimsize;
@@ -976,7 +976,8 @@ bool Processor::call_opc(unsigned opc)
                 stack.push_real_value(load_real(actual + i));
                 break;
             case 21: // real to integer
-                stack.push_int_value(integer_to_x1(roundl(x1_to_ieee(load_real(actual + 2 * i)))));
+                stack.push_int_value(
+                    integer_to_x1(ieee_to_integer(x1_to_ieee(load_real(actual + 2 * i)))));
                 break;
             case 12: // integer to real
                 stack.push_real_value(
diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index a8f9459..26a54b1 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -531,7 +531,7 @@ void Processor::store_value(const Stack_Cell &dest, const Stack_Cell &src)
         if (src.is_int_value()) {
             result = src.get_int();
         } else if (src.is_real_value()) {
-            result = integer_to_x1((int)roundl(x1_to_ieee(src.get_real())));
+            result = integer_to_x1(ieee_to_integer(x1_to_ieee(src.get_real())));
         } else {
             throw std::runtime_error("Cannot store address");
         }
diff --git a/simulator/x1_arch.cpp b/simulator/x1_arch.cpp
index a5d6037..5fa82b7 100644
--- a/simulator/x1_arch.cpp
+++ b/simulator/x1_arch.cpp
@@ -125,6 +125,19 @@ Word integer_to_x1(int input)
     return result;
 }
 
+//
+// Round floating-point value to nearest integer.
+// The result is limited to the range of X1 integers.
+//
+int ieee_to_integer(long double input)
+{
+    const long double result = roundl(input);
+    if (!(fabsl(result) <= BITS(26))) {
+        throw std::runtime_error("Overflow in integer arithmetic");
+    }
+    return (int)result;
+}
+
 int x1_to_integer(Word input)
 {
     if (input & ONEBIT(26)) {
diff --git a/simulator/x1_arch.h b/simulator/x1_arch.h
index f7e0b8a..65f3881 100644
--- a/simulator/x1_arch.h
+++ b/simulator/x1_arch.h
@@ -56,6 +56,7 @@ long double x1_to_ieee(Real word);
 // Convert integer value between native and X1 formats.
 //
 Word integer_to_x1(int d);
+int ieee_to_integer(long double input);
 int x1_to_integer(Word word);
 
 //
-- 
2.43.0


From 2a1cd572fd64d44c0074f0fc8b42d6f8ae463277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:58 +0000
Subject: [PATCH 04/53] fix: goto out of an expression leaves garbage on stack

When a function designator, a by-name parameter or a multiple assignment
was left by a goto, the operands of the unfinished expression stayed on
the stack: print() then took them as arguments, and loops overflowed it.
A goto from an implicit subroutine which had called a procedure did not
find its way back at all.
---
 simulator/opcodes.cpp   |  1 -
 simulator/processor.cpp | 27 +++++++++++++--------------
 simulator/processor.h   |  5 ++++-
 3 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 9e34f31..72ac675 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -226,7 +226,6 @@ bool Processor::call_opc(unsigned opc)
     case OPC_GTA:
         // goto adjustment
         // Exit to block level given in register B.
-        frame_ptr = last_frame_ptr;
         roll_back(display[core.B]);
         break;
 
diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 26a54b1..9d1a990 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -388,7 +388,7 @@ void Processor::frame_create(unsigned ret_addr, unsigned num_args)
 
     // Default post-operation is to leave value on stack.
     eis_operation[stack_base] = Formal_Op::PUSH_VALUE;
-    last_frame_ptr = frame_ptr;
+    frames.push_back(frame_ptr);
 }
 
 //
@@ -405,11 +405,12 @@ unsigned Processor::frame_release()
     stack_base         = stack.get(frame_ptr + Frame_Offset::SP).get_addr();
     frame_ptr          = stack.get(frame_ptr + Frame_Offset::FP).get_addr();
     stack.erase(new_stack_ptr);
+    while (!frames.empty() && frames.back() >= new_stack_ptr) {
+        frames.pop_back();
+    }
 
     // Update display[BN...0] by unwinding stack.
     update_display(get_block_level(), frame_ptr);
-
-    last_frame_ptr = frame_ptr;
     return ret_addr;
 }
 
@@ -426,21 +427,19 @@ void Processor::allocate_stack(unsigned nwords)
 
 //
 // Roll stack back to the 'goto' frame.
+// Release the frame called directly from it, with everything above:
+// this includes implicit subroutines, and operands of unfinished
+// expressions in the 'goto' frame itself.
 //
 void Processor::roll_back(unsigned goto_frame)
 {
-    unsigned fp = frame_ptr;
-    while (fp > 0) {
-        unsigned prev_fp = stack.get(fp + Frame_Offset::FP).get_addr();
-        if (prev_fp == goto_frame) {
-            frame_ptr = fp;
-            frame_release();
-            stack.pop();
-            return;
-        }
-        fp = prev_fp;
+    auto next = std::upper_bound(frames.begin(), frames.end(), goto_frame);
+    if (next == frames.end()) {
+        throw std::runtime_error("Cannot find goto frame");
     }
-    throw std::runtime_error("Cannot find goto frame");
+    frame_ptr = *next;
+    frame_release();
+    stack.erase(stack_base);
 }
 
 //
diff --git a/simulator/processor.h b/simulator/processor.h
index 4bbba6f..ebc1390 100644
--- a/simulator/processor.h
+++ b/simulator/processor.h
@@ -4,6 +4,7 @@
 #include <cstdint>
 #include <string>
 #include <unordered_map>
+#include <vector>
 
 #include "virtual_stack.h"
 #include "x1_arch.h"
@@ -78,7 +79,9 @@ private:
 
     // Pointer to a procedure frame in stack.
     unsigned frame_ptr{};
-    unsigned last_frame_ptr{};
+
+    // Pointers to all frames in stack, innermost last.
+    std::vector<unsigned> frames;
 
     // Base of stack in current block.
     unsigned stack_base{};
-- 
2.43.0


From 563085bba0fccfbb43a6f504254d8d15108443cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:29 +0000
Subject: [PATCH 05/53] fix: constant as actual parameter after a standard
 function

A constant parameter was tested by the name met last before it: after
a standard function of a constant, as in p(sin(1), 2), it was passed as
a procedure, and the program failed at run time.
---
 compiler/x1algc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index dcb12ac..6d4d0b6 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -2139,7 +2139,7 @@ _L8702:
         if (aflag == 0) {
             if (store[tlsc - 2] == rlsc && (fflag == 0 || pass_formals) &&
                 jflag == 0 && nflag == 1) {
-                if (nid > nlscop) {
+                if (kflag == 1 || nid > nlscop) { /*a constant has no name*/
                     if (pflag == 1 && fflag == 0) /*non-formal procedure:*/
                         test_first_occurrence();
                     /*PORD construction:*/
-- 
2.43.0


From 773c2c3c36f35948373abafb47b116f2ff391401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:10 +0000
Subject: [PATCH 06/53] fix: by-name and value parameters in a stack deeper
 than 32767 cells

The frame pointer of the caller was kept in 15 bits, so that deep
recursion failed with a bogus stack overflow or took parameters from
a wrong place.
---
 simulator/processor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 9d1a990..3a2fc4b 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -376,7 +376,7 @@ void Processor::frame_create(unsigned ret_addr, unsigned num_args)
     // the block in which the corresponding procedure statement is given." (E.W.Dijkstra)
     //
     auto parent_level   = get_block_level();
-    auto parent_display = parent_level << 15 | frame_ptr;
+    auto parent_display = parent_level << 22 | frame_ptr;
 
     for (unsigned i = 0; i < num_args; i++) {
         // Allocate formal parameters: two cells per parameter.
@@ -511,8 +511,8 @@ void Processor::get_arg_display(unsigned const dynamic_addr, unsigned &block_lev
     auto const addr           = address_in_stack(dynamic_addr);
     auto const formal_display = stack.get(addr + 1).get_int();
 
-    block_level  = formal_display >> 15;
-    prev_display = formal_display & BITS(15);
+    block_level  = formal_display >> 22;
+    prev_display = formal_display & BITS(22);
 }
 
 //
-- 
2.43.0


From 7f77ff8f0bf1a4d4e66c8acb5fa0f4290683ef47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:22 +0000
Subject: [PATCH 07/53] fix: array subscripts wrapped modulo 2**20

A subscript off by a multiple of 1048576 words passed the bounds check
and silently accessed another element. The base address of a value
array was taken modulo 65536, which broke parameters with large bounds
and parameters in a deep stack. Decode the base address properly, which
also repairs the bounds shown in the error message.
---
 simulator/opcodes.cpp   | 16 +++++++---------
 simulator/processor.cpp | 13 +++++++++++++
 simulator/processor.h   |  1 +
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 72ac675..26ec343 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -518,28 +518,27 @@ bool Processor::call_opc(unsigned opc)
         // For a 1-dimensional array, "offset: contents":
         // 0: address of the first memory word the array occupies
         // 1: base address for indexing from 0 (for a left bound >= 0)
-        //    (with the high bit set for a left bound < 0 - a 1's complement artifact)
+        //    (with the high bit set for a left bound > 0 - a 1's complement artifact)
         // 2..2+ndim-1: element or dimension sizes in words
         // 2+ndim: number of words in the array, negated
         unsigned addr = storage_fn.get_addr();
         int location  = x1_to_integer(load_word(addr));
-        int base      = load_word(addr + 1);
+        int base      = zero_base(location, load_word(addr + 1));
         int limit     = x1_to_integer(load_word(addr + 2 + ndim));
         // The limit must look like a negative number with a reasonable absolute value.
         if (limit >= 0 || -limit > 0xfffff) {
             throw std::runtime_error("A wrong number of indexes for an array");
         }
-        int elt_addr = base;
-        int idx0     = 0; // for the error message
+        int64_t elt_addr = base;
+        int idx0         = 0; // for the error message
         for (unsigned i = 0; i < ndim; ++i) {
             int dimsize = x1_to_integer(load_word(addr + 2 + i));
             int idx     = idxs[i].is_int_value() ? x1_to_integer(idxs[i].get_int())
                                                  : ieee_to_integer(x1_to_ieee(idxs[i].get_real()));
             if (i == 0)
                 idx0 = idx;
-            elt_addr += idx * dimsize;
+            elt_addr += (int64_t)idx * dimsize;
         }
-        elt_addr &= BITS(20); // 16 rather than 15 is to catch "negative" addresses
         if (elt_addr < location || elt_addr + limit >= location) {
             std::ostringstream ostr;
             int elsize = x1_to_integer(load_word(addr + 2));
@@ -926,8 +925,7 @@ bool Processor::call_opc(unsigned opc)
         // value array positioning
         unsigned storage_fn = address_in_stack(core.S);
         unsigned actual     = stack.get(storage_fn).get_addr();
-        unsigned zero_base =
-            stack.get(storage_fn + 1).get_addr() & 0xFFFF; // remove stray high bits
+        int base          = zero_base(actual, stack.get(storage_fn + 1).get_addr());
         unsigned elt_size = stack.get(storage_fn + 2).get_int();
         Cell_Type ct = elt_size % 2 == 1 ? Cell_Type::INTEGER_ADDRESS : Cell_Type::REAL_ADDRESS;
         // Element size correctors for type conversion.
@@ -963,7 +961,7 @@ bool Processor::call_opc(unsigned opc)
         }
         unsigned words = -x1_to_integer(stack.get(storage_fn + pos).get_int());
         stack.set(storage_fn, Stack_Cell{ ct, stack_base + STACK_BASE });
-        int offset = actual - zero_base;
+        int offset = (int)actual - base;
         offset     = offset * mul / div;
         stack.set(storage_fn + 1, Stack_Cell{ ct, stack_base - offset + STACK_BASE });
         for (unsigned i = 0; i < words; ++i) {
diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 3a2fc4b..d30b931 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -911,6 +911,19 @@ void Processor::make_storage_function_frame(int elt_size)
     increment_stack_base(nitems * (ndim + 3));
 }
 
+//
+// Decode base address for indexing from 0, as present in the storage function.
+// It can be negative.
+// For an array in memory bit 26 is not significant: it is set for a left
+// bound > 0 - a 1's complement artifact.
+//
+int Processor::zero_base(unsigned location, Word base) const
+{
+    const unsigned width = (location < STACK_BASE) ? 26 : 27;
+    base &= BITS(width);
+    return (base & ONEBIT(width - 1)) ? (int)base - (int)ONEBIT(width) : (int)base;
+}
+
 Word Processor::load_word(unsigned addr)
 {
     if (addr < STACK_BASE)
diff --git a/simulator/processor.h b/simulator/processor.h
index ebc1390..7ce3dd7 100644
--- a/simulator/processor.h
+++ b/simulator/processor.h
@@ -197,6 +197,7 @@ private:
     void make_storage_function_frame(int elt_size);
     void make_value_array_function_frame(int elt_size);
     Word load_word(unsigned addr);
+    int zero_base(unsigned location, Word base) const;
 
     // Apply given operation to the retrieved address of formal parameter.
     void apply_operation(Formal_Op post_op, unsigned addr, Cell_Type type);
-- 
2.43.0


From 9fbebae267bfb33773ac37eb0f0c7c5b44d425be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:25 +0000
Subject: [PATCH 08/53] fix: overflow in size of a dynamic array

Sizes were computed in plain int: bounds with a too large product gave
an array of some other size (undefined behaviour).
---
 simulator/processor.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index d30b931..4d6f596 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -1,5 +1,6 @@
 #include <algorithm>
 #include <cmath>
+#include <cstdlib>
 #include <iostream>
 
 #include "machine.h"
@@ -893,12 +894,15 @@ void Processor::make_storage_function_frame(int elt_size)
         stack.push_real_addr(0);
     stack.push_null(); // future "0 element" address
     unsigned zero_base = stack.count() - 1;
-    int offset         = 0;
-    int stride         = elt_size;
+    int64_t offset     = 0;
+    int64_t stride     = elt_size;
     for (int i = 0; i < ndim; ++i) {
-        stack.push_int_value(stride);
+        stack.push_int_value(integer_to_x1(stride));
         offset += stride * dims[i].first;
-        stride *= (dims[i].second - dims[i].first + 1);
+        stride *= (int64_t)dims[i].second - dims[i].first + 1;
+        if (std::abs(offset) > (int)BITS(26) || std::abs(stride) > (int)BITS(26)) {
+            throw std::runtime_error("Too large array");
+        }
     }
     stack.set_int_value(zero_base, integer_to_x1(offset));
     stack.push_int_value(integer_to_x1(-stride));
-- 
2.43.0


From 102bc7df849ec0cc41e77f4f2db3cfca3acb9c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:27 +0000
Subject: [PATCH 09/53] fix: limit of stack size was not applied to single
 values

Most of items are pushed by push(type, value), which did not check the
limit: large local arrays and endless recursion exhausted the memory
instead of a stack overflow message.
---
 simulator/virtual_stack.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simulator/virtual_stack.cpp b/simulator/virtual_stack.cpp
index 11a1830..af0b083 100644
--- a/simulator/virtual_stack.cpp
+++ b/simulator/virtual_stack.cpp
@@ -552,6 +552,9 @@ void Virtual_Stack::push(const Stack_Cell &item)
 
 void Virtual_Stack::push(Cell_Type type, uint64_t value)
 {
+    if (storage.size() >= SIZE_LIMIT) {
+        throw std::runtime_error("Stack overflow");
+    }
     storage.push_back({});
     auto &item = storage.back();
     item.type  = type;
-- 
2.43.0


From 0c5afdc849238e1c31c068e77597dd166d613c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:51 +0000
Subject: [PATCH 10/53] fix: environment of a procedure passed as a parameter,
 also when passed on

---
 simulator/processor.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 4d6f596..3da2095 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -583,16 +583,29 @@ void Processor::store_value(const Stack_Cell &dest, const Stack_Cell &src)
 
 //
 // Get address of procedure parameter at dynamic address.
+// Leave display[] as seen from the place where the actual procedure
+// was given as a parameter, for the procedure to find its environment.
 //
 unsigned Processor::get_formal_proc(unsigned dynamic_addr)
 {
-    unsigned const arg_descr = arg_descriptor(dynamic_addr);
-    unsigned const arg_addr  = arg_descr & BITS(15);
-    switch (arg_descr >> 15 & 077) {
-    case 040:
-        return arg_addr;
-    default:
-        throw std::runtime_error("Unknown descriptor of formal procedure: " + to_octal(arg_descr));
+    for (;;) {
+        unsigned const arg_descr = arg_descriptor(dynamic_addr);
+        unsigned const arg_addr  = arg_descr & BITS(15);
+        unsigned arg_level, arg_frame;
+        get_arg_display(dynamic_addr, arg_level, arg_frame);
+        update_display(arg_level, arg_frame);
+
+        switch (arg_descr >> 15 & 077) {
+        case 040:
+            return arg_addr;
+        case 006:
+            // Indirection: argument point to another argument in parent's frame.
+            dynamic_addr = (arg_descr >> 22) | (arg_addr << 5);
+            break;
+        default:
+            throw std::runtime_error("Unknown descriptor of formal procedure: " +
+                                     to_octal(arg_descr));
+        }
     }
 }
 
-- 
2.43.0


From 713ddd468be632e05f935ecb4fb1881fcdfdd0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:07 +0000
Subject: [PATCH 11/53] fix: too small real constant is zero

---
 compiler/x1algc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 6d4d0b6..d6e11bf 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -665,6 +665,12 @@ _L3: /*float*/
     }
     if (bexp > 4095)
         stop(4, "Real too large");
+    if (bexp < 0) { /*too small: take as zero*/
+        inw   = 0;
+        fnw   = 0;
+        dflag = 0;
+        goto _L4;
+    }
     inw   = inw / 4096 * 4096 + bexp;
     dflag = 1;
 _L4:
-- 
2.43.0


From 3a9c57eac9802595176792381b5e536c3833c4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:46 +0000
Subject: [PATCH 12/53] fix: overflow in real power gave a small number

---
 simulator/x1_arch.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simulator/x1_arch.cpp b/simulator/x1_arch.cpp
index 5fa82b7..8e1dc72 100644
--- a/simulator/x1_arch.cpp
+++ b/simulator/x1_arch.cpp
@@ -36,6 +36,10 @@ Real ieee_to_x1(long double input)
         input = -input;
     }
 
+    if (!std::isfinite(input)) {
+        throw std::runtime_error("Overflow in real arithmetic");
+    }
+
     // Split into mantissa and exponent.
     int exponent;
     long double mantissa = frexpl(input, &exponent);
-- 
2.43.0


From 9758f176502d67a57566b5133e21596f63f17a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:44 +0000
Subject: [PATCH 13/53] fix: undefined behaviour on malformed object programs

---
 simulator/machine.cpp       | 11 +++++++++++
 simulator/machine.h         |  2 +-
 simulator/opcodes.cpp       |  5 ++++-
 simulator/virtual_stack.cpp | 22 ++++++++++++++++++++++
 simulator/virtual_stack.h   |  4 ++--
 5 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 68047a3..0fdb8dc 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -391,6 +391,17 @@ void Machine::load_object_program(const std::string &obj_filename)
     }
 }
 
+//
+// Get entry address by index.
+//
+unsigned Machine::get_entry(unsigned index) const
+{
+    if (index >= entry_table.size()) {
+        throw std::runtime_error("No entry address in object program");
+    }
+    return entry_table[index];
+}
+
 //
 // Decode word to UTF-8 string.
 //
diff --git a/simulator/machine.h b/simulator/machine.h
index 82bedcf..d9f79c8 100644
--- a/simulator/machine.h
+++ b/simulator/machine.h
@@ -114,7 +114,7 @@ public:
     unsigned get_symbol(const std::string &name) { return symbol_table.at(name); }
 
     // Get entry address by index.
-    unsigned get_entry(unsigned index) { return entry_table[index]; }
+    unsigned get_entry(unsigned index) const;
 
     // Get status of simulation: either EXIT_SUCCESS (0) or
     // EXIT_FAILURE in case of errors.
diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 26ec343..8dfb523 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -226,7 +226,7 @@ bool Processor::call_opc(unsigned opc)
     case OPC_GTA:
         // goto adjustment
         // Exit to block level given in register B.
-        roll_back(display[core.B]);
+        roll_back(get_display(core.B));
         break;
 
     case OPC_SSI: {
@@ -542,6 +542,9 @@ bool Processor::call_opc(unsigned opc)
         if (elt_addr < location || elt_addr + limit >= location) {
             std::ostringstream ostr;
             int elsize = x1_to_integer(load_word(addr + 2));
+            if (elsize == 0) {
+                throw std::runtime_error("Bad storage function of array");
+            }
             if (ndim == 1) {
                 ostr << "Index " << idx0 << " is ";
             } else {
diff --git a/simulator/virtual_stack.cpp b/simulator/virtual_stack.cpp
index af0b083..a9c5bca 100644
--- a/simulator/virtual_stack.cpp
+++ b/simulator/virtual_stack.cpp
@@ -427,6 +427,28 @@ Stack_Cell Virtual_Stack::pop()
     return item;
 }
 
+//
+// Get the top of the stack.
+//
+Stack_Cell &Virtual_Stack::top()
+{
+    if (storage.size() == 0) {
+        throw std::runtime_error("No top of empty stack");
+    }
+    return storage.back();
+}
+
+//
+// Remove all items starting from given index.
+//
+void Virtual_Stack::erase(unsigned ptr)
+{
+    if (ptr > storage.size()) {
+        throw std::runtime_error("Cannot roll back to #" + std::to_string(ptr) + " in stack");
+    }
+    storage.erase(storage.begin() + ptr, storage.end());
+}
+
 //
 // Remove one item from stack, and return it as standard floating point value.
 //
diff --git a/simulator/virtual_stack.h b/simulator/virtual_stack.h
index 03c2cc6..49a8235 100644
--- a/simulator/virtual_stack.h
+++ b/simulator/virtual_stack.h
@@ -77,10 +77,10 @@ public:
     unsigned count() const { return storage.size(); }
 
     // Get the top of the stack.
-    Stack_Cell &top() { return storage.back(); }
+    Stack_Cell &top();
 
     // Remove all items (but don't deallocate).
-    void erase(unsigned ptr) { storage.erase(storage.begin() + ptr, storage.end()); }
+    void erase(unsigned ptr);
 
     // Remove one item from stack, and return it as cell.
     Stack_Cell pop();
-- 
2.43.0


From 1412b1e9083627bb04acd42b6c65a041b9bbfe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:06 +0000
Subject: [PATCH 14/53] fix: compiler killed by a signal was taken as success

---
 simulator/machine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 0fdb8dc..9e4f867 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -309,6 +309,11 @@ void Machine::run_program(const std::string &prog_path, const std::vector<std::s
         throw std::runtime_error("Lost child process #" + std::to_string(pid));
     }
 
+    if (!WIFEXITED(wait_status)) {
+        throw std::runtime_error("Compiler terminated by signal " +
+                                 std::to_string(WTERMSIG(wait_status)));
+    }
+
     int exit_code = WEXITSTATUS(wait_status);
     switch (exit_code) {
     case STATUS_OK:
-- 
2.43.0


From dffdb4eaad459bfc9d818008b6bc20bd175dca08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:08 +0000
Subject: [PATCH 15/53] fix: crash when the trace file cannot be written

---
 simulator/main.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simulator/main.cpp b/simulator/main.cpp
index b9880c0..d04a2f2 100644
--- a/simulator/main.cpp
+++ b/simulator/main.cpp
@@ -84,7 +84,12 @@ int main(int argc, char *argv[])
 
         case 'T':
             // Redirect tracing to given file.
-            Machine::redirect_trace(optarg);
+            try {
+                Machine::redirect_trace(optarg);
+            } catch (std::exception &ex) {
+                std::cerr << "Error: " << ex.what() << std::endl;
+                exit(EXIT_FAILURE);
+            }
             Machine::get_trace_stream() << "X1 Algol Simulator Version: " << VERSION_STRING << "\n";
             continue;
 
-- 
2.43.0


From 30771bb2dc50f3ea36528bfb40ed8ee98e99327f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:34 +0000
Subject: [PATCH 16/53] fix: XEEN with a negative argument: one's complement

---
 simulator/opcodes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 8dfb523..ecba798 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -1073,7 +1073,7 @@ bool Processor::call_opc(unsigned opc)
 
     case OPC_XEEN: {
         // Read console switches.
-        auto bitmask = stack.pop_integer();
+        auto bitmask = integer_to_x1(stack.pop_integer());
         stack.push_int_value(machine.read_console_switches(std::cin, bitmask));
         break;
     }
-- 
2.43.0


From 14a5ce094fbaf778feb876b43d5cc34d8fbe73db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:50 +0000
Subject: [PATCH 17/53] fix: FLOT with two digits of exponent, and carry out of
 exponent after rounding

---
 simulator/machine.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 9e4f867..99b152a 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -551,7 +551,7 @@ void Machine::print_floating_point(std::ostream &out, int n, int m, long double
         }
         break;
     case 2:
-        if (exponent > 9 || exponent < -99) {
+        if (exponent > 99 || exponent < -99) {
             goto again;
         }
         break;
@@ -570,6 +570,10 @@ void Machine::print_floating_point(std::ostream &out, int n, int m, long double
     if (x >= 1) {
         x /= 10;
         exponent++;
+        if ((m == 1 && exponent > 9) || (m == 2 && exponent > 99)) {
+            // Does not fit after rounding.
+            goto again;
+        }
     }
 
     // Print mantissa.
-- 
2.43.0


From ef808ac6f904580fdd27646af8d50351c686d4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:54 +0000
Subject: [PATCH 18/53] fix: FIXT without integer part lost zeroes after the
 point

---
 simulator/machine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 99b152a..c93093e 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -484,7 +484,7 @@ void Machine::print_fixed_point(std::ostream &out, int n, int m, long double x0,
     }
 
     // Print digit by digit.
-    bool suppress_zeroes = true;
+    bool suppress_zeroes = (n > 0);
     out << sign_symbol;
     for (int count = 0; count < n + m; count++) {
         x *= 10.0;
-- 
2.43.0


From 15c3dc51dc528da5c7a515e124de9e2a27cd5a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:00 +0000
Subject: [PATCH 19/53] fix: deep nesting in a program overwrote other data of
 the compiler

---
 compiler/x1algc.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index d6e11bf..43cfef6 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -81,7 +81,8 @@ int P_eof(FILE *f)
 #define MCPLEN (MCP_PRINTTEXT_LEN+MCP_EVEN_LEN+MCP_TIMEOFDAY_LEN)
 
 #define gvc0   138  /*0-04-10*/
-#define tlib   800  /*0-25-00*/
+#define tlib   12288 /*T-list: above the store of X1*/
+#define tlie   16384
 #define plie   6783 /*6-19-31*/
 #define bim    (mcpb+MCPLEN+2)  /*0-29-nn */
 #define nlscop 43
@@ -99,7 +100,7 @@ Static int tlsc, plib, flib, klib, nlib, rht, vht, qc, scan, rnsa, rnsb, rnsc, r
 /* Added to fix a bug in passing standard functions as parameters  */
 Static int tfpflag;
 
-Static int store[12288];
+Static int store[tlie];
 static inline int _Rstore(int idx, int line, const char * expr) {
     if (0 <= idx && idx < 12288)
         return store[idx];
@@ -680,6 +681,8 @@ _L5:;
 
 Static Void fill_t_list(int n)
 {
+    if (tlsc >= tlie)
+        stop(17, "Too deep nesting");
     store[tlsc] = n;
     tlsc++;
 } /*fill_t_list*/
-- 
2.43.0


From 0579a1ffef6ec7bf3429d70e3d05d1fdc3979b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:04 +0000
Subject: [PATCH 20/53] fix: many pending jumps overwrote constants and names
 in the compiler

---
 compiler/x1algc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 43cfef6..5eae250 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -1306,7 +1306,7 @@ Local Void fill_future_list(int place, int value)
     /*FU*/
     int i, FORLIM;
 
-    if (place >= klib) {
+    while (place >= klib) {
         if (nlib + nlsc + 16 >= plib)
             stop(6, "fill_future_list: Store capacity too small");
         FORLIM = klib;
-- 
2.43.0


From 08811fcd0184c831785c279dc262b132cf694f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:44 +0000
Subject: [PATCH 21/53] fix: local variables beyond the reach of a dynamic
 address

---
 compiler/x1algc.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 5eae250..cccc3c1 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -1301,6 +1301,14 @@ Local Void fill_t_list_with_delimiter()
     fill_t_list(d8 * oh + dl);
 } /*fill_t_list_with_delimiter*/
 
+Local Void reserve_in_frame(int amount)
+{
+    /*offset in frame occupies 10 bits of dynamic address*/
+    pnlv += amount;
+    if (pnlv > d15)
+        stop(26, "Too many local variables");
+}
+
 Local Void fill_future_list(int place, int value)
 {
     /*FU*/
@@ -1552,7 +1560,7 @@ Local Void reservation_of_arrays()
                 fill_result_list(93, 0);
             /*IVA*/
             store[rlab - 1] = id / d15 * d15 - d16 + pnlv;
-            pnlv += 256; /*at most 5 indices*/
+            reserve_in_frame(256); /*at most 5 indices*/
         }
         if ((store[rlab - 2] & (d3 - 1)) == 0)
             rlab -= 2;
@@ -2404,7 +2412,7 @@ _L101: /*]*/
                 arra -= 2;
             else
                 arra -= 3;
-            pnlv += (ic + 3) * d5;
+            reserve_in_frame((ic + 3) * d5);
             aic--;
         } while (aic != 0);
         read_until_next_delimiter();
@@ -2558,10 +2566,10 @@ _L1083: /*dynamic addressing*/
     id = pnlv + d15;
     if (ibd == 1) {
         id += d19;
-        pnlv += 32;
+        reserve_in_frame(32);
         lvc++;
     } else {
-        pnlv += 64;
+        reserve_in_frame(64);
         lvc += 2;
     }
     fill_name_list();
@@ -2707,7 +2715,7 @@ _L112: /*procedure*/
         read_until_next_delimiter();
         id = pnlv + d15 + d16;
         fill_name_list();
-        pnlv += d5 * 2; /*reservation PARD*/
+        reserve_in_frame(d5 * 2); /*reservation PARD*/
     } while (dl == 87);
     read_until_next_delimiter(); /*for ; after )*/
 _L1121:
-- 
2.43.0


From d9b43dadce4b7cbfd4b5edf241724078fac28f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:11 +0000
Subject: [PATCH 22/53] fix: arrays overlapping the program in memory

---
 compiler/x1algc.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index cccc3c1..3f068ee 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -2637,7 +2637,7 @@ _L1102: /*static bounds, constants only:*/
                 }
             } else
                 arrd = inw;
-            arrc = (arrc - arrd * store[tlsc - 1]) & (d26 - 1);
+            arrc = (arrc - (int64_t)arrd * store[tlsc - 1]) & (d26 - 1);
             /*upper bound:*/
             read_until_next_delimiter();
             if (nflag == 0) {
@@ -2650,10 +2650,13 @@ _L1102: /*static bounds, constants only:*/
                 }
             } else
                 arrd = inw - arrd;
+            arrd++;
+            if (arrd < 0 || (int64_t)arrd * store[tlsc - 1] >= d26)
+                stop(27, "Too large array");
             if (dl == 101) /*[*/
-                fill_t_list(-(((arrd + 1) * store[tlsc - 1]) & (d26 - 1)));
+                fill_t_list(-(arrd * store[tlsc - 1]));
             else
-                fill_t_list(((arrd + 1) * store[tlsc - 1]) & (d26 - 1));
+                fill_t_list(arrd * store[tlsc - 1]);
         } while (dl != 101);
         /*]*/
         arrd = nlsc;
@@ -2667,6 +2670,8 @@ _L1102: /*static bounds, constants only:*/
                 tlsc++;
             } while (store[tlsc - 1] > 0);
             gvc -= store[tlsc - 1];
+            if (gvc >= d15)
+                stop(98, "Store too small for the program");
             tlsc = arrb;
             if ((store[nlib + arrd - 2] & (d3 - 1)) == 0)
                 arrd -= 2;
@@ -3317,6 +3322,8 @@ Static Void program_loader()
         }
         V.ll = read_crf_item(&V);
     }
+    if (gvc > mcpe)
+        stop(98, "Store too small for the program");
     /*load result list RLI:*/
     V.ll            = rlsc;
     V.read_location = rnsb;
-- 
2.43.0


From ec665358532cfd05433d187fe47e0033d399c7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:22 +0000
Subject: [PATCH 23/53] fix: out of bounds access in the compiler on malformed
 programs

---
 compiler/x1algc.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 3f068ee..812480d 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -1323,7 +1323,7 @@ Local Void fill_future_list(int place, int value)
         klib += 16;
         nlib += 16;
     }
-    store[place] = value;
+    Wstore(place, value);
 } /*fill_future_list*/
 
 Local Void fill_constant_list(int n)
@@ -1395,7 +1395,7 @@ Local Void label_declaration()
     /*FY*/
     int id1, id2, i, w;
 
-    id1 = store[nlib + nid];
+    id1 = Rstore(nlib + nid);
     if (((id1 / d15) & 1) == 0) /*preceding applied occurrences*/
         fill_future_list(flib + (id1 & (d15 - 1)), rlsc);
     else
@@ -1405,6 +1405,8 @@ Local Void label_declaration()
     if ((id1 & (d3 - 1)) == 0) { /*at most 4 letters/digits*/
         i = 4;
         id1 /= d3;
+        if (id1 == 0)
+            stop(28, "Identifier expected");
         while ((id1 & (d6 - 1)) == 0) { /*void*/
             i--;
             id1 /= d6;
@@ -1562,7 +1564,7 @@ Local Void reservation_of_arrays()
             store[rlab - 1] = id / d15 * d15 - d16 + pnlv;
             reserve_in_frame(256); /*at most 5 indices*/
         }
-        if ((store[rlab - 2] & (d3 - 1)) == 0)
+        if ((Rstore(rlab - 2) & (d3 - 1)) == 0)
             rlab -= 2;
         else
             rlab -= 3;
@@ -1580,7 +1582,7 @@ Local Void reservation_of_arrays()
                 fill_result_list(94, 0);
             }
         }
-        if ((store[rlab - 2] & (d3 - 1)) == 0)
+        if ((Rstore(rlab - 2) & (d3 - 1)) == 0)
             rlab -= 2;
         else
             rlab -= 3;
@@ -2408,7 +2410,7 @@ _L101: /*]*/
         arra = nlib + nlsc;
         do {
             Wstore(arra - 1, arrb + pnlv);
-            if ((store[arra - 2] & (d3 - 1)) == 0)
+            if ((Rstore(arra - 2) & (d3 - 1)) == 0)
                 arra -= 2;
             else
                 arra -= 3;
@@ -3294,8 +3296,8 @@ Static Void program_loader()
         /*at least 5 letters or digits*/
         if (((idm / d15) & 1) == 0) { /*MCP is used*/
             mcp_count++;
-            store[mlib + ((store[flib + (idm & (d15 - 1))] - rlib) & (d15 - 1))] =
-                -(flib + (idm & (d15 - 1)));
+            Wstore(mlib + ((Rstore(flib + (idm & (d15 - 1))) - rlib) & (d15 - 1)),
+                   -(flib + (idm & (d15 - 1))));
         }
     }
     /*determine secondary need using the cross-reference list:*/
-- 
2.43.0


From 3e71dcf1b81ec2a97a3c234231fb2546a72300ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:36 +0000
Subject: [PATCH 24/53] fix: shifts by more than a word, and round shift
 falling into clear shift

---
 simulator/processor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index 3da2095..bebd716 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -258,7 +258,7 @@ bool Processor::step()
 
     case 067'14: {
         // Round shift to the right, 1P amount rr E
-        unsigned amount = addr & 037;
+        unsigned amount = (addr & 037) % 27;
         switch (addr >> 5) {
         case 0: // AA
             core.A = (core.A >> amount | core.A << (27 - amount)) & BITS(27);
@@ -279,11 +279,12 @@ bool Processor::step()
             core.L = core.S & ONEBIT(26);
             break;
         }
+        break;
     }
 
     case 077'00: {
         // Clear shift to the right, 3P amount rr
-        unsigned amount = addr & 037;
+        unsigned amount = std::min(addr & 037, 27u);
         switch (addr >> 5) {
         case 0: // AA
             core.A = (core.A >> amount | -(core.A >> 26) << (27 - amount)) & BITS(27);
-- 
2.43.0


From 05a2d982ddd670759958bf233f86f2419476267d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:29 +0000
Subject: [PATCH 25/53] fix: lost carry in conversion of real constants with a
 positive exponent

---
 compiler/x1algc.c    | 3 ++-
 compiler/x1algol.pas | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 812480d..0f4a5ef 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -629,7 +629,8 @@ _L3: /*float*/
         do {
             fnw *= 5;
             inw = (fnw & 7) * d23 + inw * 5 / 8;
-            fnw /= 8;
+            fnw = fnw / 8 + inw / d26;
+            inw &= d26 - 1;
             if (fnw < d25) {
                 inw *= 2;
                 fnw = fnw * 2 + inw / d26;
diff --git a/compiler/x1algol.pas b/compiler/x1algol.pas
index c9c7d0f..30896cd 100644
--- a/compiler/x1algol.pas
+++ b/compiler/x1algol.pas
@@ -370,7 +370,7 @@ begin {body of read_until_next_delimiter}
   end;
   if elsc > 0
   then repeat fnw:= 5 * fnw; inw:= (fnw mod 8) * d23 + (5 * inw) div 8;
-         fnw:= fnw div 8;
+         fnw:= fnw div 8 + inw div d26; inw:= inw mod d26;
          if fnw < d25
          then begin inw:= 2 * inw; fnw:= 2 * fnw + inw div d26;
                 inw:= inw mod d26;
-- 
2.43.0


From 04afe19210c57e557ca74b27c073f9baa6901828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:20 +0000
Subject: [PATCH 26/53] fix: scalars declared after an array were reserved
 together with those before it

---
 compiler/x1algc.c    | 1 +
 compiler/x1algol.pas | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 0f4a5ef..ac02d47 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -1505,6 +1505,7 @@ Local Void reservation_of_local_variables()
     fill_result_list(0, lvc + 4718592); /*4A 17X1*/
     fill_result_list(0, 8388657);       /*4A 18X1*/
     fill_result_list(0, 8388658);
+    lvc = 0; /*more scalars may follow an array declaration*/
 } /*reservation_of_local_variables*/
 
 Local Void address_to_register()
diff --git a/compiler/x1algol.pas b/compiler/x1algol.pas
index 30896cd..043bee8 100644
--- a/compiler/x1algol.pas
+++ b/compiler/x1algol.pas
@@ -802,7 +802,8 @@ procedure main_scan;                                               {EL}
   begin if lvc > 0
     then begin fill_result_list(0,4718592+lvc) {2A 'lvc' A};
            fill_result_list(0,8388657) {4A 17X1};
-           fill_result_list(0,8388658) {4A 18X1}
+           fill_result_list(0,8388658) {4A 18X1};
+           lvc:= 0
          end
   end {reservation_of_local_variables};
 
-- 
2.43.0


From a574fe86e28effd4dd78de7c18629f1fe6fbf53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:40 +0000
Subject: [PATCH 27/53] fix: a line break in a string was printed twice

---
 compiler/x1algc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index ac02d47..c53ba8a 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -204,8 +204,9 @@ _L1:
             input_eof_seen = true;
             return 123; /*space*/
         }
-        if (getline(&input_line, &input_line_len, source_tape))
-            ;
+        ssize_t len = getline(&input_line, &input_line_len, source_tape);
+        if (len > 0 && input_line[len - 1] == '\n')
+            input_line[len - 1] = 0; /*it is returned when the line has been read*/
         input_pos = 0;
         /*writeln('---');*/
         /*for debug*/
-- 
2.43.0


From 4a497474dc40678db4a53ef98899a8cb924843ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:20 +0000
Subject: [PATCH 28/53] fix: standard procedures without parameter, or called
 by a procedure statement, passed as parameters

For a parameterless standard procedure passed as a parameter the
compiler generated a fetch of its argument, and the program failed. The
call of any standard procedure by a formal procedure statement left a
value on the stack.
---
 compiler/x1algc.c     | 4 +++-
 simulator/opcodes.cpp | 8 +++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index c53ba8a..b88a267 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -2185,8 +2185,10 @@ _L8702:
                         store[tlsc - 2] = pstb;
                     goto _L8704;
                 } else {
+                    int opc = (id & (d8 - 1)) - 40;
                     tfpflag = 1;
-                    fill_result_list(98, 0);
+                    if (opc != 102 && opc != 104 && opc != 105 && opc != 108)
+                        fill_result_list(98, 0); /*read, TAB, NLCR, stop: no parameter*/
                     goto _L8703;
                 }
             } else {
diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index ecba798..496940c 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -87,13 +87,19 @@ bool Processor::call_opc(unsigned opc)
     }
     case OPC_EIS: {
         // end of implicit subroutine
-        auto item    = stack.pop();
+        auto item    = (stack.count() > stack_base) ? stack.pop() : Stack_Cell{};
         auto post_op = eis_operation.at(stack_base);
         if (post_op == Formal_Op::REMOVE_ARG) {
             stack_base -= 2;
         }
         frame_ptr = stack_base + Frame_Offset::FP - Frame_Offset::ARG;
         OT        = frame_release();
+        if (stack.top().is_null()) {
+            // Standard procedure passed as parameter and called by
+            // a procedure statement: drop empty result.
+            stack.pop();
+            break;
+        }
 
         // Apply operation with given item.
         stack.top() = item;
-- 
2.43.0


From 1ede2804f247d81aa0400056e86dd1e1daa978bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:40 +0000
Subject: [PATCH 29/53] fix: FLOT of a number just below a power of ten lost a
 digit

The logarithm was rounded to double precision before taking its integer
part.
---
 simulator/machine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index c93093e..428bdbc 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -543,7 +543,7 @@ void Machine::print_floating_point(std::ostream &out, int n, int m, long double
         x           = -x;
     }
 
-    int exponent = (x == 0) ? 0 : 1 + floor(log10l(x));
+    int exponent = (x == 0) ? 0 : 1 + floorl(log10l(x));
     switch (m) {
     case 1:
         if (exponent > 9 || exponent < -9) {
-- 
2.43.0


From 8f328360b1f0925327ffca4f7dbd4488045b5da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:01 +0000
Subject: [PATCH 30/53] fix: PRSYM printed letters for the bar and the
 underline read by RESYM

---
 simulator/encoding.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/simulator/encoding.cpp b/simulator/encoding.cpp
index 5a9e666..fa56164 100644
--- a/simulator/encoding.cpp
+++ b/simulator/encoding.cpp
@@ -21,5 +21,16 @@ static const char *algol_to_utf8[128] = {
 //
 void algol_putc(int ch, std::ostream &out)
 {
-    out << algol_to_utf8[ch & 0177];
+    switch (ch) {
+    case 162:
+        // Symbols recognized by the parser only.
+        out << '|';
+        break;
+    case 163:
+        out << '_';
+        break;
+    default:
+        out << algol_to_utf8[ch & 0177];
+        break;
+    }
 }
-- 
2.43.0


From 9b072f4118a899d709ee2b1459ce1cd3ecfb0812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:03 +0000
Subject: [PATCH 31/53] fix: read lost the sign of a number following directly
 after another

---
 simulator/input.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/simulator/input.cpp b/simulator/input.cpp
index 8e3e563..b889890 100644
--- a/simulator/input.cpp
+++ b/simulator/input.cpp
@@ -85,6 +85,13 @@ long double Machine::input_real(std::istream &orig_stream)
 
         if (input_stream) {
             // Number is valid.
+            if (!input_stream.eof()) {
+                // A sign ends the number, but belongs to the next one.
+                int const next = input_stream.peek();
+                if (next == '+' || next == '-') {
+                    orig_stream.unget();
+                }
+            }
             return x;
         }
 
-- 
2.43.0


From 461fc03b8aa0427d46fe6e2f1ed3890c526367cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:32 +0000
Subject: [PATCH 32/53] fix: keep underlined operator symbols that directly
 follow an underlined word

---
 compiler/x1algc.c | 50 +++++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index b88a267..ae7d2a8 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -291,6 +291,32 @@ _L1:
     return -1;
 }
 
+/*Symbol denoted by underscore and a character which is not a letter.*/
+Static int underlined_char(int sym)
+{
+    if (sym == 70) { /*>*/
+        sym = 71;    /*>=*/
+        return sym;
+    }
+    if (sym == 72) { /*=*/
+        sym = 80;    /*eqv*/
+        return sym;
+    }
+    if (sym == 74) { /*<*/
+        sym = 73;    /*<=*/
+        return sym;
+    }
+    if (sym == 76) { /*~*/
+        sym = 79;    /*imp*/
+        return sym;
+    }
+    if (sym == 124) /*:*/
+        sym = 68;   /*div*/
+    else
+        stop(13, "Unrecognized underlined char");
+    return sym;
+} /*underlined_char*/
+
 Static int next_ALGOL_symbol()
 {
     /*HT*/
@@ -413,31 +439,13 @@ _L1:
                 do {
                     nas_stock = read_utf8_symbol();
                 } while (nas_stock == 163);
+                if (nas_stock < 10 || nas_stock > 62) /*not a letter: next symbol*/
+                    nas_stock = -underlined_char(nas_stock);
             }
         } while (nas_stock > 0); /*word delimiter*/
         return sym;
     }
-    if (sym == 70) { /*>*/
-        sym = 71;    /*>=*/
-        return sym;
-    }
-    if (sym == 72) { /*=*/
-        sym = 80;    /*eqv*/
-        return sym;
-    }
-    if (sym == 74) { /*<*/
-        sym = 73;    /*<=*/
-        return sym;
-    }
-    if (sym == 76) { /*~*/
-        sym = 79;    /*imp*/
-        return sym;
-    }
-    if (sym == 124) /*:*/
-        sym = 68;   /*div*/
-    else
-        stop(13, "Unrecognized underlined char");
-    return sym;
+    return underlined_char(sym);
 } /*next_ALGOL_symbol*/
 
 Static Void read_next_symbol()
-- 
2.43.0


From de02a6d77ad3ddbdacbaa5c712f9838caac6e402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:41 +0000
Subject: [PATCH 33/53] fix: object program cut short by a write error was
 taken as complete

---
 compiler/x1algc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index ae7d2a8..ceb6e05 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -3920,6 +3920,10 @@ int main(int argc, char *argv[])
     for (ii = mcpe; ii < FORLIM; ii++)
         printf("%5d%10d\n", ii, store[ii]);
     free(input_line);
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        perror("Cannot write object program");
+        exit(EXIT_FAILURE);
+    }
     exit(EXIT_SUCCESS);
 }
 
-- 
2.43.0


From ce5d41f1815bdf8854384d144daa151760141aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:43 +0000
Subject: [PATCH 34/53] fix: exit status zero although the output of the
 program could not be written

---
 simulator/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simulator/main.cpp b/simulator/main.cpp
index d04a2f2..5dcab88 100644
--- a/simulator/main.cpp
+++ b/simulator/main.cpp
@@ -116,6 +116,9 @@ int main(int argc, char *argv[])
             machine.find_default_library(argv[0]);
         }
         machine.compile_and_run();
+        if (!std::cout.flush()) {
+            throw std::runtime_error("Cannot write output");
+        }
 
     } catch (std::exception &ex) {
         std::cerr << "Error: " << ex.what() << std::endl;
-- 
2.43.0


From c6c7d13c2f98dc1bef75adb53689c60f9d820a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:50 +0000
Subject: [PATCH 35/53] fix: step-until compared the unrounded value with the
 limit, not the controlled variable

---
 simulator/opcodes.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 496940c..8bca389 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -217,6 +217,7 @@ bool Processor::call_opc(unsigned opc)
         auto value = stack.pop();
         auto var   = stack.pop();
         store_value(var, value);
+        value = load_value(var); // as rounded by the assignment
         int step_dir = x1_to_integer(stack.get(frame_ptr + Frame_Offset::RESULT).get_int());
         if ((step_dir > 0 && limit.is_less(value)) || (step_dir < 0 && value.is_less(limit))) {
             // Element exhausted.
-- 
2.43.0


From 54f9968f2ca94b4f42c57b1e92b23d89b698d0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:33 +0000
Subject: [PATCH 36/53] fix: trace showed the wrong stack cell, or none, when
 the top of the stack changed

---
 simulator/opcodes.cpp   | 19 ++++++++++---------
 simulator/processor.cpp |  2 ++
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 8bca389..37cb603 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -103,6 +103,7 @@ bool Processor::call_opc(unsigned opc)
 
         // Apply operation with given item.
         stack.top() = item;
+        Machine::trace_stack(stack.count() - 1, item.to_string(), "Write");
         apply_operation(post_op);
         break;
     }
@@ -295,7 +296,7 @@ bool Processor::call_opc(unsigned opc)
         // add real dynamic
         auto b = get_dynamic_real(core.S);
         stack.top().add(b);
-        Machine::trace_stack(stack.count(), stack.top().to_string(), "Write");
+        Machine::trace_stack(stack.count() - 1, stack.top().to_string(), "Write");
         break;
     }
     case OPC_ADRS: {
@@ -317,7 +318,7 @@ bool Processor::call_opc(unsigned opc)
         // add integer dynamic
         auto b = get_dynamic_int(core.S);
         stack.top().add(b);
-        Machine::trace_stack(stack.count(), stack.top().to_string(), "Write");
+        Machine::trace_stack(stack.count() - 1, stack.top().to_string(), "Write");
         break;
     }
     case OPC_ADIS: {
@@ -346,7 +347,7 @@ bool Processor::call_opc(unsigned opc)
         // subtract real dynamic
         auto b = get_dynamic_real(core.S);
         stack.top().subtract(b);
-        Machine::trace_stack(stack.count(), stack.top().to_string(), "Write");
+        Machine::trace_stack(stack.count() - 1, stack.top().to_string(), "Write");
         break;
     }
     case OPC_SURS: {
@@ -368,7 +369,7 @@ bool Processor::call_opc(unsigned opc)
         // subtract integer dynamic
         auto b = get_dynamic_int(core.S);
         stack.top().subtract(b);
-        Machine::trace_stack(stack.count(), stack.top().to_string(), "Write");
+        Machine::trace_stack(stack.count() - 1, stack.top().to_string(), "Write");
         break;
     }
     case OPC_SUIS: {
@@ -426,7 +427,7 @@ bool Processor::call_opc(unsigned opc)
         // multiply integer dynamic
         auto b = get_dynamic_int(core.S);
         stack.top().multiply(b);
-        Machine::trace_stack(stack.count(), stack.top().to_string(), "Write");
+        Machine::trace_stack(stack.count() - 1, stack.top().to_string(), "Write");
         break;
     }
     case OPC_MUIS: {
@@ -435,7 +436,7 @@ bool Processor::call_opc(unsigned opc)
         b.value = machine.mem_load(core.B);
         b.type = Cell_Type::INTEGER_VALUE;
         stack.top().multiply(b);
-        Machine::trace_stack(stack.count(), stack.top().to_string(), "Write");
+        Machine::trace_stack(stack.count() - 1, stack.top().to_string(), "Write");
         break;
     }
     case OPC_MUF: {
@@ -450,7 +451,7 @@ bool Processor::call_opc(unsigned opc)
         // divide real dynamic
         auto b = get_dynamic_real(core.S);
         stack.top().divide(b);
-        Machine::trace_stack(stack.count(), stack.top().to_string(), "Write");
+        Machine::trace_stack(stack.count() - 1, stack.top().to_string(), "Write");
         break;
     }
     case OPC_DIRS: {
@@ -475,7 +476,7 @@ bool Processor::call_opc(unsigned opc)
         // divide integer dynamic
         auto b = get_dynamic_int(core.S);
         stack.top().divide(b);
-        Machine::trace_stack(stack.count(), stack.top().to_string(), "Write");
+        Machine::trace_stack(stack.count() - 1, stack.top().to_string(), "Write");
         break;
     }
     case OPC_DIIS: {
@@ -632,7 +633,7 @@ bool Processor::call_opc(unsigned opc)
         // to the power
         auto b = stack.pop();
         stack.top().exponentiate(b);
-        Machine::trace_stack(stack.count(), stack.top().to_string(), "Write");
+        Machine::trace_stack(stack.count() - 1, stack.top().to_string(), "Write");
         break;
     }
 
diff --git a/simulator/processor.cpp b/simulator/processor.cpp
index bebd716..66c436c 100644
--- a/simulator/processor.cpp
+++ b/simulator/processor.cpp
@@ -178,6 +178,7 @@ bool Processor::step()
             // 6A 32764 X0 B
             // Patching (integer) value of the topmost stack cell
             stack.top().value = core.A;
+            Machine::trace_stack(stack.count() - 1, stack.top().to_string(), "Write");
         } else
             goto unknown;
         break;
@@ -797,6 +798,7 @@ void Processor::apply_operation(Formal_Op post_op)
         break;
     case Formal_Op::PUSH_DEREF:
         stack.top() = load_value(stack.top());
+        Machine::trace_stack(stack.count() - 1, stack.top().to_string(), "Write");
         break;
     case Formal_Op::ADD_DEREF:
         stack.add(load_value(stack.pop()));
-- 
2.43.0


From aa72aee64cfeb8c4fe9d5cdee6f83ab4a3190e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:24 +0000
Subject: [PATCH 37/53] fix: x1sim --debug took the next argument as its value

---
 simulator/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulator/main.cpp b/simulator/main.cpp
index 5dcab88..6a6c72b 100644
--- a/simulator/main.cpp
+++ b/simulator/main.cpp
@@ -13,7 +13,7 @@ static const struct option long_options[] = {
     { "help",           no_argument,        nullptr,    'h' },
     { "version",        no_argument,        nullptr,    'V' },
     { "trace",          required_argument,  nullptr,    'T' },
-    { "debug",          required_argument,  nullptr,    'd' },
+    { "debug",          no_argument,        nullptr,    'd' },
     { nullptr },
     // clang-format on
 };
-- 
2.43.0


From 4f79c02bee2ddd71e53ba5709a37e7bd4b545187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:18 +0000
Subject: [PATCH 38/53] fix: library procedure of another length than reserved
 overlapped its neighbours

---
 compiler/x1algc.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index ceb6e05..0bcd965 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -3281,6 +3281,7 @@ Static Void program_loader()
     struct LOC_program_loader V;
     int i, j, idm;
     int mcp_count = 0;
+    int mcp_length[128] = {0};
     boolean use;
     int FORLIM;
 
@@ -3334,6 +3335,7 @@ Static Void program_loader()
                 mcp_count++;
             /*only secondary need*/
             store[mlib + i] = mcpe;
+            mcp_length[i]   = V.ll;
         }
         V.ll = read_crf_item(&V);
     }
@@ -3401,12 +3403,12 @@ Static Void program_loader()
                 printf("Bad MCP number %d\n", i);
                 exit(EXIT_FAILURE);
             }
-            // TODO: compare with the proper length in crf
-            if (V.ll == 0 || V.ll > 1024) {
+            V.list_address = Rstore(crfb + i);
+            if (V.ll == 0 || V.ll > 1024 ||
+                (V.list_address != 0 && V.ll != mcp_length[i])) {
                 printf("Bad MCP length %d\n", V.ll);
                 exit(EXIT_FAILURE);
             }
-            V.list_address = Rstore(crfb + i);
             if (V.list_address != 0) {
                 read_list(&V);
                 test_bit_stock();
-- 
2.43.0


From 9faddd46c1530c38a967c85160529a0418e1b344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:20 +0000
Subject: [PATCH 39/53] fix: use of the closed library tape when procedures are
 missing

---
 compiler/x1algc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 0bcd965..1ff9ce4 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -3434,6 +3434,7 @@ Static Void program_loader()
             V.ll = read_bit_string(13, &V);
         }
         fclose(lib_tape);
+        lib_tape = NULL;
     }
     /*program loading completed:*/
     typ_address(mcpe);
-- 
2.43.0


From eee7d15740bcb52489c69762f517140ac2d840fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:23 +0000
Subject: [PATCH 40/53] fix: library tape with a procedure number above 50, as
 timeofday.lib, was rejected

---
 compiler/x1algc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 1ff9ce4..3b1ce13 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -3399,7 +3399,7 @@ Static Void program_loader()
             i              = read_bit_string(13, &V); /*for MCP number*/
             if (verbose_tape)
                 printf("Reading MCP %d, length %d\n", i, V.ll);
-            if (i > 50) {
+            if (i > 127) {
                 printf("Bad MCP number %d\n", i);
                 exit(EXIT_FAILURE);
             }
-- 
2.43.0


From ad90c83e12551a1fb963905e223747da7f7a0825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:25 +0000
Subject: [PATCH 41/53] fix: skipping a library procedure stopped at two zero
 heptades inside of it

---
 compiler/x1algc.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 3b1ce13..9c381e6 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -3419,14 +3419,10 @@ Static Void program_loader()
                     printf("Tape %s: skipping unneeded procedure %d\n",
                            P_argv[optind-1], i);
                 }
-                do {
-                    do {
-                        if (EOF == (V.ll = read_byte_from_lib_tape()))
-                            break;
-                    } while (V.ll != 0);
-                    if (EOF == (V.ll = read_byte_from_lib_tape()))
-                        break;
-                } while (V.ll != 0);
+                /*two zero heptades may also occur inside of a procedure*/
+                for (; V.ll > 0; V.ll--)
+                    read_binary_word(&V);
+                test_bit_stock();
             }
             prepare_read_bit_string3(&V);
             if (feof(lib_tape))
-- 
2.43.0


From 34d4df4f47e4b8686f316f67d5bbd1f975fb2140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:28 +0000
Subject: [PATCH 42/53] fix: access outside the OPC table on a wrong library
 tape

---
 compiler/x1algc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 9c381e6..91476ce 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -2827,10 +2827,12 @@ Local int read_byte_from_lib_tape()
     int w;
     if (binary_lib_tape) {
         w = getc(lib_tape);
+        if (w == EOF)
+            return EOF;
     } else if (fscanf(lib_tape, "%d", &w) <= 0) {
         return EOF;
     }
-    if (w >= 128) {
+    if (w < 0 || w >= 128) {
         printf("Stray punch on library tape, current offset is %d\n", (int)ftell(lib_tape));
         exit(EXIT_FAILURE);
     }
@@ -3153,6 +3155,8 @@ Local int read_binary_word(struct LOC_program_loader *LINK)
         else {
             w -= 366;
             /*011xxxxxxx*/
+            if (w > 105)
+                stop(107, "Bad code on library tape");
         }
         return (opc_table[w]);
     } /*0*/
-- 
2.43.0


From 018f0118498ee0abe69cf0fd24879a09a4cb45e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:54 +0000
Subject: [PATCH 43/53] fix: XEEN(0) gave zero instead of the whole console
 word

---
 simulator/opcodes.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simulator/opcodes.cpp b/simulator/opcodes.cpp
index 37cb603..b3e7062 100644
--- a/simulator/opcodes.cpp
+++ b/simulator/opcodes.cpp
@@ -1081,7 +1081,11 @@ bool Processor::call_opc(unsigned opc)
 
     case OPC_XEEN: {
         // Read console switches.
+        // Zero argument means all bits.
         auto bitmask = integer_to_x1(stack.pop_integer());
+        if (bitmask == 0) {
+            bitmask = BITS(27);
+        }
         stack.push_int_value(machine.read_console_switches(std::cin, bitmask));
         break;
     }
-- 
2.43.0


From c8d124cecdeae8f84a95dbffd2487d03e699055c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:32 +0000
Subject: [PATCH 44/53] fix: library next to x1sim was not found when x1sim is
 called as ./x1sim or bin/x1sim

---
 simulator/machine.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index 428bdbc..dc3785c 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -664,9 +664,11 @@ void Machine::find_default_library(const char *argv0)
     }
 
     // Try ../lib/x1algol.lib relative to the x1sim location.
-    auto parent_path = std::filesystem::path(argv0).parent_path().parent_path();
+    auto parent_path = std::filesystem::path(argv0).parent_path();
     if (parent_path == "") {
         parent_path = "/usr/local";
+    } else {
+        parent_path /= "..";
     }
 
     const auto relative_lib = parent_path / "lib/x1algol.lib";
-- 
2.43.0


From 587e0e7cac53192f2003162b94107f9447398f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:34 +0000
Subject: [PATCH 45/53] fix: unknown options of the compiler were ignored

---
 compiler/x1algc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 91476ce..157e1b0 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -3536,7 +3536,7 @@ int main(int argc, char *argv[])
         prog_name++;
     }
     for (;;) {
-        switch (getopt(argc, argv, "hbvf")) {
+        switch (getopt(argc, argv, "hbv")) {
         case EOF:
             break;
         case 'h':
@@ -3558,6 +3558,9 @@ int main(int argc, char *argv[])
         case 'v':
             verbose_tape = true;
             continue;
+        default:
+            fprintf(stderr, "Try '%s -h' for more information.\n", prog_name);
+            exit(EXIT_FAILURE);
         }
         break;
     }
-- 
2.43.0


From af78fc6333bb8f5ddecc0e6bfdcdd63775e08562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:59 +0000
Subject: [PATCH 46/53] fix: running an object file failed without a library,
 which is not needed

---
 simulator/machine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/simulator/machine.cpp b/simulator/machine.cpp
index dc3785c..f52c04f 100644
--- a/simulator/machine.cpp
+++ b/simulator/machine.cpp
@@ -646,6 +646,11 @@ void Machine::print_int_or_real(std::ostream &out, long double x)
 //
 void Machine::find_default_library(const char *argv0)
 {
+    if (std::filesystem::path(input_files[0]).extension() == ".x1") {
+        // No library needed for object program.
+        return;
+    }
+
     // Try X1ALGOL_LIB from enviromnent first.
     auto const env_lib = std::getenv("X1ALGOL_LIB");
     if (env_lib != nullptr) {
-- 
2.43.0


From 3a2d6fa99313c188fe81dbef1fadca2ff64e8bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:46 +0000
Subject: [PATCH 47/53] fix: Z in the tenth or a later position of a name ended
 the name (Pascal compiler)

---
 compiler/x1algol.pas | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/x1algol.pas b/compiler/x1algol.pas
index 043bee8..93ec479 100644
--- a/compiler/x1algol.pas
+++ b/compiler/x1algol.pas
@@ -321,7 +321,7 @@ begin {body of read_until_next_delimiter}
                 begin marker:= fnw mod d6 * d21;
                   fnw:= fnw div d6 + 63 * d21
                 end;
-                while dl < 62 do read_next_symbol;
+                while dl < 63 do read_next_symbol;
               end;
          goto 4;
        end;
-- 
2.43.0


From 445d0c87f4708864fd1adb689100b10fa7f39990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:49 +0000
Subject: [PATCH 48/53] fix: source lines were cut at 255 bytes (Pascal
 compiler)

---
 compiler/x1algol.pas | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/compiler/x1algol.pas b/compiler/x1algol.pas
index 93ec479..d66436c 100644
--- a/compiler/x1algol.pas
+++ b/compiler/x1algol.pas
@@ -58,16 +58,25 @@ var tlsc,plib,flib,klib,nlib,
 
     ii: integer;
 
-    input_line: shortstring;
+    input_line: ansistring;
     input_pos: integer;
     input_eof_seen: Boolean;
 
+procedure write_line(title: shortstring);
+var i: integer;
+begin
+    write(title);
+    for i := 1 to length(input_line) do
+        write(input_line[i]);
+    writeln
+end;
+
 procedure stop(n: integer);
 {emulation of a machine instruction}
 begin writeln(output);
   writeln(output,'*** stop ',n div d5:1,'-',n mod d5:2,' ***');
   if not eof(input) then begin
-      writeln('Line: ', input_line);
+      write_line('Line: ');
       writeln('      ', '^' : input_pos);
   end;
   halt
@@ -78,7 +87,7 @@ var i: integer;
     ch: char;
 begin
     if input_pos >= length(input_line) then begin
-        writeln('Bad input: ', input_line);
+        write_line('Bad input: ');
         halt
     end;
     input_pos := input_pos + 1;
@@ -147,7 +156,7 @@ begin
             if i = 168 then exit(89); {⏨}
         end;
     end;
-    writeln('Bad input: ', input_line);
+    write_line('Bad input: ');
     halt
 end;
 
-- 
2.43.0


From e6bcfec4aa7a475dfbb3bcaf07587783ecfda62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:07 +0000
Subject: [PATCH 49/53] fix: a semicolon inside a string in a switch list or
 array bound ended the declaration

---
 compiler/x1algc.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 157e1b0..00b68e7 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -755,6 +755,18 @@ Local Void block_introduction(struct LOC_prescan *LINK)
     augment_prescan_list(LINK);
 } /*block_introduction*/
 
+Local Void skip_string()
+{
+    do {
+        if (dl == 102) /*|<*/
+            qc++;
+        if (dl == 103) /*|>*/
+            qc--;
+        if (qc > 0)
+            read_next_symbol();
+    } while (qc != 0);
+} /*skip_string*/
+
 Static Void prescan()
 { /*body of prescan*/
     /*HK*/
@@ -819,14 +831,7 @@ _L3:
         goto _L1;
     }
     if (dl == 102) { /*|<*/
-        do {
-            if (dl == 102) /*|<*/
-                qc++;
-            if (dl == 103) /*|>*/
-                qc--;
-            if (qc > 0)
-                read_next_symbol();
-        } while (qc != 0);
+        skip_string();
         goto _L2;
     }
     if (dl == 104) { /*begin*/
@@ -885,6 +890,10 @@ _L4:
 _L5:
     read_until_next_delimiter();
 _L6:
+    if (dl == 102) { /*|<*/
+        skip_string(); /*may contain a semicolon*/
+        goto _L5;
+    }
     if (dl != 91) /*;*/
         goto _L4;
     goto _L2;
-- 
2.43.0


From f67cc6b9f8f9f7b86e4d4520ece860cd2e035659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:19 +0000
Subject: [PATCH 50/53] fix: a semicolon inside a string in a switch list or
 array bound ended the declaration (Pascal compiler)

---
 compiler/x1algol.pas | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/compiler/x1algol.pas b/compiler/x1algol.pas
index d66436c..cf94724 100644
--- a/compiler/x1algol.pas
+++ b/compiler/x1algol.pas
@@ -450,6 +450,13 @@ procedure prescan;                                                 {HK}
     augment_prescan_list
   end {block_introduction};
 
+  procedure skip_string;
+  begin repeat if dl = 102 {|<} then qc:= qc + 1;
+          if dl = 103 {|>} then qc:= qc - 1;
+          if qc > 0 then read_next_symbol
+        until qc = 0
+  end {skip_string};
+
 begin {body of prescan}
   plib:= plie; store[plie]:= plie - 1; tlsc:= tlib;
   bc:= 0; mbc:= 0; qc:= 0; rht:= 0; vht:= 0;
@@ -479,12 +486,7 @@ begin {body of prescan}
          goto 1
        end;
   if dl = 102 {|<}
-  then begin repeat if dl = 102 {|<} then qc:= qc + 1;
-               if dl = 103 {|>} then qc:= qc - 1;
-               if qc > 0 then read_next_symbol
-             until qc = 0;
-         goto 2
-       end;
+  then begin skip_string; goto 2 end;
   if dl = 104 {begin}
   then begin fill_t_list(dl);
          if bflag <> 0 then goto 1;
@@ -523,7 +525,9 @@ begin {body of prescan}
              goto 5;
    if dl > 117 {false} then stop(8);
 5: read_until_next_delimiter;
-6: if dl <> 91 {;} then goto 4;
+6: if dl = 102 {|<}
+   then begin skip_string {may contain a semicolon}; goto 5 end;
+   if dl <> 91 {;} then goto 4;
    goto 2;
 7:
 end {prescan};
-- 
2.43.0


From 1b49c6e658910bbd87eb90c27c0ecf6c755dce94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:17 +0000
Subject: [PATCH 51/53] fix: arrays declared after an own array in an inner
 block were not given storage

---
 compiler/x1algc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 00b68e7..27d771e 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -2704,7 +2704,9 @@ _L1102: /*static bounds, constants only:*/
         } while (arrd != arra);
         read_until_next_delimiter(); /*,*/
     } while (dl == 87);
-    goto _L91; /*;*/
+    if (dl == 91) /*;*/
+        goto _L1; /*arrays declared next are to be positioned as well*/
+    goto _L91;
 _L1103:        /*dynamic bounds,arithmetic expressions:*/
     ic  = 0;
     aic = 0;
-- 
2.43.0


From aef03aed1fbb21db5f92ed34f152e971a83c64d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:20 +0000
Subject: [PATCH 52/53] fix: arrays declared after an own array in an inner
 block were not given storage (Pascal compiler)

---
 compiler/x1algol.pas | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/x1algol.pas b/compiler/x1algol.pas
index cf94724..ae3969e 100644
--- a/compiler/x1algol.pas
+++ b/compiler/x1algol.pas
@@ -1600,7 +1600,8 @@ begin {body of main scan}                                          {EL}
         until arrd = arra;
         read_until_next_delimiter
       until dl <> 87{,};
-      goto 91{;};
+      if dl = 91 {;} then goto 1 {arrays declared next are to be positioned as well};
+      goto 91;
 1103: {dynamic bounds,arithmetic expressions:}
       ic:= 0; aic:= 0; id:= 0;
       repeat aic:= aic + 1;
-- 
2.43.0


From 493d3b67938bcb2fe1a83ac7f252807602ae23bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:47 +0000
Subject: [PATCH 53/53] fix: a parameter named many times in value parts
 overflowed its entry in the name list

---
 compiler/x1algc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/x1algc.c b/compiler/x1algc.c
index 27d771e..4a093a0 100644
--- a/compiler/x1algc.c
+++ b/compiler/x1algc.c
@@ -2763,7 +2763,7 @@ _L1122:
     do {
         read_until_next_delimiter();
         look_for_name();
-        store[nlib + nid] += spe;
+        store[nlib + nid] |= spe; /*a repeated specification changes nothing*/
     } while (dl == 87);
     goto _L1121;
 _L1123:                           /*specification part:*/
@@ -2797,7 +2797,7 @@ _L1123:                           /*specification part:*/
         goto _L1122;
 _L1124:
     look_for_name();
-    store[nlib + nid] += spe;
+    store[nlib + nid] |= spe;
     if (store[nlib + nid] >= d26) {
         id                = store[nlib + nid] - d26;
         id                = id / d17 * d17 + (id & (d16 - 1));
-- 
2.43.0

