From 9bc306919e00f531f023169903c6fe91fde8646b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 01/45] fix: array splice/append of a prefix of itself over its
 whole length

splice(0, len, view of a prefix) and append(len, view of a prefix) compared only
the start of the source with the destination, so replacing the whole array with
a proper prefix of itself left the array unchanged.
---
 include/fu/vec.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fu/vec.h b/include/fu/vec.h
index caacbdb..ed8fa05 100644
--- a/include/fu/vec.h
+++ b/include/fu/vec.h
@@ -961,7 +961,7 @@ struct fu_VEC
             MUT_mid(idx, del, src_size);
             CPY_ctor_range(new_data + idx, src_data, src_size);
         }
-        else if (idx || del != old_size || src_data != old_data) {
+        else if (idx || del != old_size || src_data != old_data || src_size != old_size) {
             UNSAFE__self_splice(
                 idx, del, src_data, src_size);
         }
@@ -1022,7 +1022,7 @@ struct fu_VEC
             MUT_back(del, src_size);
             CPY_ctor_range(new_data + idx, src_data, src_size);
         }
-        else if (del != old_size || src_data != old_data) {
+        else if (del != old_size || src_data != old_data || src_size != old_size) {
             UNSAFE__self_splice(
                 idx, del, src_data, src_size);
         }
-- 
2.43.0


From e094753f8d0a07fd10a109bcee363fb1155755e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:56 +0000
Subject: [PATCH 02/45] fix: task stack pop asserted on a pointer it had not
 validated yet

try_pop reads the link of a node another thread may have popped and reused
meanwhile; its compare_exchange then fails, but in debug builds tag() aborted
the program on the garbage link first. push still asserts on its own pointer.
---
 include/lockfree/stack.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/lockfree/stack.hpp b/include/lockfree/stack.hpp
index 7706349..0520d40 100644
--- a/include/lockfree/stack.hpp
+++ b/include/lockfree/stack.hpp
@@ -37,8 +37,12 @@ namespace lockfree
             //   so we use the rest for a u20 ABA tag.
 
                                             //            ####    ####
-            assert(!(u64(ptr) & ~PTR_4x));  // e.g. 0x0000fffffffffff0
+                                            // e.g. 0x0000fffffffffff0
                                             //        ####    ####
+            //
+            // No assertions here -
+            //  try_pop may have read the pointer off a node that someone else
+            //   popped and reused, its compare_exchange is about to fail.
 
             return  (u64(ptr)    >>     ALIGN_BITS)
                  | ((lastID + 1) << (48-ALIGN_BITS));
-- 
2.43.0


From e799b6d54b4ecb5a8350fa7b234c79d038b6bd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:48 +0000
Subject: [PATCH 03/45] fix: sole owner check did not synchronize with the
 release of the other owners

Reusing an array's storage in place after another thread dropped the last
other reference was a data race: the relaxed load does not order that
thread's last reads before the in-place writes.
---
 include/fu/mem/arc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fu/mem/arc.h b/include/fu/mem/arc.h
index dcd15fa..577c8a3 100644
--- a/include/fu/mem/arc.h
+++ b/include/fu/mem/arc.h
@@ -56,7 +56,7 @@ struct alignas(16) fu_ARC
 
     fu_INL bool unique() const noexcept {
         return 0 == m_arc.load(
-            std::memory_order_relaxed );
+            std::memory_order_acquire );
     }
 };
 
-- 
2.43.0


From 808268a56bc4a3f66ccf8b46c1076460ff977fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:26 +0000
Subject: [PATCH 04/45] fix: hash map if_ref(key, visit, else) did not compile
 at any call

---
 lib/hash.fu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hash.fu b/lib/hash.fu
index 8ab5fff..1ce6e32 100644
--- a/lib/hash.fu
+++ b/lib/hash.fu
@@ -542,7 +542,7 @@ pub inline fn ref(ref map: Map(:<Key>, _, _), key: Key, visit = |ref value| valu
 
 pub inline fn if_ref(ref map: Map(:<Key>, _, _), key: Key, visit, else!?)
 {
-    return map.if_ref(:key, hash: map.hash(key), fn visit, fn else);
+    return map.if_ref(:key, hash: map.hash(key), :fn visit, :fn else);
 }
 
 
-- 
2.43.0


From fbf9a7c5c24cfa70daf60361199a9c050ade9c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:46 +0000
Subject: [PATCH 05/45] fix: BitSet add_range dropped members above the end of
 the range in its last byte

---
 lib/BitSet.fu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/BitSet.fu b/lib/BitSet.fu
index b081400..ef0cf88 100644
--- a/lib/BitSet.fu
+++ b/lib/BitSet.fu
@@ -145,7 +145,7 @@ pub fn add_range(using ref _: BitSet, end!: int)
         do  tail |= 1 << (i & 7).u8;
         while (++i < end);
 
-        _data[floorBytes] = tail;
+        _data[floorBytes] |= tail;
     }
 }
 
-- 
2.43.0


From 16cc0cd46c2d9b3187de5ea918854e9f04beed9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:46 +0000
Subject: [PATCH 06/45] fix: BitSet has_missing read past the end of a shorter
 right-hand set

---
 lib/BitSet.fu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/BitSet.fu b/lib/BitSet.fu
index ef0cf88..6a88077 100644
--- a/lib/BitSet.fu
+++ b/lib/BitSet.fu
@@ -215,7 +215,7 @@ pub fn has_missing(a: BitSet, b: BitSet)
     if (a._data.len < b._data.len)
         return true;
 
-    for (mut i = 0; i < a._data.len; i++)
+    for (mut i = 0; i < b._data.len; i++)
         if (~a._data[i] & b._data[i])
             return true;
 
-- 
2.43.0


From b5aba85d5507992fe4f293720a3b8e5a985121bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:38 +0000
Subject: [PATCH 07/45] fix: sorted set inter, diff and counted set try_decr
 did not compile at any call

---
 src/flat.fu | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/flat.fu b/src/flat.fu
index bba6b53..5cfd386 100644
--- a/src/flat.fu
+++ b/src/flat.fu
@@ -305,7 +305,7 @@ pub fn has_inter(l: Set($T), r: Set($T))
     return false;
 }
 
-pub fn inter(l: Set($T), r: Set($T))
+pub fn inter(l: Set($T), r: Set($T)): Set($T)
 {
     // First, we'll try to return a copy of left -
     //  can't do that if its the longer of the two,
@@ -327,7 +327,7 @@ pub fn inter(l: Set($T), r: Set($T))
         //
         if (!useResult) {
             useResult = true;
-            result = l.slice(0, left);
+            result = l.keys_asc.slice(0, left);
         }
     },
 
@@ -339,7 +339,7 @@ pub fn inter(l: Set($T), r: Set($T))
             result ~= item;
     });
 
-    return useResult ? Set(keys_asc: result) : l;
+    return useResult ? [ keys_asc: result ] : l;
 }
 
 pub fn union(l: Set($T), r: Set($T)): Set($T)
@@ -385,7 +385,7 @@ pub fn diff(from: Set($T), remove: Set($T)): Set($T)
     {
         if (!useResult) {
             useResult = true;
-            result = from.slice(0, right);
+            result = from.keys_asc.slice(0, right);
         }
     },
 
@@ -554,7 +554,7 @@ pub fn incr !T(using mut ref _: CountedSet(T), key: T) {
 }
 
 pub fn try_decr !T(using mut ref _: CountedSet(T), key: T) {
-    counts.if(key): |count, remove| {
+    counts.if(key): |ref count, remove| {
         if !(--count) {
             remove()
             return true
-- 
2.43.0


From 5e9610c9c850ffba971c7969dfa43404060752b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:05 +0000
Subject: [PATCH 08/45] fix: utf8 decoding read past the end of a string
 truncated inside its last sequence

---
 lib/unicode.fu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/unicode.fu b/lib/unicode.fu
index 0759b70..42edde0 100644
--- a/lib/unicode.fu
+++ b/lib/unicode.fu
@@ -60,7 +60,7 @@ fn codepoints(utf8: byte[..], each, error?)
 
                 //
                 let i1 = i + extra;
-                if (utf8.len < i1) {
+                if (utf8.len <= i1) {
                     break :BREAK_ON_ERROR;
                 }
 
-- 
2.43.0


From 8cc3650f159b3c77221b973eb4e4a4b22d778204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:59 +0000
Subject: [PATCH 09/45] fix: BitSet add_range asked a larger set to grow to a
 smaller size, an assertion failure in debug builds

---
 lib/BitSet.fu | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/BitSet.fu b/lib/BitSet.fu
index 6a88077..61971c2 100644
--- a/lib/BitSet.fu
+++ b/lib/BitSet.fu
@@ -133,7 +133,9 @@ pub fn add_range(using ref _: BitSet, end!: int)
     let floorBytes  =  end      >> 3 | no_neg;
     let ceilBytes   = (end + 7) >> 3 | no_neg;
 
-    _data.grow(ceilBytes);
+    if (_data.len < ceilBytes)
+        _data.grow(ceilBytes);
+
     for (mut i = 0; i < floorBytes; i++)
         _data[i] = 0xff;
 
-- 
2.43.0


From 8ceab49739bde5dba00de0dec12e31befa229f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:14 +0000
Subject: [PATCH 10/45] fix: removing an empty range at the end of an array
 asserted in debug builds

---
 include/fu/vec_range.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fu/vec_range.h b/include/fu/vec_range.h
index 212c733..0b9fa24 100644
--- a/include/fu/vec_range.h
+++ b/include/fu/vec_range.h
@@ -345,7 +345,7 @@ struct vec_range_mut
 
         if constexpr (fu_MAYBE_POS(idx))
         {
-            assert(idx >= 0 && idx < old_size);
+            assert(idx >= 0 && idx <= old_size);
             idx = idx > 0 ? idx : 0;
             idx = idx < old_size ? idx : old_size;
         }
-- 
2.43.0


From 9ed2e59da19fc8eda9b5a2d34addfc60118d9f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:41 +0000
Subject: [PATCH 11/45] fix: trim stripped every non-ASCII byte, comparing
 bytes as signed

---
 lib/ascii.fu   | 4 ++--
 src/helpers.fu | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/ascii.fu b/lib/ascii.fu
index 6aba4f6..d524327 100644
--- a/lib/ascii.fu
+++ b/lib/ascii.fu
@@ -61,12 +61,12 @@ fn trim(str: string or byte[..])
 {
     mut start = 0;
     for (; start < str.len; start++)
-        if (str[start] > ' ')
+        if (str[start].u32 > ' '.u32)
             break;
 
     mut end = str.len;
     for (; end --> start; )
-        if (str[end] > ' ')
+        if (str[end].u32 > ' '.u32)
             break;
 
     return str[start .. end + 1];
diff --git a/src/helpers.fu b/src/helpers.fu
index ed795c6..e86feeb 100644
--- a/src/helpers.fu
+++ b/src/helpers.fu
@@ -197,9 +197,9 @@ fn print(arr: string[..]) {
 fn trim(str: string)
 {
     for (mut first = 0; first < str.len; first++)
-        if (str[first] > ' ')
+        if (str[first].u32 > ' '.u32)
             for (mut last = str.len; last-- >= first; )
-                if (str[last] > ' ')
+                if (str[last].u32 > ' '.u32)
                     return str.slice(first, last + 1);
 
     return "";
-- 
2.43.0


From 50821fc01cf72a4e31dd75be352f24d0ee175446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:35 +0000
Subject: [PATCH 12/45] fix: shuffle did not compile at any call

---
 lib/shuffle.fu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/shuffle.fu b/lib/shuffle.fu
index 72f020f..c70db1c 100644
--- a/lib/shuffle.fu
+++ b/lib/shuffle.fu
@@ -7,7 +7,7 @@ inline fn xorshift32(mut x: u32)
     return x;
 }
 
-pub fn shuffle(ref arr: T[..], ref seed?: u32)
+pub fn shuffle(ref arr: <T>[..], ref seed?: u32)
 {
     seed ||= arr.len.u32;
 
-- 
2.43.0


From bc78edbf4a39fae0d606d8e563d44eac505ca4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:35 +0000
Subject: [PATCH 13/45] fix: path normalize dropped pairs of leading parent
 steps and the root, join of an empty path made an absolute one

---
 lib/path.fu | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lib/path.fu b/lib/path.fu
index 229f074..c74e96c 100644
--- a/lib/path.fu
+++ b/lib/path.fu
@@ -51,15 +51,23 @@ fn normalize(p: string): string
             path.splice(i, 1);
     }
 
+    let root = p.starts(with: '/');
+
     for (mut i = 1; i < path.len; i++) {
-        if (path[i] == "..")
+        if (path[i] == ".." && path[i - 1] != "..")
         {
-            path.splice(--i, 2);
-            if (i) i--;
+            // Nothing above the root.
+            if (i == 1 && root)
+                path.splice(i--, 1);
+            else
+            {
+                path.splice(--i, 2);
+                if (i) i--;
+            }
         }
     }
 
-    return path.join('/');
+    return root && path.len == 1 ? "/" : path.join('/');
 }
 
 fn relative(from: string, to: string): string
@@ -90,6 +98,6 @@ fn relative(from: string, to: string): string
 fn join(a: string, b: string): string
 {
     return normalize (b.starts  (with: '/') ?           b
-                    : a.ends    (with: '/') ? a       ~ b
+            : !a    || a.ends    (with: '/') ? a       ~ b
                                             : a ~ '/' ~ b);
 }
-- 
2.43.0


From 1b8e972875ca180377448b7616884a3e216e9a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:13 +0000
Subject: [PATCH 14/45] fix: prefix -% crashed the compiler, and a literal next
 to an i64 or u64 was emitted as another C++ type

---
 src/codegen.fu | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/codegen.fu b/src/codegen.fu
index 7bf49d2..7b75f47 100644
--- a/src/codegen.fu
+++ b/src/codegen.fu
@@ -2608,6 +2608,9 @@ pub fn cpp_codegen(
                 if (id.hasIdentifierChars)
                     return emitFunctionCall(id);
 
+                if (args.len == 1)
+                    return emitPrefixOp(id);
+
                 return emitBinaryOp(id);
             }
 
@@ -2855,7 +2858,11 @@ pub fn cpp_codegen(
 
             if (base == "u64" || base == "i64") {
                 if (!src.has('l'))
-                    return src ~ "ll";
+                    src ~= "ll";
+
+                // The literal's own type may be another than int64_t.
+                if !(mode & M_ENUM_DECL)
+                    return typeAnnotBase(type) ~ "(" ~ src ~ ")";
             }
             else if (base != "u32" && base != "i32")
             {
-- 
2.43.0


From 7b72e3aa2ea0c7faca5cee7311e0e766cbdf31ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:26 +0000
Subject: [PATCH 15/45] fix: wrapping operators did not wrap in optimized
 builds, and u16 multiplication overflowed a signed int

---
 src/build.fu | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/build.fu b/src/build.fu
index abc21b5..faf6d5a 100644
--- a/src/build.fu
+++ b/src/build.fu
@@ -403,6 +403,10 @@ pub fn build(
     //  not sure why, since it has observable side-effects.
     O_lvl ~= "-fno-math-errno ";
 
+    // +% -% *% must wrap on signed integers,
+    //  and u16 * u16 promotes to a signed int.
+    O_lvl ~= "-fwrapv ";
+
     // Debug symbols.
     if (bscheme & "debuggable")
         O_lvl ~= "-g ";
-- 
2.43.0


From 13a1d3af23700f6b738d44410d3acb8430ad5d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:23 +0000
Subject: [PATCH 16/45] fix: an 8 or 16 bit sum, product or shift used as a
 condition was tested before wrapping to its type

---
 src/codegen.fu | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/codegen.fu b/src/codegen.fu
index 7b75f47..e1393aa 100644
--- a/src/codegen.fu
+++ b/src/codegen.fu
@@ -2530,8 +2530,10 @@ pub fn cpp_codegen(
         {
             args.len == 2 || BUG("args.len != 2");
 
-            if (binSkipParens(op, mode) && !ooe_header)
-                return ARG_orZeroIfVoid(0) ~ " " ~ op ~ " " ~ ARG_orZeroIfVoid(1);
+            if (binSkipParens(op, mode) && !ooe_header) {
+                let src = ARG_orZeroIfVoid(0) ~ " " ~ op ~ " " ~ ARG_orZeroIfVoid(1);
+                return mode & M_STMT ? src : unpromote(src);
+            }
 
             return ooeWrap(unpromote("(" ~ ARG_orZeroIfVoid(0) ~ " " ~ op ~ " " ~ ARG_orZeroIfVoid(1) ~ ")"));
         }
-- 
2.43.0


From 0d428b05ca21fd5b89af885076835d1d506d03b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:31 +0000
Subject: [PATCH 17/45] fix: negative octal literals did not compile

---
 src/codegen.fu | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/codegen.fu b/src/codegen.fu
index e1393aa..1298cd0 100644
--- a/src/codegen.fu
+++ b/src/codegen.fu
@@ -2845,8 +2845,10 @@ pub fn cpp_codegen(
             }
         }
 
-        if (src.starts(with: "0o"))
-            src.splice(1, 1);
+        // Mind the sign.
+        let octal = src.find("0o");
+        if (octal >= 0)
+            src.splice(octal + 1, 1);
 
         if (base.starts(with: 'i') || base.starts(with: 'u'))
         {
-- 
2.43.0


From 67b26b8b0704c3a1be4e07f652370eb90fb892c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:23 +0000
Subject: [PATCH 18/45] fix: a do-while loop with an empty body, a label or a
 nested loop as its body was emitted as broken C++

---
 src/codegen.fu | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/codegen.fu b/src/codegen.fu
index 1298cd0..9db1eab 100644
--- a/src/codegen.fu
+++ b/src/codegen.fu
@@ -3314,7 +3314,9 @@ pub fn cpp_codegen(
                 ? post ~ ", " ~ post_cond
                 : post_cond;
 
-            return "do" ~ body ~ _indent ~ "while (" ~ post_cond ~ ")" ~ breakLabel;
+            // Always with curlies, the body may well be empty.
+            return "do" ~ _indent ~ "{" ~ body ~ _indent ~ "}"
+                        ~ _indent ~ "while (" ~ post_cond ~ ");" ~ breakLabel;
         }
 
         if (init || post || !pre_cond)
-- 
2.43.0


From 2b9c649e431b95f4fcf075e19810f51750fcebae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:23 +0000
Subject: [PATCH 19/45] fix: breaking out of a labelled loop that is the whole
 body of another loop also left that other loop

---
 src/codegen.fu | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/codegen.fu b/src/codegen.fu
index 9db1eab..965d3d7 100644
--- a/src/codegen.fu
+++ b/src/codegen.fu
@@ -1198,6 +1198,7 @@ pub fn cpp_codegen(
                 || nodes.len != 1 || count != 1
                 || labelUsed
                 || src.has('{') || src.has("if")
+                || src.has(":;") // trailing break label
                 || nodes.only.kind == "pragma")
         {
             mut gnuOpen = "";
-- 
2.43.0


From cdf396f3e0c52aec3ca736edc23a973040be558f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:23 +0000
Subject: [PATCH 20/45] fix: a labelled break with a value out of the
 initializer of a variable crashed the compiler

---
 src/codegen.fu | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/codegen.fu b/src/codegen.fu
index 965d3d7..fc0962b 100644
--- a/src/codegen.fu
+++ b/src/codegen.fu
@@ -1085,6 +1085,10 @@ pub fn cpp_codegen(
 
                 if (!n.items.exprOK)
                     return false;
+
+                // Inits are not among the items.
+                if (k == "letdef" && !n.target.solved.items.exprOK)
+                    return false;
             }
 
             return true;
-- 
2.43.0


From 21addf028ae8b928572c5e0489c5638afa042a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:23 +0000
Subject: [PATCH 21/45] fix: an if whose body is discarded once solved, such as
 a lone defer:err, crashed the compiler

---
 src/solver.fu | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver.fu b/src/solver.fu
index 6b36edf..7bea6ad 100644
--- a/src/solver.fu
+++ b/src/solver.fu
@@ -4405,7 +4405,9 @@ pub fn solve(
                 {
                     makeNote(N_UnusedAndOr);
                     items.pop();
-                    _current_fn.postdom == postdom0 || BUG();
+
+                    // Discarded after being solved, e.g. a trailing defer:err.
+                    _current_fn.postdom = postdom0;
                 }
                 ////////////////////////////////////////////////////////////////
 
-- 
2.43.0


From 938bc936a8392055d77f9b8c17e7d63e878f94fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:23 +0000
Subject: [PATCH 22/45] fix: instances of templates differing only in a callee,
 a jump target, a kind of defer or a missing operand were merged

---
 src/solver.fu | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/solver.fu b/src/solver.fu
index 7bea6ad..30d24ea 100644
--- a/src/solver.fu
+++ b/src/solver.fu
@@ -15732,13 +15732,19 @@ pub fn solve(
         fn computeFnSighash(shadow fn_target: Target)
         {
             mut hash: tea::TEA;
+            mut enclosing: Helpers[];
 
             fn sighashNode(n: SolvedNode)
             {
-                // Ignore empties and (mostly) ignore literals,
-                //   type hashed elsewhere, only hash a value if any.
+                // (Mostly) ignore empties and literals, type hashed elsewhere,
+                //  only hash the kind - so that empties keep their place - and a value if any.
                 if (n.kind.isImmediatelyDiscardable)
                 {
+                    hash.hash(
+                        tea::TEA(
+                            n.kind.u32,
+                            n.value.len.u32));
+
                     if (n.value)
                         hash.hash(n.value);
 
@@ -15751,9 +15757,25 @@ pub fn solve(
                         n.kind.u32, // TODO FIX adding/removing kinds will thrash all sighashes
                         n.items.len.u32));
 
+                // What tells apart a `break` from a `continue`,
+                //  or one labelled jump from another.
+                //
+                if (n.kind == "jump")
+                    hash.hash(enclosing.find(n.helpers).u32);
+
+                // And a `defer:ok` from a `defer:err`.
+                if (n.kind == "defer" && n.value)
+                    hash.hash(n.value);
+
+                let enclosing0 = enclosing.len;
+                if (n.kind == "block" || n.kind == "loop")
+                    enclosing ~= n.helpers;
+
                 for (mut i = 0; i < n.items.len; i++)
                     sighashNode(n.items[i]);
 
+                enclosing.shrink(enclosing0);
+
                 if (n.kind == "letdef")
                 {
                     sighashNode(n.target.solved);
@@ -15814,15 +15836,19 @@ pub fn solve(
                         {
                             // TODO FIX not great for either, esp enumvs
                             hash.hash(o.name);
+                            if (k == "enumv")
+                                hash.hash(n.type);
                         }
                         else if (k == "field")
                         {
                             let offset = field_unpackOffset(o).memberFlatOffset;
                             hash.hash(offset.u64);
+                            hash.hash(o.name);
                         }
                         else if (k == "var")
                         {
                             // Global variables TODO CACHE this somehow
+                            hash.hash(o.name);
                             sighashNode(o.solved);
                         }
                         else if (k != "type" && k != "definit")
@@ -15884,6 +15910,7 @@ pub fn solve(
                     //   won't clash at link time.
                     //
                     hash.hash(shortModuleName);
+                    hash.hash(fn_target.name);
 
                     // Within the same module we can still end up with two fns
                     //  with the same name and identical signatures,
-- 
2.43.0


From 5d37260678b79037a57b62360cc3a85bc78ba16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:58 +0000
Subject: [PATCH 23/45] fix: instances of templates differing only in the type
 of a conversion or a constructor were merged

---
 src/solver.fu | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/solver.fu b/src/solver.fu
index 30d24ea..cefb1ca 100644
--- a/src/solver.fu
+++ b/src/solver.fu
@@ -15836,8 +15836,10 @@ pub fn solve(
                         {
                             // TODO FIX not great for either, esp enumvs
                             hash.hash(o.name);
-                            if (k == "enumv")
-                                hash.hash(n.type);
+
+                            // Not hashed elsewhere if just passing through,
+                            //  e.g. `x.i8.i32` vs `x.u8.i32`.
+                            hash.hash(n.type);
                         }
                         else if (k == "field")
                         {
@@ -15851,7 +15853,11 @@ pub fn solve(
                             hash.hash(o.name);
                             sighashNode(o.solved);
                         }
-                        else if (k != "type" && k != "definit")
+                        else if (k == "type" || k == "definit")
+                        {
+                            hash.hash(n.type);
+                        }
+                        else
                         {
                             BUG("computeFnSighash: no support for kind=" ~ k);
                         }
-- 
2.43.0


From 87b198c3ba22f69bd5c143482e0dc6a3bee8c7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:26 +0000
Subject: [PATCH 24/45] fix: headers found through -I, of the runtime and
 written by pragma emit did not count for the object cache

---
 lib/Errno.fu |   2 +
 src/build.fu | 301 +++++++++++++++++++++++++--------------------------
 2 files changed, 150 insertions(+), 153 deletions(-)

diff --git a/lib/Errno.fu b/lib/Errno.fu
index c16391f..aacd840 100644
--- a/lib/Errno.fu
+++ b/lib/Errno.fu
@@ -3,6 +3,8 @@ primitive Errno: i32;
 
 fn EBADF(): Errno           = __native("<errno.h>", "EBADF");
 fn ENOENT(): Errno          = __native("<errno.h>", "ENOENT");
+fn ENOTDIR(): Errno         = __native("<errno.h>", "ENOTDIR");
+fn EISDIR(): Errno          = __native("<errno.h>", "EISDIR");
 
 fn EAGAIN(): Errno          = __native("<errno.h>", "EAGAIN");
 fn EWOULDBLOCK(): Errno     = __native("<errno.h>", "EWOULDBLOCK");
diff --git a/src/build.fu b/src/build.fu
index faf6d5a..d2c231d 100644
--- a/src/build.fu
+++ b/src/build.fu
@@ -350,8 +350,9 @@ struct TranslationUnit
 };
 
 struct FileInvariants {
-    path:   string;
-    stat:   file::Stat;
+    path:       string;
+    stat?:      file::Stat;
+    absent?:    bool;
 };
 
 
@@ -477,165 +478,147 @@ pub fn build(
     //
 
     mut file_invariants: FileInvariants[];
-    mut include_hashes: flat::Map(string, u64);
 
-    fn getIncludeHash(
-        include: string,
-        start_fname: string,
-        include_dirs: string[])
-    {
-        shadow let fail = |reason|
-            fail("Failed to hash the #includes of:\n\t" ~ include.qID ~ "\n\n\t" ~ reason);
+    struct Header {
+        hash:       u64;
+        includes:   string[];
+    };
+
+    mut headers:        flat::Map(string, Header);
+    mut absent:         flat::Set(string);
+    mut include_dirs:   string[];
 
-        fn tryFollow(dir: string, file: string): u64
+    fn eachInclude(src: string, each)
+    {
+        src.split('\n', each: |shadow line|
         {
-            let path = path::join(dir, file);
+            mut start = 0;
+            fn skipSpace()
+                while (start < line.len && (line[start] == ' ' || line[start] == '\t'))
+                    start++;
 
-            ref hash = include_hashes.ref(path);
-            if (hash)
-                return hash;
+            skipSpace();
+            if (line.slice(:start).starts(with: '#'))
+            {
+                start++;
+                skipSpace();
+                if (line.slice(:start).starts(with: "include"))
+                {
+                    start += "include".len;
+                    skipSpace();
 
-            mut stat: file::Stat;
-            if (let err = file::stat(:path, into: stat))
-                fail(("E" ~ err).qBAD ~ " while attempting to stat: " ~ path.qBAD);
+                    let lead    = start < line.len && line[start];
+                    let endChar = lead == '"' ? '"'
+                                : lead == '<' ? '>' : '\0';
 
-            // We want to make sure these remain unchanged
-            //  while we're building object files.
-            //
-            file_invariants ~= FileInvariants(:path, stat);
+                    let end     = endChar != '\0' ? line.find(endChar, start: start + 1) : -1;
+                    if (end > 0)
+                        each(line.slice(start, end + 1));
+                }
+            }
+        });
+    }
 
-            //
-            mut src: string;
-            if (let err = file::read(:path, into: src))
-                fail(("E" ~ err).qBAD ~ " while attempting to read: " ~ path.qBAD);
+    // False if there's no such file.
+    fn readHeader(path: string): bool
+    {
+        if (headers.has(path))
+            return true;
 
-            shadow let hash = (hash = tea::hash(src).u64);
+        if (absent.has(path))
+            return false;
 
-            // Traverse #includes recursively.
-            mut hash_deep = parseIncludes(:path, :src);
-            if (hash_deep)
+        mut stat: file::Stat;
+        if (let err = file::stat(:path, into: stat))
+        {
+            if (err == Errno::ENOENT || err == Errno::ENOTDIR)
             {
-                shadow ref hash = include_hashes.ref(path);
+                if (absent.add(path))
+                    file_invariants ~= FileInvariants(:path, absent: true);
 
-                hash_deep.hash(hash);
-                return hash = hash_deep.u64;
+                return false;
             }
 
-            // TODO FIX parse & follow #includes inside
-            return hash;
+            fail(("E" ~ err).qBAD ~ " while attempting to stat: " ~ path.qBAD);
         }
 
-        fn parseIncludes(path: string, src: string): tea::TEA
+        mut src: string;
+        if (let err = file::read(:path, into: src))
         {
-            mut hash_all: tea::TEA;
+            if (err == Errno::EISDIR)
+                return false;
 
-            :NEXT_INCLUDE
-            src.split("#include", each: |match, first|
-            {
-                if (first)
-                    continue :NEXT_INCLUDE;
-
-                fn matchFail(lax reason: string)
-                {
-                    let firstNewline = match.find('\n');
-                    shadow let match = firstNewline > 0
-                             ? match.slice(start: 0, end: firstNewline)
-                             : match;
+            fail(("E" ~ err).qBAD ~ " while attempting to read: " ~ path.qBAD);
+        }
 
-                    shadow let match = match.len > 90
-                             ? match.slice(start: 0, end: 80)
-                             : match;
+        // We want to make sure these remain unchanged
+        //  while we're building object files.
+        //
+        file_invariants ~= FileInvariants(:path, stat);
 
-                    println("  FISHY #include in " ~ path ~ " (" ~ reason ~ "):\n\n" ~ match.qBAD);
+        mut includes: string[];
+        eachInclude(src): |include|
+            includes ~= include;
 
-                    continue :NEXT_INCLUDE;
-                }
+        headers.ref(path) = Header(tea::hash(src).u64, :includes);
+        return true;
+    }
 
-                // Trim leading whitespace.
-                mut trimLeft = 0;
-                for (mut i = 0; i < match.len; i++)
-                {
-                    if (match[i] > ' ') {
-                        trimLeft = i;
-                        break;
-                    }
-                }
+    fn getIncludesHash(src: string, fname: string): tea::TEA
+    {
+        struct Todo {
+            include:    string;
+            from:       string;
+        };
 
-                shadow let match = match.slice(start: trimLeft);
+        mut todo: Todo[];
+        eachInclude(src): |include|
+            todo ~= Todo(:include, from: fname);
 
-                //
-                let lead = match.len > 2 && match[0];
+        fn resolve(shadow todo: Todo): string
+        {
+            let file = todo.include.slice(1, todo.include.len - 1);
 
-                let endChar = lead == '"' ? '"'
-                            : lead == '<' ? '>'
-                            : matchFail("no leading " ~ "\"".qKW ~ " or " ~ "<".qKW);
+            // The order in which the cpp compiler will look for these.
+            if (todo.include.starts(with: '"'))
+            {
+                let local = path::join(path::dirname(todo.from), file);
+                if (readHeader(local))
+                    return local;
 
-                //
-                for (mut i = 1; i < match.len; i++)
-                {
-                    let c = match[i];
-                    if (c <= ' ')
-                        matchFail("contains whitespace");
-
-                    if (c == endChar)
-                    {
-                        shadow let include = match.slice(0, i + 1);
-                        hash_all.hash(visitInclude(:include, start_fname: path));
-                        continue :NEXT_INCLUDE;
-                    }
-                }
+                let iquote = path::join(path::dirname(fname), file);
+                if (readHeader(iquote))
+                    return iquote;
+            }
 
-                matchFail("no trailing " ~ (endChar ~ "").qKW);
-            });
+            for (mut i = 0; i < include_dirs.len; i++)
+            {
+                let path = path::join(include_dirs[i], file);
+                if (readHeader(path))
+                    return path;
+            }
 
-            return hash_all;
+            // Not ours, must be a system header,
+            //  we assume these to be immutable.
+            return "";
         }
 
-        fn visitInclude(shadow include: string, shadow start_fname: string): u64
+        mut hash: tea::TEA;
+        mut visited: flat::Set(string);
+        for (mut i = 0; i < todo.len; i++)
         {
-            let f = include.slice(1, include.len - 1);
-
-            if (include.starts(with: '"'))
-                return tryFollow(path::dirname(start_fname), f);
-
-            // TODO FIX not all of our headers start with fu/,
-            //  there's the par/ and dl/ nonsense,
-            //   gotta move those back in.
-            //
-            if (include.starts(with: "<fu/"))
-                return tryFollow(fudir::FU_INCLUDE, f);
-
-            if (include_dirs)
+            let path = resolve(todo[i]);
+            if (path && visited.add(path))
             {
-                // TODO FIX the include_dirs stuff doesn't make amazing sense,
-                //  we need to skope them somehow so we know
-                //   which headers need to be looked up where.
-            }
+                let header = headers.get(path);
+                hash.hash(header.hash);
 
-            // TODO FIX we need to tell the system headers from
-            //  whatever custom stuff people add to their include_dirs
-            //
-            // Maybe we want to introduce an extra #include convension,
-            //  e.g. <<sys/time.h>>, to explicitly opt-out of content hashing.
-            //
-            // Alternatively, we'd have to locate the std headers on disk
-            //  and just treat them like any other header.
-            //   Here's one way to do it (see https://stackoverflow.com/a/33485647):
-            //
-            //  LC_ALL=C gcc -v -E -xc - < /dev/null 2>&1 |
-            //  LC_ALL=C sed -ne '/starts here/,/End of/p'
-            //
-            // Basically, we'd ignore includes without an extension (std cpp),
-            //  and check the ones with an extension & treat them as usual,
-            //   or ignore when found / error when not found?
-            //    What's the point i wonder.
-            //
-            // println("  CACHE TODO FIX Assuming " ~ include.qID ~ " is immutable, TODO resolve + hash + follow.");
-
-            return 0;
+                header.includes.each: |include|
+                    todo ~= Todo(:include, from: path);
+            }
         }
 
-        return visitInclude(:include, :start_fname);
+        return hash;
     }
 
 
@@ -643,6 +626,36 @@ pub fn build(
 
     let dep_order = ctx.dep_order || [ 0 ]; // TODO FIX Empty dep_order -> runtime only
 
+    fn getIncludeDirs(module: Module)
+    {
+        mut result: flat::Set(string);
+
+        let dir = path::dirname(module.fname);
+        module.out.cpp.hacks.include_dirs.each: |incl|
+            result.add(incl.starts(with: '.')
+                ? path::join(dir, incl)
+                : incl);
+
+        return result;
+    }
+
+    // Everything we'll have the cpp compiler look for headers in, in order.
+    for (mut i = 0; i < flags_cc.len; i++)
+        if (flags_cc[i].starts(with: "-I"))
+            include_dirs ~= flags_cc[i].len > 2
+                ? flags_cc[i].slice(start: 2)
+                : i + 1 < flags_cc.len ? flags_cc[i + 1] : "";
+
+    include_dirs ~= ctx.fudir ~ "include";
+
+    {
+        mut dirs: flat::Set(string);
+        dep_order.each: |modid|
+            dirs.add(ctx.modules[modid].getIncludeDirs);
+
+        include_dirs ~= dirs.keys_asc;
+    }
+
     for (mut i = 0; i < dep_order.len; i++)
     {
         let modid   = dep_order[i];
@@ -672,35 +685,16 @@ pub fn build(
         let unit_index  = unit_indices[modid] = units.len - 1;
         ref unit        = units[unit_index];
 
-        //
-        ref includes_hash = unit.includes_hash;
-        for (shadow mut i = 0; i < cpp.includes_headers.len; i++)
-        {
-            let hash = getIncludeHash(
-                include:        cpp.includes_headers[i],
-                start_fname:    module.fname,
-                include_dirs:   cpp.hacks.include_dirs.keys_asc);
-
-            if (hash)
-                includes_hash.hash(hash);
-        }
-
         //
         if (cpp.hacks)
         {
             unit.hacks.link.add(cpp.hacks.link);
-
-            let include_dirs = cpp.hacks.include_dirs;
-            if (include_dirs)
-            {
-                let dir = path::dirname(module.fname);
-                include_dirs.each: |incl|
-                    unit.hacks.include_dirs.add(
-                        incl.starts(with: '.')
-                            ? path::join(dir, incl)
-                            : incl);
-            }
+            unit.hacks.include_dirs.add(module.getIncludeDirs);
         }
+
+        //
+        unit.includes_hash = getIncludesHash(
+            :cpp.src, fname: i ? module.fname : fulib);
     }
 
 
@@ -762,7 +756,7 @@ pub fn build(
         }
 
         file_invariants.each: |file_invariant|
-            if (file_invariant.path)
+            if (!file_invariant.absent)
                 ret.watch_list ~= file_invariant.path;
     }
 
@@ -1153,7 +1147,8 @@ fn buildTarget(
                 mut actual: file::Stat;
                 let err = file::stat(:file_invariant.path, into: actual);
 
-                if (err || actual.size != expect.size
+                if (file_invariant.absent ? !err :
+                    err || actual.size != expect.size
                         || actual.mtime != expect.mtime)
                 {
                     fail("Header crosscheck failed for:"
-- 
2.43.0


From 6ce54eedca9d1940920832ad7fde473729a14500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:26 +0000
Subject: [PATCH 25/45] fix: the object cache ignored --cflags and the flags of
 linked packages

---
 src/build.fu | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/build.fu b/src/build.fu
index d2c231d..14036a5 100644
--- a/src/build.fu
+++ b/src/build.fu
@@ -452,7 +452,7 @@ pub fn build(
                 ~ (process::LINUX && "-pthread -ldl ")
                 ;
 
-    shadow let GCChash = tea::hash(GCChash);
+    shadow let GCChash = tea::hash(GCChash ~ flags_cc.join(' '));
 
     //
     fulib ||= path::join(ctx.fudir,
@@ -727,6 +727,7 @@ pub fn build(
         //  and we care about compiler/linker flags:
         //
         hash.hash(GCChash);
+        hash.hash(unit.hacks.link.keys_asc.join(' '));
         //
         // TODO FIX we should probably care about compiler version too,
         //  we could resolve it once on boot by gcc --version and hash its output.
-- 
2.43.0


From e9e5d0214b7d5173bd2e1b0403f7d3d291cdca65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:04 +0000
Subject: [PATCH 26/45] fix: creating a folder three levels deep failed, so did
 the first build of a new user

---
 lib/fs.fu | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/lib/fs.fu b/lib/fs.fu
index 3bf20e8..ee41a4d 100644
--- a/lib/fs.fu
+++ b/lib/fs.fu
@@ -23,10 +23,25 @@ pub fn mkdir_p(mut path: string, mode = RWX_RWX_RWX): Errno
             "<sys/stat.h>",
             "<errno.h>");
 
+        // Not an error if it's already there.
+        pragma emit_top(
+        `
+            static int fu_mkdir(const char* path, mode_t mode)
+            {
+                if (!mkdir(path, mode))
+                    return 0;
+
+                int err = errno;
+                struct stat sb;
+                return err == EEXIST && !stat(path, &sb) && S_ISDIR(sb.st_mode)
+                     ? 0 : err;
+            }
+        `);
+
         pragma output(
         `
-            if (mkdir(`path`.data(), mode_t(`mode`)))
-                `is_ENOENT` = (`err` = errno) == ENOENT;
+            `err` = fu_mkdir(`path`.data(), mode_t(`mode`));
+            `is_ENOENT` = `err` == ENOENT;
         `);
 
         if (is_ENOENT) for (mut i = N; i --> 1; )
@@ -38,9 +53,7 @@ pub fn mkdir_p(mut path: string, mode = RWX_RWX_RWX): Errno
             if (parent.visit() == 0)
             {
                 pragma emit(`
-
-                    if (mkdir(`path`.data(), mode_t(`mode`)))
-                        `err` = errno;
+                    `err` = fu_mkdir(`path`.data(), mode_t(`mode`));
                 `);
             }
 
-- 
2.43.0


From cdd4f86c6bc403a4d2dbe678e964572d508af1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:59 +0000
Subject: [PATCH 27/45] fix: a file read in several pieces came out corrupted

---
 lib/file.fu | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/file.fu b/lib/file.fu
index 142f700..23a5223 100644
--- a/lib/file.fu
+++ b/lib/file.fu
@@ -161,7 +161,8 @@ fn read(mut path: string, ref into!output: string, mut size?: i64): Errno
                 if (`len0` != `len1`)
                 {
                     output.UNSAFE__WriteSize(`len0`);
-                    `err` = ERANGE;
+                    if (!`err`)
+                        `err` = ERANGE;
                 }
             `);
         }
@@ -193,6 +194,7 @@ fn read(mut path: string, ref into!output: string, mut size?: i64): Errno
                     break;
                 }
 
+                buf    += count;
                 `len0` += (decltype(`len0`)) count;
             }
         `);
-- 
2.43.0


From feaf17fd42d50a78a61d5aed8d097482f1898f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:55 +0000
Subject: [PATCH 28/45] fix: two builds started in the same instant used the
 same temporary files

---
 lib/process.fu | 2 ++
 src/build.fu   | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/process.fu b/lib/process.fu
index 6752f31..db98653 100644
--- a/lib/process.fu
+++ b/lib/process.fu
@@ -1,5 +1,7 @@
 
 pub fn exit(code: i32): never __native("<cstdlib>", "std::exit");
+pub fn pid(): i32 __native("<unistd.h>", "getpid()");
+
 pub fn DEBUG(): bool __native("<fu/process.h>", "fu::DEBUG");
 
 pub fn LINUX(): bool __native("<fu/process.h>", "fu::LINUX");
diff --git a/src/build.fu b/src/build.fu
index 14036a5..6c25d6b 100644
--- a/src/build.fu
+++ b/src/build.fu
@@ -99,7 +99,9 @@ fn ensure_local_fname(fname: string, dir_src: string): string
 
 fn tmpfile(implicit dir_wrk: DirWrk)
 {
-    mut fname = dir_wrk.tmp;
+    // Random numbers are seeded with the time,
+    //  other builds may have started in the same instant.
+    mut fname = dir_wrk.tmp ~ process::pid() ~ "-";
 
     mut r = rand::next_u64();
     for (mut i = 0; i < 8; i++)
-- 
2.43.0


From b22d27ba9fc2a7388c685fd41084cde141a76e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:55 +0000
Subject: [PATCH 29/45] fix: a build failed when another build cleaned up the
 source it was about to compile

---
 src/build.fu | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/build.fu b/src/build.fu
index 6c25d6b..48c2d95 100644
--- a/src/build.fu
+++ b/src/build.fu
@@ -1057,9 +1057,6 @@ fn buildTarget(
 
             unit.cache_cleanup |= "Cpp";
 
-            let cpp = unit.src;
-            atomic_write(fname: F_cpp, cpp);
-
             println("  BUILD ", unit.human, " ", F_cpp);
 
             let t0 = now::hr();
@@ -1101,11 +1098,28 @@ fn buildTarget(
                     ~ "-c" ~ INCLUDE ~ " -o " ~ unit.tmp_file ~ " " ~ F_cpp;
 
             // println("      > ", CMD);
-            shadow mut stdout: string;
+            let cpp = unit.src;
 
-            shadow let code = exec(CMD, :stdout);
-            if (code)
-                return BuildError(:code, :cpp, :stdout);
+            for (;;)
+            {
+                mut before: file::Stat;
+                mut after:  file::Stat;
+
+                let writeErr = atomic_write(fname: F_cpp, cpp);
+                file::stat(F_cpp, into: before);
+
+                shadow mut stdout: string;
+                shadow let code = exec(CMD, :stdout);
+                if (!code)
+                    break;
+
+                // Another build that shares our cache
+                //  may have cleaned up its F_cpp, which is ours too.
+                //
+                let err = file::stat(F_cpp, into: after);
+                if (writeErr || err != Errno::ENOENT && before.mtime == after.mtime)
+                    return BuildError(:code, :cpp, :stdout);
+            }
 
             // Testcases -
             // Discard object files after linking.
-- 
2.43.0


From fa3386992b4f2269d96c5bb147bd5eba06b3015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:55 +0000
Subject: [PATCH 30/45] fix: a build failed when another build cached the
 result of the same testsuite

---
 src/build.fu | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/build.fu b/src/build.fu
index 48c2d95..defa19c 100644
--- a/src/build.fu
+++ b/src/build.fu
@@ -1319,6 +1319,7 @@ fn buildTarget(
                     //   that was just cached by a parallel run.
                     //
                     READ_cachedTestOutput();
+                    code = 0;
                 }
                 else if (!code)
                 {
-- 
2.43.0


From d1e5f03c56b374f6bbd2992d6cbe92882c2ac978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:55 +0000
Subject: [PATCH 31/45] fix: a build failed when another build moved away the
 executable both had made

---
 src/build.fu | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/build.fu b/src/build.fu
index defa19c..4cf84fd 100644
--- a/src/build.fu
+++ b/src/build.fu
@@ -741,11 +741,13 @@ pub fn build(
 
     //
 
-    mut ret = buildTarget(
-        :units, :file_invariants,
-        :flags_cc, :flags_ld, :onfail,
-        :bscheme, :runmode, :expect_exit,
-        :bin, :GCC_CMD);
+    mut ret: BuildOutput;
+    while (!ret.executable)
+        ret = buildTarget(
+            :units, :file_invariants,
+            :flags_cc, :flags_ld, :onfail,
+            :bscheme, :runmode, :expect_exit,
+            :bin, :GCC_CMD);
 
     if (bscheme & "watch")
     {
@@ -1240,6 +1242,12 @@ fn buildTarget(
         if (code) return ERR;
     }
 
+    // Another build that shares our cache
+    //  may have just moved F_exe to its own bin, have to redo it.
+    //
+    fn movedAway(err: i32)
+        return err == Errno::ENOENT.i32 && file::size(F_exe) < 0;
+
     //
     mut output: test_output::TestOutput;
 
@@ -1298,6 +1306,9 @@ fn buildTarget(
                 output  = test_output::from(:stdout, :status);
                 let t1  = now::hr();
 
+                if (movedAway(code))
+                    return [];
+
                 println("     OK ", t1 - t0, "s",
                     status.signalled && " signal(" ~ status.signal ~ ")",
                     status.exited    && " exit(" ~ status.exit ~ ")",
@@ -1351,6 +1362,8 @@ fn buildTarget(
         fs::mkdir_p( path::dirname(bin) );
 
         code = file::rename(F_exe, bin).int;
+        if (movedAway(code))
+            return [];
     }
 
     if (code) return ERR;
-- 
2.43.0


From 10156ba12ffbfc4269e0e7f54ccadf7b247b7172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:59 +0000
Subject: [PATCH 32/45] fix: other keys of a hash map were lost when an
 initialiser threw

---
 lib/hash.fu | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/hash.fu b/lib/hash.fu
index 1ce6e32..d289e1e 100644
--- a/lib/hash.fu
+++ b/lib/hash.fu
@@ -361,12 +361,15 @@ fn ref(
 
                 available: |mask, make_fair|
                 {
+                    // This may throw, the index must not change before.
+                    let value: Value    = init()
+
                     ref index_entry     = make_fair()
 
                     type DataEntry      = DataEntry(:Key, :Value)
                     map.data           ~= DataEntry(:key, :hash,
                         collision:  index_entry.data_pos,
-                        value:      init())
+                        :value)
 
                     let data_pos        = DataPos(map.data.len)
                     index_entry         = IndexEntry(:hash, :data_pos)
-- 
2.43.0


From d3f40cf8f2376a17c64ac26efa0dc04da0b9493a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:52 +0000
Subject: [PATCH 33/45] fix: assigning an array to itself through another name
 aborted debug builds

---
 include/fu/vec.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/fu/vec.h b/include/fu/vec.h
index ed8fa05..cc7f1d2 100644
--- a/include/fu/vec.h
+++ b/include/fu/vec.h
@@ -347,7 +347,6 @@ struct fu_VEC
     fu_INL fu_VEC& operator=(const fu_VEC& c) noexcept
     {
         static_assert(COPIABLE, "Cannot copy fu_VECs of non-copiable types.");
-        assert(this != &c);
         return *this = fu_VEC(c);
     }
 
-- 
2.43.0


From b29a9e9828dc7853a4ccfc7da947f47b2b5ba444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:01 +0000
Subject: [PATCH 34/45] fix: windows of arrays could not splice at their end
 nor replace their tail

---
 include/fu/vec_range.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fu/vec_range.h b/include/fu/vec_range.h
index 0b9fa24..9eb1944 100644
--- a/include/fu/vec_range.h
+++ b/include/fu/vec_range.h
@@ -117,7 +117,7 @@ struct vec_range_mut
     {
         const auto old_size = size();
 
-        assert((fu::u) idx <  (fu::u) old_size
+        assert((fu::u) idx <= (fu::u) old_size
             && (fu::u) del <= (fu::u)(old_size - idx));
 
         // Sanitize.
@@ -142,7 +142,7 @@ struct vec_range_mut
     {
         const auto old_size = size();
 
-        assert((fu::u) idx <  (fu::u) old_size
+        assert((fu::u) idx <= (fu::u) old_size
             && (fu::u) del <= (fu::u)(old_size - idx));
 
         // Sanitize.
@@ -180,7 +180,7 @@ struct vec_range_mut
             del = del > old_size ? old_size : del;
 
         m_vec->splice(
-            Left() + old_size, del,
+            (Left() + old_size) - del, del,
             static_cast<fu::vec<T>&&>(src));
     }
 
@@ -205,7 +205,7 @@ struct vec_range_mut
             del = del > old_size ? old_size : del;
 
         m_vec->splice_copy(
-            Left() + old_size, del,
+            (Left() + old_size) - del, del,
             src_data,
             src_size);
     }
-- 
2.43.0


From cea34f0bf67d9ed2143282e70144603ec4a9cfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:08 +0000
Subject: [PATCH 35/45] fix: edits with arguments outside an array wrote
 outside of it in release builds

---
 include/fu/vec.h              | 49 ++++++++++++++++++++++++++++-------
 include/fu/vec/LEGACY_slice.h |  3 ++-
 2 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/include/fu/vec.h b/include/fu/vec.h
index cc7f1d2..4967492 100644
--- a/include/fu/vec.h
+++ b/include/fu/vec.h
@@ -823,6 +823,16 @@ struct fu_VEC
     #define MUT_reserve(capa) MUT_op(false, false, true, Zero, Zero, Zero, Zero, capa)
 
 
+    // MUT_mid & co clamp their arguments when asserts are off,
+    //  where new elements go has to follow suit.
+
+    template <typename I>
+    fu_INL static fu::i _AtMost(I idx, fu::i max) noexcept {
+        idx = idx > 0 ? idx : I();
+        return (fu::u) idx <= (fu::u) max ? (fu::i) idx : max;
+    }
+
+
     //
     // Single insertion.
 
@@ -832,7 +842,7 @@ struct fu_VEC
 
     template <typename I>
     void insert(I i, T&& item) noexcept {
-        MUT_mid(i, Zero, One); MOV_ctor(new_data + i, item);
+        MUT_mid(i, Zero, One); MOV_ctor(new_data + _AtMost(i, old_size), item);
     }
 
     void unshift(T&& item) noexcept {
@@ -860,6 +870,9 @@ struct fu_VEC
 
     template <bool ZERO_FILL = true>
     void resize(fu::i s1) noexcept {
+        assert(s1 >= 0);
+        s1 = s1 > 0 ? s1 : 0;
+
         fu::i s0  = size();
         fu::i rem = s0 - s1; rem = rem > 0 ? rem : 0;
         fu::i add = s1 - s0; add = add > 0 ? add : 0;
@@ -870,11 +883,17 @@ struct fu_VEC
 
     template <bool ZERO_FILL = true>
     void grow(fu::i s1) noexcept {
+        assert(s1 >= 0);
+        s1 = s1 > 0 ? s1 : 0;
+
         MUT_back(Zero, s1 - size());
         DEF_initRange<ZERO_FILL>(new_data + old_size, new_data + new_size);
     }
 
     void shrink(fu::i s1) noexcept {
+        assert(s1 >= 0);
+        s1 = s1 > 0 ? s1 : 0;
+
         MUT_back(size() - s1, Zero);
     }
 
@@ -883,7 +902,10 @@ struct fu_VEC
     }
 
     void pop() noexcept {
-        MUT_back(One, Zero);
+        assert(size() > 0);
+        if (size()) { // fu_ONE can't be clamped
+            MUT_back(One, Zero);
+        }
     }
 
     template <typename I, typename D>
@@ -894,11 +916,16 @@ struct fu_VEC
     template <bool ZERO_FILL = true, typename I, typename D, typename C>
     void splice_empty(I idx, D del, C count) noexcept {
         MUT_mid(idx, del, count);
-        DEF_initRange<ZERO_FILL>(new_data + idx, new_data + idx + count);
+
+        T* at = new_data + _AtMost(idx, old_size);
+        DEF_initRange<ZERO_FILL>(at, at + count);
     }
 
     void shift() noexcept {
-        MUT_front(One, Zero);
+        assert(size() > 0);
+        if (size()) { // fu_ONE can't be clamped
+            MUT_front(One, Zero);
+        }
     }
 
     void shift(fu::i shift) noexcept {
@@ -923,20 +950,22 @@ struct fu_VEC
 
         MUT_mid(idx, del, src_size);
 
+        T* at = new_data + _AtMost(idx, old_size);
+
         // Copy paste splice/append.
         if constexpr (TRIVIAL)
-            MEMCPY_range(new_data + idx, src_data, src_size);
+            MEMCPY_range(at, src_data, src_size);
 
         fu::i shared_capa = src.shared_capa();
         if (shared_capa > SMALL_CAPA)
         {
             if (!TRIVIAL && src.slow_check_unique()) {
-                MEMCPY_range(new_data + idx, src_data, src_size);
+                MEMCPY_range(at, src_data, src_size);
                 src.UNIQ__Dealloc_DontRunDtors();
             }
             else if constexpr (SHAREABLE) {
                 if constexpr (!TRIVIAL)
-                    CPY_ctor_range(new_data + idx, src_data, src_size);
+                    CPY_ctor_range(at, src_data, src_size);
 
                 src.SHARED__Dealloc(shared_capa);
             }
@@ -958,7 +987,7 @@ struct fu_VEC
 
         if (src_data < old_data || src_data > old_data + old_size) {
             MUT_mid(idx, del, src_size);
-            CPY_ctor_range(new_data + idx, src_data, src_size);
+            CPY_ctor_range(new_data + _AtMost(idx, old_size), src_data, src_size);
         }
         else if (idx || del != old_size || src_data != old_data || src_size != old_size) {
             UNSAFE__self_splice(
@@ -980,7 +1009,7 @@ struct fu_VEC
 
         MUT_back(del, src_size);
 
-        fu::i idx = old_size - del;
+        fu::i idx = old_size - _AtMost(del, old_size);
 
         // Copy paste splice/append.
         if constexpr (TRIVIAL)
@@ -1015,7 +1044,7 @@ struct fu_VEC
         const T*    old_data = data();
               fu::i old_size = size();
 
-        fu::i idx = old_size - del;
+        fu::i idx = old_size - _AtMost(del, old_size);
 
         if (src_data < old_data || src_data > old_data + old_size) {
             MUT_back(del, src_size);
diff --git a/include/fu/vec/LEGACY_slice.h b/include/fu/vec/LEGACY_slice.h
index 58ff7d4..f8650a0 100644
--- a/include/fu/vec/LEGACY_slice.h
+++ b/include/fu/vec/LEGACY_slice.h
@@ -15,7 +15,7 @@ namespace fu {
 
     template <typename T>
     fu::vec<T> slice(fu::vec<T>&& v, fu::i start, fu::i end) noexcept {
-        v.shift_pop(start, v.size() - end);
+        v.shift_pop(start, v.size() - (end > 0 ? end : 0));
         return static_cast<fu::vec<T>&&>(v);
     }
 
@@ -52,6 +52,7 @@ namespace fu {
         //
         fu::vec<T> result;
 
+        end         = end > 0 ? end : 0;
         end         = end < s ? end : s;
         start       = start > 0 ? start : 0;
         fu::i count = end - start;
-- 
2.43.0


From 943a776e61dc0b364ea31974da1dd23183082bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:50 +0000
Subject: [PATCH 36/45] fix: a mutable view of a window a call returns did not
 compile

---
 include/fu/view.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/fu/view.h b/include/fu/view.h
index c5edecb..660f749 100644
--- a/include/fu/view.h
+++ b/include/fu/view.h
@@ -96,6 +96,9 @@ struct view
     }
 };
 
+template <typename T>
+struct vec_range_mut;
+
 template <typename T>
 struct view_mut
 {
@@ -122,6 +125,12 @@ struct view_mut
         , m_size { vec.size() }
     {}
 
+    // A window an expression evaluates to: what it shows outlives it.
+    fu_INL view_mut(vec_range_mut<T>&& range) noexcept
+        : m_data { range.data_mut() }
+        , m_size { range.size() }
+    {}
+
     fu_INL const T* data() const noexcept {
         return m_data;
     }
-- 
2.43.0


From f5313e88b87dee845c0e77030b7e83b5ecce5c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:50 +0000
Subject: [PATCH 37/45] fix: large numbers were cut short when written out in
 decimal

---
 include/fu/decstr.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fu/decstr.cpp b/include/fu/decstr.cpp
index fbc31b8..2ffbb21 100644
--- a/include/fu/decstr.cpp
+++ b/include/fu/decstr.cpp
@@ -39,13 +39,13 @@ fu_EXPORT fu::str fu::i64dec(int64_t num)
 
 fu_EXPORT fu::str fu::f64dec(double num)
 {
-    char buffer[64];
-    int len = snprintf(buffer, 64, "%f", num);
+    char buffer[512]; // The longest one, -1.8e308, takes 317.
+    int len = snprintf(buffer, sizeof(buffer), "%f", num);
 
     fu::str res;
     res.UNSAFE__init_copy(
         buffer,
-        len > 0 ? len < 64 ? len : 64 : 0);
+        len > 0 ? len : 0);
 
     return res;
 }
-- 
2.43.0


From 5b6f70a192222a88496a61c8d87f88682f43a391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:56 +0000
Subject: [PATCH 38/45] fix: a value argument that is never written saw writes
 through another argument

---
 src/solver.fu | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/solver.fu b/src/solver.fu
index cefb1ca..18ab4bc 100644
--- a/src/solver.fu
+++ b/src/solver.fu
@@ -7783,7 +7783,12 @@ pub fn solve(
                 if (o.isMutVal)
                     o.keepOrClearMutVal(
                         keep: o.type.is_mutref
-                           || o.status & SS_MOVED_FROM);
+                           || o.status & SS_MOVED_FROM
+
+                           // Arguments at risk were worked out for a value of its own:
+                           //  it can't turn into a reference that others write through.
+                           || items.some(|item|
+                                    item.type.is_mutref && item.target != argTarget));
             }
 
             // See below.
-- 
2.43.0


From e7183fd6b0bfe4b8e8514db7dca83340b483ce06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:17 +0000
Subject: [PATCH 39/45] fix: a library first loaded without hotswap functions
 kept all later ones from loading

---
 include/dl/hotswap.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/dl/hotswap.cpp b/include/dl/hotswap.cpp
index 2d1f938..d512815 100644
--- a/include/dl/hotswap.cpp
+++ b/include/dl/hotswap.cpp
@@ -12,8 +12,11 @@
 
 #define fu_HOTSWAP_use_rename_hack
 
-#if defined(fu_HOTSWAP_use_rename_hack) && !defined(RTLD_DI_LINKMAP)
+// glibc has it, but it's an enum there.
+#if defined(fu_HOTSWAP_use_rename_hack) && !defined(RTLD_DI_LINKMAP) && !defined(__GLIBC__)
 #define fu_HOTSWAP_use_dladdr
+#elif defined(fu_HOTSWAP_use_rename_hack)
+#include <link.h>
 #endif
 
 namespace
@@ -125,14 +128,15 @@ namespace
                     ld.abs_path = link_map.dli_fname;
                 }
                 #else
-                Link_map link_map {};
+                struct link_map* link_map {};
 
                 if (ld.handle
                         // On success dlinfo() function returns 0.
                         && !dlinfo(ld.handle, RTLD_DI_LINKMAP, &link_map)
-                        && link_map.l_name)
+                        && link_map->l_name
+                        && *link_map->l_name)
                 {
-                    ld.abs_path = link_map.l_name;
+                    ld.abs_path = link_map->l_name;
                 }
                 #endif
                 else
-- 
2.43.0


From b292551534e0758bd56353914f2efc7edc4f9b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:45 +0000
Subject: [PATCH 40/45] fix: a[f()] += x read x after calling f when compiled
 by gcc

---
 src/solver.fu | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solver.fu b/src/solver.fu
index 18ab4bc..0c5c3cc 100644
--- a/src/solver.fu
+++ b/src/solver.fu
@@ -8257,7 +8257,10 @@ pub fn solve(
 
                 // cpp: Can't cg custom operators for primitive types
                 // NOT == __native! must allow RTL templates for OOE of noreturn operands
-                && (kind != "fn" || args.some(|a| a.type && !a.type.is_primitive));
+                && (kind != "fn" || args.some(|a| a.type && !a.type.is_primitive))
+
+                // gcc evaluates the E1 of a built-in E1@=E2 first if E2 has no side-effects.
+                && (kind != "__native" || overload.name == "=" || args.some(|a| a.type && !a.type.is_primitive));
 
             overload.isRTL_set(rtl);
         }
-- 
2.43.0


From d9fae4e6f07ae7e4434bf4a9253b35425751d360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:28 +0000
Subject: [PATCH 41/45] fix: a write that the system did not take was reported
 as a success

---
 lib/file.fu | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/file.fu b/lib/file.fu
index 23a5223..b906b99 100644
--- a/lib/file.fu
+++ b/lib/file.fu
@@ -35,9 +35,7 @@ fn write(mut path: string, data: byte[..], mode = RW_RW_RW): Errno
             auto written = write(fd, buf, size);
             if (written <= 0)
             {
-                if (written < 0)
-                    `err` = errno;
-
+                `err` = written < 0 ? errno : EIO;
                 break;
             }
 
-- 
2.43.0


From 4754f918d2f3718d6ac37827d4b947aa40b88153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:03 +0000
Subject: [PATCH 42/45] fix: errors of directory listings, the path of the
 running program, and mkdir_p of the root

A listing hid a failing closedir and readdir and could report a stale errno,
fs::executable was PATH_MAX bytes long with garbage after the path,
and fs::mkdir_p("/") tried to create a directory without a name.
---
 lib/fs.fu | 126 +++++++++++++++++++++++++++++-------------------------
 1 file changed, 67 insertions(+), 59 deletions(-)

diff --git a/lib/fs.fu b/lib/fs.fu
index ee41a4d..12f71c5 100644
--- a/lib/fs.fu
+++ b/lib/fs.fu
@@ -63,8 +63,9 @@ pub fn mkdir_p(mut path: string, mode = RWX_RWX_RWX): Errno
         return err;
     }
 
-    // Alloc enough space for a nullterm.
-    if !(path.ends(with: '/'))
+    // Alloc enough space for a nullterm,
+    //  the slash of the root directory is not ours to overwrite.
+    if (!path.ends(with: '/') || path.len == 1)
         path ~= '/';
 
     return path.visit();
@@ -141,7 +142,7 @@ pub fn executable(): string
             char buf[PATH_MAX];
             auto nbytes = readlink("/proc/self/exe", buf, PATH_MAX);
             if (nbytes > 0 && nbytes < PATH_MAX)
-                executable.UNSAFE__init_copy(buf, PATH_MAX);
+                executable.UNSAFE__init_copy(buf, fu::i(nbytes));
 
             /*
                 readlink("/proc/self/exe", buf, bufsize) (Linux)
@@ -190,76 +191,83 @@ pub fn readdir(mut path: string, yield): Errno
 
     shadow let path = path;
 
-    // Open & close.
+    // Block around the thing to scope the defer
+    //  to set errnos before we return.
     mut err: Errno;
-    pragma input(
-    `
-        DIR* DIR_ptr = opendir(`path`.data());
-        struct dirent* dirent_ptr;
-
-        if (!DIR_ptr) {
-            `err` = errno;
-            if (!`err`)
-                `err` = ENOENT;
-        }
-    `);
-
-    if (err)
-        return err;
-
-    defer pragma emit(
-    `
-        if (!closedir(DIR_ptr))
-            `err` = errno;
-    `);
-
-    //
-    mut name_buf: string;
-
-    // Traverse.
-    for (;;)
     {
-        mut done: bool;
+        // Open & close.
         pragma input(
         `
-            dirent_ptr = readdir(DIR_ptr);
-            `done` = !dirent_ptr;
-        `);
+            DIR* DIR_ptr = opendir(`path`.data());
+            struct dirent* dirent_ptr;
 
-        if (done) break;
+            if (!DIR_ptr) {
+                `err` = errno;
+                if (!`err`)
+                    `err` = ENOENT;
+            }
+        `);
 
-        //
-        mut type: DirentType;
-        mut name_data: u64;
-        mut name_size = 0;
+        if (err)
+            return err;
 
-        pragma input(
+        defer pragma emit(
         `
-            `type`      = dirent_ptr->d_type;
-            `name_data` = (uintptr_t) dirent_ptr->d_name;
-            `name_size` = (fu::i)
-                #if defined(_D_EXACT_NAMLEN)
-                    _D_EXACT_NAMLEN(dirent_ptr)
-                #elif defined(_DIRENT_HAVE_D_NAMLEN)
-                    dirent_ptr->d_namlen
-                #else
-                    strlen(dirent_ptr->d_name)
-                #endif
-                    ;
-
-            (void) `type`;
+            if (closedir(DIR_ptr) && !`err`)
+                `err` = errno;
         `);
 
         //
-        const ref name = unsafe::cstr_view_or_copy(
-            name_buf, cstr: name_data, size: name_size);
+        mut name_buf: string;
 
-        if (name == "." || name == "..")
-            continue;
+        // Traverse.
+        for (;;)
+        {
+            mut done: bool;
+            pragma input(
+            `
+                errno = 0;
+                dirent_ptr = readdir(DIR_ptr);
+                `done` = !dirent_ptr;
+                if (`done`)
+                    `err` = errno;
+            `);
+
+            if (done) break;
 
-        lax shadow let path = path[.. path.len - 1] ~ name;
+            //
+            mut type: DirentType;
+            mut name_data: u64;
+            mut name_size = 0;
+
+            pragma input(
+            `
+                `type`      = dirent_ptr->d_type;
+                `name_data` = (uintptr_t) dirent_ptr->d_name;
+                `name_size` = (fu::i)
+                    #if defined(_D_EXACT_NAMLEN)
+                        _D_EXACT_NAMLEN(dirent_ptr)
+                    #elif defined(_DIRENT_HAVE_D_NAMLEN)
+                        dirent_ptr->d_namlen
+                    #else
+                        strlen(dirent_ptr->d_name)
+                    #endif
+                        ;
+
+                (void) `type`;
+            `);
 
-        yield(?:name, ?:type, ?:path, recurse?: || readdir(path, fn yield));
+            //
+            const ref name = unsafe::cstr_view_or_copy(
+                name_buf, cstr: name_data, size: name_size);
+
+            if (name == "." || name == "..")
+                continue;
+
+            lax shadow let path = path[.. path.len - 1] ~ name;
+
+            yield(?:name, ?:type, ?:path, recurse?: || readdir(path, fn yield));
+        }
     }
 
     //
-- 
2.43.0


From 560aa5580c01d0621d3ae4df102b8135ee9f2623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:59 +0000
Subject: [PATCH 43/45] fix: output of a child was lost once one of its streams
 closed, and an interrupted wait lost its status

Collecting stopped as soon as neither stream had data while one was closed:
what the child wrote later was lost, and a child that wrote more than a pipe
holds was waited for forever.
---
 lib/spawn.fu | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/lib/spawn.fu b/lib/spawn.fu
index 5cc30cb..4551f4b 100644
--- a/lib/spawn.fu
+++ b/lib/spawn.fu
@@ -289,6 +289,10 @@ static Errno fu_waitpid(
             if ((err = errno) == EAGAIN)
                 goto YIELD_AND_CONTINUE;
 
+            // The child is yet to be waited for.
+            if (err == EINTR)
+                continue;
+
             return err;
         }
 
@@ -508,9 +512,14 @@ pub fn spawn(
             //
             auto bytes  = read(fd, data, size_t(capa));
 
-            if (bytes < 0 && !`err`)
+            if (bytes < 0)
             {
                 `err` = errno;
+                if (`err.should_retry`)
+                {
+                    `err` = 0;
+                    return true;
+                }
             }
             else if (bytes > 0)
             {
@@ -530,10 +539,15 @@ pub fn spawn(
             return false;
         };
 
+        // The child can close either one of its streams first,
+        //  keep collecting from the other for as long as it's open.
         const auto& ReadPollFD = [&](pollfd& pfd, auto&& out)
         {
-            return pfd.revents & POLLIN
-                && ReadFD(pfd.fd, out);
+            if (!pfd.revents)
+                return;
+
+            if (!(pfd.revents & POLLIN) || !ReadFD(pfd.fd, out))
+                pfd.fd = -1;
         };
 
         const size_t N = 2;
@@ -543,10 +557,9 @@ pub fn spawn(
             { `child.err_fd`, POLLIN, {/* revents */} },
         };
 
-        int poll_ret;
-        while (!`err` && (poll_ret = poll(&poll_fds[0], N, /*timeout*/-1)))
+        while (!`err` && (poll_fds[0].fd >= 0 || poll_fds[1].fd >= 0))
         {
-            if (poll_ret < 0)
+            if (poll(&poll_fds[0], N, /*timeout*/-1) < 0)
             {
                 `err` = errno;
                 if (`err.should_retry`)
@@ -558,12 +571,8 @@ pub fn spawn(
                 break;
             }
 
-            // Don't short circuit here.
-            if (  int(!ReadPollFD(poll_fds[0], `stdout_buf`))
-                & int(!ReadPollFD(poll_fds[1], `stderr_buf`)))
-            {
-                break;
-            }
+            ReadPollFD(poll_fds[0], `stdout_buf`);
+            ReadPollFD(poll_fds[1], `stderr_buf`);
         }
     `);
 
-- 
2.43.0


From 2a7abb6fc4f053c2919001aeb9de99d88407cb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:04 +0000
Subject: [PATCH 44/45] fix: a[f()] += x: only distrust gcc where the left side
 is more than a variable

---
 src/solver.fu | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/solver.fu b/src/solver.fu
index 0c5c3cc..ed46ef2 100644
--- a/src/solver.fu
+++ b/src/solver.fu
@@ -8257,10 +8257,7 @@ pub fn solve(
 
                 // cpp: Can't cg custom operators for primitive types
                 // NOT == __native! must allow RTL templates for OOE of noreturn operands
-                && (kind != "fn" || args.some(|a| a.type && !a.type.is_primitive))
-
-                // gcc evaluates the E1 of a built-in E1@=E2 first if E2 has no side-effects.
-                && (kind != "__native" || overload.name == "=" || args.some(|a| a.type && !a.type.is_primitive));
+                && (kind != "fn" || args.some(|a| a.type && !a.type.is_primitive));
 
             overload.isRTL_set(rtl);
         }
@@ -15571,8 +15568,15 @@ pub fn solve(
                 // Sequenced calls - assignments & such.
                 let RTL = o.isRTL;
 
+                // gcc evaluates the E1 of a built-in E1@=E2 first
+                //  when E2 is without side-effects of its own.
+                let trustRTL = RTL
+                    && (o.kind != "__native" || o.name == "="
+                        || !node.items[0].type.is_primitive
+                        || node.items[0].isFieldChain);
+
                 ////////////////////////////////////////////////////////////////
-                let unsequencedHere = !RTL && node.items.len > 1;
+                let unsequencedHere = !trustRTL && node.items.len > 1;
                 if (unsequencedHere)
                     _unseqDepth++;
                 ////////////////////////////////////////////////////////////////
-- 
2.43.0


From 08f02f46fd3bd2b1d6ba10584d79e9bcaa2ed580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:25 +0000
Subject: [PATCH 45/45] fix: a = c ? b : b ~ x did not compile with clang

---
 src/codegen.fu | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/codegen.fu b/src/codegen.fu
index fc0962b..5eebe70 100644
--- a/src/codegen.fu
+++ b/src/codegen.fu
@@ -2378,7 +2378,7 @@ pub fn cpp_codegen(
             let mustSeq_useTemporary = MUSTSEQ_mask & MUSTSEQ_bit;
 
             let mode_canAbbreviateCopies =
-                isSimpleCpyMovAssign    ? M_ABBREVIATE_ALL_COPIES
+                isSimpleCpyMovAssign    ? (arg.isAllCopies ? M_ABBREVIATE_ALL_COPIES : M_ABBREVIATE_NONVEC_COPIES)
                                         : (!isNative || !(host_arg.flags & F_MUT)) && M_ABBREVIATE_PASSBYVAL_COPIES;
 
             mut src = junk ? "" : cgNode(
@@ -3153,6 +3153,18 @@ pub fn cpp_codegen(
         return false;
     }
 
+    // cpp: vec copies are explicit, only one side
+    //  of a ?: being a temporary would need an implicit one.
+    fn isAllCopies(node: SolvedNode): bool
+    {
+        if (node.kind == "copy")
+            return true;
+
+        return node.kind == "if"
+            && isAllCopies(node.items[1])
+            && isAllCopies(node.items[2]);
+    }
+
     fn isPointlessMustSeq(arg: SolvedNode, host_arg: Argument): bool
     {
         ////////////////////////////////////////////////////////////////
-- 
2.43.0

