From 07f79c1b3aeb915d2d81d60d7252de7c2e03fc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 01/30] fix: keep the vector capacity unchanged if reallocation
 fails

The new capacity was stored before the allocator was asked for the memory. After a failed
reallocation the vector believed to own the larger buffer and the next insertion wrote past
the end of the old one.
---
 src/Vector.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Vector.c b/src/Vector.c
index f92c9de..08d47ea 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -111,9 +111,9 @@ static ZyanStatus ZyanVectorReallocate(ZyanVector* vector, ZyanUSize capacity)
         }
     }
 
-    vector->capacity = capacity;
     ZYAN_CHECK(vector->allocator->reallocate(vector->allocator, &vector->data,
-        vector->element_size, vector->capacity));
+        vector->element_size, capacity));
+    vector->capacity = capacity;
 
     return ZYAN_STATUS_SUCCESS;
 }
-- 
2.43.0


From ccba7f002b2b10d0533927c84487557348a6238c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 02/30] fix: do not fail vector removals if the buffer can not
 be shrunk

`ZyanVectorDeleteRange` and `ZyanVectorPopBack` reported an error although the elements had been
removed and `ZyanVectorResizeEx` returned with destroyed elements still being part of the vector,
if the allocator failed to shrink the buffer.
---
 src/Vector.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/Vector.c b/src/Vector.c
index 08d47ea..e3fed0d 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -597,7 +597,9 @@ ZyanStatus ZyanVectorDeleteRange(ZyanVector* vector, ZyanUSize index, ZyanUSize
     vector->size -= count;
     if (ZYCORE_VECTOR_SHOULD_SHRINK(vector->size, vector->capacity, vector->shrink_threshold))
     {
-        return ZyanVectorReallocate(vector,
+        // Shrinking is optional. The elements are already gone and the current buffer stays valid, if
+        // the allocator is not able to provide a smaller one
+        (void)ZyanVectorReallocate(vector,
             ZYAN_MAX(1, (ZyanUSize)(vector->size * vector->growth_factor)));
     }
 
@@ -623,7 +625,9 @@ ZyanStatus ZyanVectorPopBack(ZyanVector* vector)
     --vector->size;
     if (ZYCORE_VECTOR_SHOULD_SHRINK(vector->size, vector->capacity, vector->shrink_threshold))
     {
-        return ZyanVectorReallocate(vector,
+        // Shrinking is optional. The elements are already gone and the current buffer stays valid, if
+        // the allocator is not able to provide a smaller one
+        (void)ZyanVectorReallocate(vector,
             ZYAN_MAX(1, (ZyanUSize)(vector->size * vector->growth_factor)));
     }
 
@@ -768,11 +772,17 @@ ZyanStatus ZyanVectorResizeEx(ZyanVector* vector, ZyanUSize size, const void* in
         }
     }
 
-    if (ZYCORE_VECTOR_SHOULD_GROW(size, vector->capacity) ||
-        ZYCORE_VECTOR_SHOULD_SHRINK(size, vector->capacity, vector->shrink_threshold))
+    if (ZYCORE_VECTOR_SHOULD_GROW(size, vector->capacity))
     {
         ZYAN_ASSERT(vector->growth_factor >= 1);
         ZYAN_CHECK(ZyanVectorReallocate(vector, (ZyanUSize)(size * vector->growth_factor)));
+    } else
+    if (ZYCORE_VECTOR_SHOULD_SHRINK(size, vector->capacity, vector->shrink_threshold))
+    {
+        // Shrinking is optional. The current buffer stays valid, if the allocator is not able to
+        // provide a smaller one
+        ZYAN_ASSERT(vector->growth_factor >= 1);
+        (void)ZyanVectorReallocate(vector, (ZyanUSize)(size * vector->growth_factor));
     }
 
     if (initializer && (size > vector->size))
-- 
2.43.0


From fac35e9aa3c26b0c0e9179b9982053bfeff87ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 03/30] fix: reject index/count pairs that wrap around

The sum of `index` and `count` was allowed to overflow, so that e.g. deleting the element at index
`SIZE_MAX` passed the range check and corrupted memory.
---
 src/String.c | 21 +++++++++++++--------
 src/Vector.c |  6 +++---
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/String.c b/src/String.c
index 9dce43f..49590d8 100644
--- a/src/String.c
+++ b/src/String.c
@@ -267,7 +267,8 @@ ZyanStatus ZyanStringViewInsideViewEx(ZyanStringView* view, const ZyanStringView
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if (index + count >= source->string.vector.size)
+    if ((index >= source->string.vector.size) ||
+        (count >= source->string.vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -434,7 +435,8 @@ ZyanStatus ZyanStringInsertEx(ZyanString* destination, ZyanUSize destination_ind
     }
 
     // Don't allow access to the terminating '\0' character
-    if (source_index + count >= source->string.vector.size)
+    if ((source_index >= source->string.vector.size) ||
+        (count >= source->string.vector.size - source_index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -475,7 +477,8 @@ ZyanStatus ZyanStringAppendEx(ZyanString* destination, const ZyanStringView* sou
     }
 
     // Don't allow access to the terminating '\0' character
-    if (source_index + count >= source->string.vector.size)
+    if ((source_index >= source->string.vector.size) ||
+        (count >= source->string.vector.size - source_index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -501,7 +504,7 @@ ZyanStatus ZyanStringDelete(ZyanString* string, ZyanUSize index, ZyanUSize count
     }
 
     // Don't allow removal of the terminating '\0' character
-    if (index + count >= string->vector.size)
+    if ((index >= string->vector.size) || (count >= string->vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -572,7 +575,8 @@ ZyanStatus ZyanStringLPosEx(const ZyanStringView* haystack, const ZyanStringView
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= haystack->string.vector.size)
+    if ((index >= haystack->string.vector.size) ||
+        (count >= haystack->string.vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -641,7 +645,8 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= haystack->string.vector.size)
+    if ((index >= haystack->string.vector.size) ||
+        (count >= haystack->string.vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -954,7 +959,7 @@ ZyanStatus ZyanStringToLowerCaseEx(ZyanString* string, ZyanUSize index, ZyanUSiz
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= string->vector.size)
+    if ((index >= string->vector.size) || (count >= string->vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -995,7 +1000,7 @@ ZyanStatus ZyanStringToUpperCaseEx(ZyanString* string, ZyanUSize index, ZyanUSiz
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= string->vector.size)
+    if ((index >= string->vector.size) || (count >= string->vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
diff --git a/src/Vector.c b/src/Vector.c
index e3fed0d..e415413 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -576,7 +576,7 @@ ZyanStatus ZyanVectorDeleteRange(ZyanVector* vector, ZyanUSize index, ZyanUSize
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-    if (index + count > vector->size)
+    if ((index > vector->size) || (count > vector->size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -661,7 +661,7 @@ ZyanStatus ZyanVectorFindEx(const ZyanVector* vector, const void* element, ZyanI
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-    if ((index + count > vector->size) || (index == vector->size))
+    if ((index >= vector->size) || (count > vector->size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -706,7 +706,7 @@ ZyanStatus ZyanVectorBinarySearchEx(const ZyanVector* vector, const void* elemen
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-    if (((index >= vector->size) && (count > 0)) || (index + count > vector->size))
+    if ((index > vector->size) || (count > vector->size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
-- 
2.43.0


From 113e13eedcd4c0998d987a63d370700e02ab7796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 04/30] fix: restore the vector elements if an emplace
 constructor fails

The elements behind the insertion point stayed shifted to the right and the last one was lost.
---
 src/Vector.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/Vector.c b/src/Vector.c
index e415413..4a5bbff 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -518,12 +518,23 @@ ZyanStatus ZyanVectorEmplaceEx(ZyanVector* vector, ZyanUSize index, void** eleme
     }
 
     *element = ZYCORE_VECTOR_OFFSET(vector, index);
+    ++vector->size;
+
     if (constructor)
     {
-        ZYAN_CHECK(constructor(*element));
-    }
+        const ZyanStatus status = constructor(*element);
+        if (!ZYAN_SUCCESS(status))
+        {
+            // Close the gap again
+            if (index + 1 < vector->size)
+            {
+                ZYAN_CHECK(ZyanVectorShiftLeft(vector, index, 1));
+            }
+            --vector->size;
 
-    ++vector->size;
+            return status;
+        }
+    }
 
     return ZYAN_STATUS_SUCCESS;
 }
-- 
2.43.0


From ce8bf593dc08c88c4a48edb008ddf9e44f233592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 05/30] fix: fail default allocations with an overflowing byte
 count

`element_size * n` was allowed to wrap around, so that a tiny block has been returned for a huge
request.
---
 src/Allocator.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Allocator.c b/src/Allocator.c
index 5fadf64..9953ef1 100644
--- a/src/Allocator.c
+++ b/src/Allocator.c
@@ -47,6 +47,11 @@ static ZyanStatus ZyanAllocatorDefaultAllocate(ZyanAllocator* allocator, void**
 
     ZYAN_UNUSED(allocator);
 
+    if (n > (ZyanUSize)(-1) / element_size)
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     *p = ZYAN_MALLOC(element_size * n);
     if (!*p)
     {
@@ -66,6 +71,11 @@ static ZyanStatus ZyanAllocatorDefaultReallocate(ZyanAllocator* allocator, void*
 
     ZYAN_UNUSED(allocator);
 
+    if (n > (ZyanUSize)(-1) / element_size)
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     void* const x = ZYAN_REALLOC(*p, element_size * n);
     if (!x)
     {
-- 
2.43.0


From 5febbefdf0f07c7911c0e44c35c9b3d14672d1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 06/30] fix: do not let the grown vector capacity wrap around

Resizing a vector to a huge size wrapped the requested capacity (`size * growth_factor`) around to
a small value and succeeded with a size that exceeds the buffer.
---
 src/Vector.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/Vector.c b/src/Vector.c
index 4a5bbff..3b272b5 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -54,6 +54,18 @@
 #define ZYCORE_VECTOR_SHOULD_SHRINK(size, capacity, threshold) \
     (((threshold) != 0) && ((size) * (threshold) < (capacity)))
 
+/**
+ * Returns the capacity to request for a growing (or shrinking) vector.
+ *
+ * @param   size    The desired size of the vector.
+ * @param   factor  The growth factor.
+ *
+ * @return  The desired size multiplied by the growth factor or just the desired size, if the
+ *          multiplication would overflow.
+ */
+#define ZYCORE_VECTOR_GROWN_CAPACITY(size, factor) \
+    (((size) > (ZyanUSize)(-1) / (factor)) ? (size) : (ZyanUSize)((size) * (factor)))
+
 /**
  * Returns the offset of the element at the given `index`.
  *
@@ -432,7 +444,7 @@ ZyanStatus ZyanVectorPushBack(ZyanVector* vector, const void* element)
     if (ZYCORE_VECTOR_SHOULD_GROW(vector->size + 1, vector->capacity))
     {
         ZYAN_CHECK(ZyanVectorReallocate(vector,
-            ZYAN_MAX(1, (ZyanUSize)((vector->size + 1) * vector->growth_factor))));
+            ZYAN_MAX(1, ZYCORE_VECTOR_GROWN_CAPACITY(vector->size + 1, vector->growth_factor))));
     }
 
     void* const offset = ZYCORE_VECTOR_OFFSET(vector, vector->size);
@@ -466,7 +478,7 @@ ZyanStatus ZyanVectorInsertRange(ZyanVector* vector, ZyanUSize index, const void
     if (ZYCORE_VECTOR_SHOULD_GROW(vector->size + count, vector->capacity))
     {
         ZYAN_CHECK(ZyanVectorReallocate(vector,
-            ZYAN_MAX(1, (ZyanUSize)((vector->size + count) * vector->growth_factor))));
+            ZYAN_MAX(1, ZYCORE_VECTOR_GROWN_CAPACITY(vector->size + count, vector->growth_factor))));
     }
 
     if (index < vector->size)
@@ -509,7 +521,7 @@ ZyanStatus ZyanVectorEmplaceEx(ZyanVector* vector, ZyanUSize index, void** eleme
     if (ZYCORE_VECTOR_SHOULD_GROW(vector->size + 1, vector->capacity))
     {
         ZYAN_CHECK(ZyanVectorReallocate(vector,
-            ZYAN_MAX(1, (ZyanUSize)((vector->size + 1) * vector->growth_factor))));
+            ZYAN_MAX(1, ZYCORE_VECTOR_GROWN_CAPACITY(vector->size + 1, vector->growth_factor))));
     }
 
     if (index < vector->size)
@@ -611,7 +623,7 @@ ZyanStatus ZyanVectorDeleteRange(ZyanVector* vector, ZyanUSize index, ZyanUSize
         // Shrinking is optional. The elements are already gone and the current buffer stays valid, if
         // the allocator is not able to provide a smaller one
         (void)ZyanVectorReallocate(vector,
-            ZYAN_MAX(1, (ZyanUSize)(vector->size * vector->growth_factor)));
+            ZYAN_MAX(1, ZYCORE_VECTOR_GROWN_CAPACITY(vector->size, vector->growth_factor)));
     }
 
     return ZYAN_STATUS_SUCCESS;
@@ -639,7 +651,7 @@ ZyanStatus ZyanVectorPopBack(ZyanVector* vector)
         // Shrinking is optional. The elements are already gone and the current buffer stays valid, if
         // the allocator is not able to provide a smaller one
         (void)ZyanVectorReallocate(vector,
-            ZYAN_MAX(1, (ZyanUSize)(vector->size * vector->growth_factor)));
+            ZYAN_MAX(1, ZYCORE_VECTOR_GROWN_CAPACITY(vector->size, vector->growth_factor)));
     }
 
     return ZYAN_STATUS_SUCCESS;
@@ -786,14 +798,14 @@ ZyanStatus ZyanVectorResizeEx(ZyanVector* vector, ZyanUSize size, const void* in
     if (ZYCORE_VECTOR_SHOULD_GROW(size, vector->capacity))
     {
         ZYAN_ASSERT(vector->growth_factor >= 1);
-        ZYAN_CHECK(ZyanVectorReallocate(vector, (ZyanUSize)(size * vector->growth_factor)));
+        ZYAN_CHECK(ZyanVectorReallocate(vector, ZYCORE_VECTOR_GROWN_CAPACITY(size, vector->growth_factor)));
     } else
     if (ZYCORE_VECTOR_SHOULD_SHRINK(size, vector->capacity, vector->shrink_threshold))
     {
         // Shrinking is optional. The current buffer stays valid, if the allocator is not able to
         // provide a smaller one
         ZYAN_ASSERT(vector->growth_factor >= 1);
-        (void)ZyanVectorReallocate(vector, (ZyanUSize)(size * vector->growth_factor));
+        (void)ZyanVectorReallocate(vector, ZYCORE_VECTOR_GROWN_CAPACITY(size, vector->growth_factor));
     }
 
     if (initializer && (size > vector->size))
-- 
2.43.0


From bed464e338f1357119438fcb9f8d19d2a626a854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 07/30] fix: reject string sizes without space for the
 terminator

`ZyanStringResize` with the maximum size wrapped around to an empty vector and wrote the
terminating zero in front of the buffer.
---
 src/String.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/String.c b/src/String.c
index 49590d8..73bd020 100644
--- a/src/String.c
+++ b/src/String.c
@@ -1030,6 +1030,12 @@ ZyanStatus ZyanStringResize(ZyanString* string, ZyanUSize size)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    if (size == (ZyanUSize)(-1))
+    {
+        // No space for the terminating '\0' character
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     ZYAN_CHECK(ZyanVectorResize(&string->vector, size + 1));
     ZYCORE_STRING_NULLTERMINATE(string);
 
-- 
2.43.0


From ac8c203356ffcb69a761d4e2851a66f330ba693d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 08/30] fix: let sub-views cover the requested number of
 characters

The size of a view always includes the (virtual) terminating zero, but `ZyanStringViewInsideViewEx`
did not account for it. The resulting view was one character short and an empty one broke the
`size >= 1` invariant.
---
 src/String.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/String.c b/src/String.c
index 73bd020..1105730 100644
--- a/src/String.c
+++ b/src/String.c
@@ -274,7 +274,7 @@ ZyanStatus ZyanStringViewInsideViewEx(ZyanStringView* view, const ZyanStringView
     }
 
     view->string.vector.data = (void*)((char*)source->string.vector.data + index);
-    view->string.vector.size = count;
+    view->string.vector.size = count + 1;
 
     return ZYAN_STATUS_SUCCESS;
 }
-- 
2.43.0


From 07cd4daadc1548393231aa663e2d27e692e05b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 09/30] fix: do not read the uninitialized element size of
 string views

The view functions only set the data pointer and the size of a view, but `ZyanStringGetChar` used
the element size as well.
---
 src/String.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/String.c b/src/String.c
index 1105730..5c32ae6 100644
--- a/src/String.c
+++ b/src/String.c
@@ -342,14 +342,13 @@ ZyanStatus ZyanStringGetChar(const ZyanStringView* string, ZyanUSize index, char
     }
 
     // Don't allow direct access to the terminating '\0' character
-    if (index + 1 >= string->string.vector.size)
+    if ((index >= string->string.vector.size) || (index + 1 == string->string.vector.size))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
 
-    const char* chr;
-    ZYAN_CHECK(ZyanVectorGetPointer(&string->string.vector, index, (const void**)&chr));
-    *value = *chr;
+    // Views do only initialize the `data` and `size` fields of the vector
+    *value = *((const char*)string->string.vector.data + index);
 
     return ZYAN_STATUS_SUCCESS;
 }
-- 
2.43.0


From ad65f0ca1832d4886365603f77b00b4300a2accd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 10/30] fix: reserve space for the string terminator

After a successful `ZyanStringReserve` the string was only able to hold `capacity - 1` characters.
---
 src/String.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/String.c b/src/String.c
index 5c32ae6..b78f135 100644
--- a/src/String.c
+++ b/src/String.c
@@ -1048,7 +1048,13 @@ ZyanStatus ZyanStringReserve(ZyanString* string, ZyanUSize capacity)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    return ZyanVectorReserve(&string->vector, capacity);
+    if (capacity == (ZyanUSize)(-1))
+    {
+        // No space for the terminating '\0' character
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
+    return ZyanVectorReserve(&string->vector, capacity + 1);
 }
 
 ZyanStatus ZyanStringShrinkToFit(ZyanString* string)
-- 
2.43.0


From b344bae8b015c10a47a820cdc1ac57a441a64025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 11/30] fix: do not search for strings behind the end of a view

`ZyanStringLPosEx` and `ZyanStringLPosIEx` took the first zero byte as the end of the needle and
read past the end of views which are not followed by one.
---
 src/String.c | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/String.c b/src/String.c
index b78f135..02b0102 100644
--- a/src/String.c
+++ b/src/String.c
@@ -589,7 +589,9 @@ ZyanStatus ZyanStringLPosEx(const ZyanStringView* haystack, const ZyanStringView
 
     const char* s = (const char*)haystack->string.vector.data + index;
     const char* b = (const char*)needle->string.vector.data;
-    for (; s + 1 < (const char*)haystack->string.vector.data + haystack->string.vector.size; ++s)
+    const char* const s_end = s + count;
+    const char* const b_end = b + needle->string.vector.size - 1;
+    for (; s < s_end; ++s)
     {
         if (*s != *b)
         {
@@ -598,16 +600,16 @@ ZyanStatus ZyanStringLPosEx(const ZyanStringView* haystack, const ZyanStringView
         const char* a = s;
         for (;;)
         {
-            if ((ZyanUSize)(a - (const char*)haystack->string.vector.data) > index + count)
-            {
-                *found_index = -1;
-                return ZYAN_STATUS_FALSE;
-            }
-            if (*b == 0)
+            if (b == b_end)
             {
                 *found_index = (ZyanISize)(s - (const char*)haystack->string.vector.data);
                 return ZYAN_STATUS_TRUE;
             }
+            if (a == s_end)
+            {
+                *found_index = -1;
+                return ZYAN_STATUS_FALSE;
+            }
             if (*a++ != *b++)
             {
                 break;
@@ -659,7 +661,9 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
 
     const char* s = (const char*)haystack->string.vector.data + index;
     const char* b = (const char*)needle->string.vector.data;
-    for (; s + 1 < (const char*)haystack->string.vector.data + haystack->string.vector.size; ++s)
+    const char* const s_end = s + count;
+    const char* const b_end = b + needle->string.vector.size - 1;
+    for (; s < s_end; ++s)
     {
         if ((*s != *b) && ((*s ^ 32) != *b))
         {
@@ -668,16 +672,16 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
         const char* a = s;
         for (;;)
         {
-            if ((ZyanUSize)(a - (const char*)haystack->string.vector.data) > index + count)
-            {
-                *found_index = -1;
-                return ZYAN_STATUS_FALSE;
-            }
-            if (*b == 0)
+            if (b == b_end)
             {
                 *found_index = (ZyanISize)(s - (const char*)haystack->string.vector.data);
                 return ZYAN_STATUS_TRUE;
             }
+            if (a == s_end)
+            {
+                *found_index = -1;
+                return ZYAN_STATUS_FALSE;
+            }
             const char c1 = *a++;
             const char c2 = *b++;
             if ((c1 != c2) && ((c1 ^ 32) != c2))
-- 
2.43.0


From c68a1b84734e57f211547806fb08e03105cb2133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 12/30] fix: do not compare the terminators of string views

A view does not need to be zero-terminated. The comparison functions read one character past the
end of such a view and reported equal contents as not equal.
---
 src/String.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/String.c b/src/String.c
index 02b0102..49fa1d1 100644
--- a/src/String.c
+++ b/src/String.c
@@ -870,7 +870,8 @@ ZyanStatus ZyanStringCompare(const ZyanStringView* s1, const ZyanStringView* s2,
         break;
     }
 
-    if (a[i] == b[i])
+    // Don't access the terminating '\0' character. Views don't have to be zero-terminated
+    if (i + 1 >= s1->string.vector.size)
     {
         *result = 0;
         return ZYAN_STATUS_TRUE;
@@ -920,7 +921,8 @@ ZyanStatus ZyanStringCompareI(const ZyanStringView* s1, const ZyanStringView* s2
         break;
     }
 
-    if (a[i] == b[i])
+    // Don't access the terminating '\0' character. Views don't have to be zero-terminated
+    if (i + 1 >= s1->string.vector.size)
     {
         *result = 0;
         return ZYAN_STATUS_TRUE;
-- 
2.43.0


From aea2e8e6ba39cb6e27d72a352b91ff6ef4991af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 13/30] fix: respect the character case when ordering strings

`ZyanStringCompare` folded the first differing characters before comparing them and reported both
"A" > "a" and "a" > "A".
---
 src/String.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/String.c b/src/String.c
index 49fa1d1..7c0d6f9 100644
--- a/src/String.c
+++ b/src/String.c
@@ -877,7 +877,7 @@ ZyanStatus ZyanStringCompare(const ZyanStringView* s1, const ZyanStringView* s2,
         return ZYAN_STATUS_TRUE;
     }
 
-    if ((a[i] | 32) < (b[i] | 32))
+    if (a[i] < b[i])
     {
         *result = -1;
         return ZYAN_STATUS_FALSE;
-- 
2.43.0


From 6340e8bb6d794400c9700cf4a969f00dd6e242b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:19 +0000
Subject: [PATCH 14/30] fix: only fold letters in case-insensitive string
 functions

Flipping bit 5 of every character made e.g. '@' and '`' or '[' and '{' equal.
---
 src/String.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/String.c b/src/String.c
index 7c0d6f9..9d7c98a 100644
--- a/src/String.c
+++ b/src/String.c
@@ -43,6 +43,12 @@
 #define ZYCORE_STRING_ASSERT_NULLTERMINATION(string) \
       ZYAN_ASSERT(*(char*)((ZyanU8*)(string)->vector.data + (string)->vector.size - 1) == '\0');
 
+/**
+ * Converts an (ASCII) character to lower-case.
+ */
+#define ZYCORE_STRING_TO_LOWER(c) \
+      ((((c) >= 'A') && ((c) <= 'Z')) ? ((c) | 32) : (c))
+
 /* ============================================================================================== */
 /* Exported functions                                                                             */
 /* ============================================================================================== */
@@ -665,7 +671,7 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
     const char* const b_end = b + needle->string.vector.size - 1;
     for (; s < s_end; ++s)
     {
-        if ((*s != *b) && ((*s ^ 32) != *b))
+        if (ZYCORE_STRING_TO_LOWER(*s) != ZYCORE_STRING_TO_LOWER(*b))
         {
             continue;
         }
@@ -684,7 +690,7 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
             }
             const char c1 = *a++;
             const char c2 = *b++;
-            if ((c1 != c2) && ((c1 ^ 32) != c2))
+            if (ZYCORE_STRING_TO_LOWER(c1) != ZYCORE_STRING_TO_LOWER(c2))
             {
                 break;
             }
@@ -805,7 +811,7 @@ ZyanStatus ZyanStringRPosIEx(const ZyanStringView* haystack, const ZyanStringVie
     const char* b = (const char*)needle->string.vector.data + needle->string.vector.size - 2;
     for (; s >= (const char*)haystack->string.vector.data; --s)
     {
-        if ((*s != *b) && ((*s ^ 32) != *b))
+        if (ZYCORE_STRING_TO_LOWER(*s) != ZYCORE_STRING_TO_LOWER(*b))
         {
             continue;
         }
@@ -824,7 +830,7 @@ ZyanStatus ZyanStringRPosIEx(const ZyanStringView* haystack, const ZyanStringVie
             }
             const char c1 = *a--;
             const char c2 = *b--;
-            if ((c1 != c2) && ((c1 ^ 32) != c2))
+            if (ZYCORE_STRING_TO_LOWER(c1) != ZYCORE_STRING_TO_LOWER(c2))
             {
                 break;
             }
@@ -914,7 +920,7 @@ ZyanStatus ZyanStringCompareI(const ZyanStringView* s1, const ZyanStringView* s2
     ZyanUSize i;
     for (i = 0; (i + 1 < s1->string.vector.size) && (i + 1 < s2->string.vector.size); ++i)
     {
-        if ((a[i] == b[i]) || ((a[i] ^ 32) == b[i]))
+        if (ZYCORE_STRING_TO_LOWER(a[i]) == ZYCORE_STRING_TO_LOWER(b[i]))
         {
             continue;
         }
@@ -928,7 +934,7 @@ ZyanStatus ZyanStringCompareI(const ZyanStringView* s1, const ZyanStringView* s2
         return ZYAN_STATUS_TRUE;
     }
 
-    if ((a[i] | 32) < (b[i] | 32))
+    if (ZYCORE_STRING_TO_LOWER(a[i]) < ZYCORE_STRING_TO_LOWER(b[i]))
     {
         *result = -1;
         return ZYAN_STATUS_FALSE;
-- 
2.43.0


From 6adea21d67aa1aeba8687bd4ac803a561abc3edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:19 +0000
Subject: [PATCH 15/30] fix: format correctly if the string has to grow

`ZyanStringAppendFormat` used the argument list a second time after it had been consumed, limited
the second pass to the capacity remaining behind the already grown string, and left the string
without a terminating zero if growing failed.
---
 src/Format.c | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/Format.c b/src/Format.c
index 46d87e1..2a566c5 100644
--- a/src/Format.c
+++ b/src/Format.c
@@ -383,37 +383,35 @@ ZyanStatus ZyanStringAppendFormat(ZyanString* string, const char* format, ...)
 
     ZyanI32 w = ZYAN_VSNPRINTF((char*)string->vector.data + len - 1,
         string->vector.capacity - len + 1, format, arglist);
+    ZYAN_VA_END(arglist);
     if (w < 0)
     {
-        ZYAN_VA_END(arglist);
+        ZYCORE_STRING_NULLTERMINATE(string);
         return ZYAN_STATUS_FAILED;
     }
-    if (w <= (ZyanI32)(string->vector.capacity - len))
+    if ((ZyanUSize)w <= string->vector.capacity - len)
     {
         string->vector.size = len + w;
-
-        ZYAN_VA_END(arglist);
         return ZYAN_STATUS_SUCCESS;
     }
 
-    // The remaining capacity was not sufficent to fit the formatted string. Trying to resize ..
-    const ZyanStatus status = ZyanStringResize(string, string->vector.size + w - 1);
-    if (!ZYAN_SUCCESS(status))
-    {
-        ZYAN_VA_END(arglist);
-        return status;
-    }
+    // The remaining capacity was not sufficent to fit the formatted string. Remove the characters
+    // written so far and try to resize ..
+    ZYCORE_STRING_NULLTERMINATE(string);
+    ZYAN_CHECK(ZyanStringResize(string, len + w - 1));
 
-    w = ZYAN_VSNPRINTF((char*)string->vector.data + len - 1,
-        string->vector.capacity - string->vector.size + 1, format, arglist);
-    if (w < 0)
+    // The argument list has been consumed by the first call
+    ZYAN_VA_START(arglist, format);
+    const ZyanI32 n = ZYAN_VSNPRINTF((char*)string->vector.data + len - 1, (ZyanUSize)w + 1, format,
+        arglist);
+    ZYAN_VA_END(arglist);
+    if (n != w)
     {
-        ZYAN_VA_END(arglist);
+        string->vector.size = len;
+        ZYCORE_STRING_NULLTERMINATE(string);
         return ZYAN_STATUS_FAILED;
     }
-    ZYAN_ASSERT(w <= (ZyanI32)(string->vector.capacity - string->vector.size));
 
-    ZYAN_VA_END(arglist);
     return ZYAN_STATUS_SUCCESS;
 }
 
-- 
2.43.0


From 5c1dfe10ae704564024b2c7f63cece5a0c7bc595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 16/30] fix: append signed numbers completely or not at all

If the string was not able to grow, `ZyanStringAppendDecS` and `ZyanStringAppendHexS` failed but
left the already appended sign and prefix in the string.
---
 src/Format.c | 72 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 48 insertions(+), 24 deletions(-)

diff --git a/src/Format.c b/src/Format.c
index 2a566c5..4829cc8 100644
--- a/src/Format.c
+++ b/src/Format.c
@@ -436,27 +436,39 @@ ZyanStatus ZyanStringAppendDecU(ZyanString* string, ZyanU64 value, ZyanU8 paddin
 ZyanStatus ZyanStringAppendDecS(ZyanString* string, ZyanI64 value, ZyanU8 padding_length,
     ZyanBool force_sign, const ZyanStringView* prefix)
 {
-    if (value < 0)
+    if (!string)
     {
-        ZYAN_CHECK(ZyanStringAppend(string, &STR_SUB));
-        if (prefix)
-        {
-            ZYAN_CHECK(ZyanStringAppend(string, prefix));
-        }
-        return ZyanStringAppendDecU(string, ZyanAbsI64(value), padding_length);
+        return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    const ZyanUSize len = string->vector.size;
+
+    ZyanStatus status = ZYAN_STATUS_SUCCESS;
+    if (value < 0)
+    {
+        status = ZyanStringAppend(string, &STR_SUB);
+    } else
     if (force_sign)
     {
-        ZYAN_ASSERT(value >= 0);
-        ZYAN_CHECK(ZyanStringAppend(string, &STR_ADD));
+        status = ZyanStringAppend(string, &STR_ADD);
+    }
+    if (ZYAN_SUCCESS(status) && prefix)
+    {
+        status = ZyanStringAppend(string, prefix);
+    }
+    if (ZYAN_SUCCESS(status))
+    {
+        status = ZyanStringAppendDecU(string, ZyanAbsI64(value), padding_length);
     }
 
-    if (prefix)
+    if (!ZYAN_SUCCESS(status))
     {
-        ZYAN_CHECK(ZyanStringAppend(string, prefix));
+        // Remove the sign and the prefix
+        string->vector.size = len;
+        ZYCORE_STRING_NULLTERMINATE(string);
     }
-    return ZyanStringAppendDecU(string, value, padding_length);
+
+    return status;
 }
 
 ZyanStatus ZyanStringAppendHexU(ZyanString* string, ZyanU64 value, ZyanU8 padding_length,
@@ -477,27 +489,39 @@ ZyanStatus ZyanStringAppendHexU(ZyanString* string, ZyanU64 value, ZyanU8 paddin
 ZyanStatus ZyanStringAppendHexS(ZyanString* string, ZyanI64 value, ZyanU8 padding_length,
     ZyanBool uppercase, ZyanBool force_sign, const ZyanStringView* prefix)
 {
-    if (value < 0)
+    if (!string)
     {
-        ZYAN_CHECK(ZyanStringAppend(string, &STR_SUB));
-        if (prefix)
-        {
-            ZYAN_CHECK(ZyanStringAppend(string, prefix));
-        }
-        return ZyanStringAppendHexU(string, ZyanAbsI64(value), padding_length, uppercase);
+        return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    const ZyanUSize len = string->vector.size;
+
+    ZyanStatus status = ZYAN_STATUS_SUCCESS;
+    if (value < 0)
+    {
+        status = ZyanStringAppend(string, &STR_SUB);
+    } else
     if (force_sign)
     {
-        ZYAN_ASSERT(value >= 0);
-        ZYAN_CHECK(ZyanStringAppend(string, &STR_ADD));
+        status = ZyanStringAppend(string, &STR_ADD);
+    }
+    if (ZYAN_SUCCESS(status) && prefix)
+    {
+        status = ZyanStringAppend(string, prefix);
+    }
+    if (ZYAN_SUCCESS(status))
+    {
+        status = ZyanStringAppendHexU(string, ZyanAbsI64(value), padding_length, uppercase);
     }
 
-    if (prefix)
+    if (!ZYAN_SUCCESS(status))
     {
-        ZYAN_CHECK(ZyanStringAppend(string, prefix));
+        // Remove the sign and the prefix
+        string->vector.size = len;
+        ZYCORE_STRING_NULLTERMINATE(string);
     }
-    return ZyanStringAppendHexU(string, value, padding_length, uppercase);
+
+    return status;
 }
 
 /* ---------------------------------------------------------------------------------------------- */
-- 
2.43.0


From 546d70f8700d1784ad9dd9c5ebc32c0c88702802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 17/30] fix: do not leave garbage behind if a hex value can not
 be appended

If the second resize operation failed, the string kept the (uninitialized) characters reserved for
the padding.
---
 src/Format.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/Format.c b/src/Format.c
index 4829cc8..ae23589 100644
--- a/src/Format.c
+++ b/src/Format.c
@@ -226,7 +226,14 @@ ZyanStatus ZyanStringAppendHexU32(ZyanString* string, ZyanU32 value, ZyanU8 padd
             }
             if (remaining <= (ZyanU8)i)
             {
-                ZYAN_CHECK(ZyanStringResize(string, string->vector.size + i));
+                const ZyanStatus status = ZyanStringResize(string, len + i);
+                if (!ZYAN_SUCCESS(status))
+                {
+                    // The string might have been resized for the padding already
+                    string->vector.size = len;
+                    ZYCORE_STRING_NULLTERMINATE(string);
+                    return status;
+                }
             }
             buffer = (char*)string->vector.data + len - 1;
             if (padding_length > i)
@@ -298,7 +305,14 @@ ZyanStatus ZyanStringAppendHexU64(ZyanString* string, ZyanU64 value, ZyanU8 padd
             }
             if (remaining <= (ZyanU8)i)
             {
-                ZYAN_CHECK(ZyanStringResize(string, string->vector.size + i));
+                const ZyanStatus status = ZyanStringResize(string, len + i);
+                if (!ZYAN_SUCCESS(status))
+                {
+                    // The string might have been resized for the padding already
+                    string->vector.size = len;
+                    ZYCORE_STRING_NULLTERMINATE(string);
+                    return status;
+                }
             }
             buffer = (char*)string->vector.data + len - 1;
             if (padding_length > i)
-- 
2.43.0


From 3467855e09ad26aaccbb259299af964acd534af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 18/30] fix: round the number of bytes used by a bitset up

The integer division always rounded down. The last bits of a bitset with a size that is not a
multiple of 8 had no storage and could neither be read nor written.
---
 src/Bitset.c | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/Bitset.c b/src/Bitset.c
index b1c733d..e1c4500 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -38,16 +38,6 @@
 /* Internal macros                                                                                */
 /* ============================================================================================== */
 
-/**
- * Computes the smallest integer value not less than `x`.
- *
- * @param   x   The value.
- *
- * @return  The smallest integer value not less than `x`.
- */
-#define ZYAN_BITSET_CEIL(x) \
-    (((x) == ((ZyanU32)(x))) ? (ZyanU32)(x) : ((ZyanU32)(x)) + 1)
-
 /**
  * Converts bits to bytes.
  *
@@ -56,7 +46,7 @@
  * @return  The amount of bytes needed to fit `x` bits.
  */
 #define ZYAN_BITSET_BITS_TO_BYTES(x) \
-    ZYAN_BITSET_CEIL((x) / 8)
+    ((x) / 8 + (((x) % 8) ? 1 : 0))
 
 /**
  * Returns the offset of the given bit.
@@ -147,7 +137,7 @@ ZyanStatus ZyanBitsetInitEx(ZyanBitset* bitset, ZyanUSize count, ZyanAllocator*
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    const ZyanU32 bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
+    const ZyanUSize bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
 
     bitset->size = count;
     ZYAN_CHECK(ZyanVectorInitEx(&bitset->bits, sizeof(ZyanU8), bytes, ZYAN_NULL, allocator,
@@ -165,7 +155,7 @@ ZyanStatus ZyanBitsetInitBuffer(ZyanBitset* bitset, ZyanUSize count, void* buffe
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    const ZyanU32 bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
+    const ZyanUSize bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
     if (capacity < bytes)
     {
         return ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE;
-- 
2.43.0


From 6a0f04585de5daf8e9019285d2b11eac9deadc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 19/30] fix: ignore the unused bits of the last bitset byte

`ZyanBitsetCount` included stale bits behind the end of the bitset and the mask used by
`ZyanBitsetAll`, `ZyanBitsetAny` and `ZyanBitsetNone` did not select the bits in use.
---
 src/Bitset.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/Bitset.c b/src/Bitset.c
index e1c4500..31325d1 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -58,6 +58,16 @@
 #define ZYAN_BITSET_BIT_OFFSET(index) \
     (7 - ((index) % 8))
 
+/**
+ * Returns the mask of the bits that are in use in the last byte of a bitset.
+ *
+ * @param   size    The size of the bitset in bits.
+ *
+ * @return  The mask of the bits that are in use in the last byte.
+ */
+#define ZYAN_BITSET_LAST_BYTE_MASK(size) \
+    ((ZyanU8)(((size) % 8) ? (0xFF << (8 - ((size) % 8))) : 0xFF))
+
 /* ============================================================================================== */
 /* Internal functions                                                                             */
 /* ============================================================================================== */
@@ -513,6 +523,10 @@ ZyanStatus ZyanBitsetCount(const ZyanBitset* bitset, ZyanUSize* count)
         ZYAN_CHECK(ZyanVectorGetPointer(&bitset->bits, i, (const void**)&value));
 
         ZyanU8 popcnt = *value;
+        if (i == (size - 1))
+        {
+            popcnt &= ZYAN_BITSET_LAST_BYTE_MASK(bitset->size);
+        }
         popcnt = (popcnt & 0x55) + ((popcnt >> 1) & 0x55);
         popcnt = (popcnt & 0x33) + ((popcnt >> 2) & 0x33);
         popcnt = (popcnt & 0x0F) + ((popcnt >> 4) & 0x0F);
@@ -546,7 +560,7 @@ ZyanStatus ZyanBitsetAll(const ZyanBitset* bitset)
             }
         } else
         {
-            const ZyanU8 mask = ~(8 - (bitset->size % 8));
+            const ZyanU8 mask = ZYAN_BITSET_LAST_BYTE_MASK(bitset->size);
             if ((*value & mask) != mask)
             {
                 return ZYAN_STATUS_FALSE;
@@ -578,7 +592,7 @@ ZyanStatus ZyanBitsetAny(const ZyanBitset* bitset)
             }
         } else
         {
-            const ZyanU8 mask = ~(8 - (bitset->size % 8));
+            const ZyanU8 mask = ZYAN_BITSET_LAST_BYTE_MASK(bitset->size);
             if ((*value & mask) != 0x00)
             {
                 return ZYAN_STATUS_TRUE;
@@ -610,7 +624,7 @@ ZyanStatus ZyanBitsetNone(const ZyanBitset* bitset)
             }
         } else
         {
-            const ZyanU8 mask = ~(8 - (bitset->size % 8));
+            const ZyanU8 mask = ZYAN_BITSET_LAST_BYTE_MASK(bitset->size);
             if ((*value & mask) != 0x00)
             {
                 return ZYAN_STATUS_FALSE;
-- 
2.43.0


From 920f789b6bb259f4eac6169d958178cd3f62c273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 20/30] fix: do not grow the bitset size if the new byte can
 not be allocated

After a failed `ZyanBitsetPush` the size included a bit without storage and every following push
of the same byte was lost.
---
 src/Bitset.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Bitset.c b/src/Bitset.c
index 31325d1..074d6a6 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -411,11 +411,12 @@ ZyanStatus ZyanBitsetPush(ZyanBitset* bitset, ZyanBool value)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if ((bitset->size++ % 8) == 0)
+    if ((bitset->size % 8) == 0)
     {
         static const ZyanU8 zero = 0;
         ZYAN_CHECK(ZyanVectorPushBack(&bitset->bits, &zero));
     }
+    ++bitset->size;
 
     return ZyanBitsetAssign(bitset, bitset->size - 1, value);
 }
-- 
2.43.0


From 9598306a8267f8c048d16be4face7b34c01b23c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 21/30] fix: refuse to pop bits off an empty bitset

The size of the bitset wrapped around.
---
 src/Bitset.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Bitset.c b/src/Bitset.c
index 074d6a6..0f22e77 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -428,6 +428,11 @@ ZyanStatus ZyanBitsetPop(ZyanBitset* bitset)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    if (bitset->size == 0)
+    {
+        return ZYAN_STATUS_OUT_OF_RANGE;
+    }
+
     if ((--bitset->size % 8) == 0)
     {
         return ZyanVectorPopBack(&bitset->bits);
-- 
2.43.0


From 6635c14c1dc1c72c337d1899de9c50f4cceda766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 22/30] fix: respect the status of list emplace constructors

Items have been added to the list even if the constructor failed.
---
 src/List.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/List.c b/src/List.c
index e233da8..062353e 100644
--- a/src/List.c
+++ b/src/List.c
@@ -406,7 +406,12 @@ ZyanStatus ZyanListEmplaceBack(ZyanList* list, void** item, ZyanMemberFunction c
     *item = ZYCORE_LIST_GET_NODE_DATA(node);
     if (constructor)
     {
-        constructor(*item);
+        const ZyanStatus status = constructor(*item);
+        if (!ZYAN_SUCCESS(status))
+        {
+            ZYAN_CHECK(ZyanListDeallocateNode(list, node));
+            return status;
+        }
     }
 
     if (!list->head)
@@ -438,7 +443,12 @@ ZyanStatus ZyanListEmplaceFront(ZyanList* list, void** item, ZyanMemberFunction
     *item = ZYCORE_LIST_GET_NODE_DATA(node);
     if (constructor)
     {
-        constructor(*item);
+        const ZyanStatus status = constructor(*item);
+        if (!ZYAN_SUCCESS(status))
+        {
+            ZYAN_CHECK(ZyanListDeallocateNode(list, node));
+            return status;
+        }
     }
 
     if (!list->head)
-- 
2.43.0


From e63635ef9892eb2a9ee7dc79bfc66d9a1fa365bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 23/30] fix: do not grow the list partially

If one of the new nodes could not be allocated, `ZyanListResizeEx` failed but kept the nodes that
had been added before.
---
 src/List.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/List.c b/src/List.c
index 062353e..78b7ae2 100644
--- a/src/List.c
+++ b/src/List.c
@@ -611,10 +611,30 @@ ZyanStatus ZyanListResizeEx(ZyanList* list, ZyanUSize size, const void* initiali
 
     if (size > list->size)
     {
+        const ZyanUSize old_size = list->size;
         ZyanListNode* node;
-        for (ZyanUSize i = list->size; i < size; ++i)
+        for (ZyanUSize i = old_size; i < size; ++i)
         {
-            ZYAN_CHECK(ZyanListAllocateNode(list, &node));
+            const ZyanStatus status = ZyanListAllocateNode(list, &node);
+            if (!ZYAN_SUCCESS(status))
+            {
+                // Remove the nodes added so far
+                while (list->size > old_size)
+                {
+                    node = list->tail;
+                    list->tail = node->prev;
+                    if (list->tail)
+                    {
+                        list->tail->next = ZYAN_NULL;
+                    } else
+                    {
+                        list->head = ZYAN_NULL;
+                    }
+                    --list->size;
+                    ZYAN_CHECK(ZyanListDeallocateNode(list, node));
+                }
+                return status;
+            }
             node->prev = list->tail;
             node->next = ZYAN_NULL;
 
-- 
2.43.0


From a84decfc4a0b5ebbfda126ef8a2ffeaf1b8992d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 24/30] fix: remove nodes from the list

`ZyanListRemove` and `ZyanListRemoveRange` reported success without doing anything.
---
 src/List.c | 45 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/List.c b/src/List.c
index 78b7ae2..93833e1 100644
--- a/src/List.c
+++ b/src/List.c
@@ -535,16 +535,49 @@ ZyanStatus ZyanListPopFront(ZyanList* list)
 
 ZyanStatus ZyanListRemove(ZyanList* list, const ZyanListNode* node)
 {
-    ZYAN_UNUSED(list);
-    ZYAN_UNUSED(node);
-    return ZYAN_STATUS_SUCCESS;
+    return ZyanListRemoveRange(list, node, node);
 }
 
 ZyanStatus ZyanListRemoveRange(ZyanList* list, const ZyanListNode* first, const ZyanListNode* last)
 {
-    ZYAN_UNUSED(list);
-    ZYAN_UNUSED(first);
-    ZYAN_UNUSED(last);
+    if (!list || !first || !last)
+    {
+        return ZYAN_STATUS_INVALID_ARGUMENT;
+    }
+
+    ZyanListNode* const prev = first->prev;
+    ZyanListNode* const end = last->next;
+    ZyanListNode* node = prev ? prev->next : list->head;
+
+    if (prev)
+    {
+        prev->next = end;
+    } else
+    {
+        list->head = end;
+    }
+    if (end)
+    {
+        end->prev = prev;
+    } else
+    {
+        list->tail = prev;
+    }
+
+    while (node != end)
+    {
+        ZyanListNode* const next = node->next;
+
+        if (list->destructor)
+        {
+            list->destructor(ZYCORE_LIST_GET_NODE_DATA(node));
+        }
+        --list->size;
+        ZYAN_CHECK(ZyanListDeallocateNode(list, node));
+
+        node = next;
+    }
+
     return ZYAN_STATUS_SUCCESS;
 }
 
-- 
2.43.0


From 7a57589119271ba9a1170a692b8f768fd5252571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 25/30] fix: do not treat boolean short arguments as unnamed
 ones

A token that consists of boolean arguments only (e.g. `-ab`) was parsed and then counted and
stored as an unnamed argument a second time.
---
 src/ArgParse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ArgParse.c b/src/ArgParse.c
index 109cfc8..9d3b97e 100644
--- a/src/ArgParse.c
+++ b/src/ArgParse.c
@@ -205,6 +205,9 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
                     goto continue_main_loop;
                 }
             }
+
+            // Token contained only boolean arguments, continue with next argument.
+            goto continue_main_loop;
         }
 
         // Still here? We're looking at an unnamed argument.
-- 
2.43.0


From 3255cee7b82eac08e912b144384b4f08c8121393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 26/30] fix: do not leak the argument vector if it can not grow

The vector has been left initialized, if adding an argument failed. On errors, the caller must not
destroy it.
---
 src/ArgParse.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ArgParse.c b/src/ArgParse.c
index 9d3b97e..ce915a1 100644
--- a/src/ArgParse.c
+++ b/src/ArgParse.c
@@ -105,7 +105,8 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
             {
                 // Allocate parsed argument struct.
                 ZyanArgParseArg* parsed_arg;
-                ZYAN_CHECK(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
+                err = ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL);
+                if (!ZYAN_SUCCESS(err)) goto failure;
                 ZYAN_MEMSET(parsed_arg, 0, sizeof(*parsed_arg));
 
                 // Find corresponding argument definition.
@@ -155,7 +156,8 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
             {
                 // Allocate parsed argument struct.
                 ZyanArgParseArg* parsed_arg;
-                ZYAN_CHECK(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
+                err = ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL);
+                if (!ZYAN_SUCCESS(err)) goto failure;
                 ZYAN_MEMSET(parsed_arg, 0, sizeof(*parsed_arg));
 
                 // Find corresponding argument definition.
@@ -221,7 +223,8 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
 
         // Allocate parsed argument struct.
         ZyanArgParseArg* parsed_arg;
-        ZYAN_CHECK(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
+        err = ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL);
+        if (!ZYAN_SUCCESS(err)) goto failure;
         ZYAN_MEMSET(parsed_arg, 0, sizeof(*parsed_arg));
         parsed_arg->has_value = ZYAN_TRUE;
         ZYAN_CHECK(ZyanStringViewInsideBuffer(&parsed_arg->value, cur_arg));
-- 
2.43.0


From 978660049edc23b81a290feacff7db6c21998b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 27/30] fix: do not give up reserved capacity while growing

`ZyanVectorResizeEx` shrinked the buffer even if elements were added. Appending to a string for
which capacity had been reserved released the reserved memory again.
---
 src/Vector.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Vector.c b/src/Vector.c
index 3b272b5..bc76bdc 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -800,7 +800,8 @@ ZyanStatus ZyanVectorResizeEx(ZyanVector* vector, ZyanUSize size, const void* in
         ZYAN_ASSERT(vector->growth_factor >= 1);
         ZYAN_CHECK(ZyanVectorReallocate(vector, ZYCORE_VECTOR_GROWN_CAPACITY(size, vector->growth_factor)));
     } else
-    if (ZYCORE_VECTOR_SHOULD_SHRINK(size, vector->capacity, vector->shrink_threshold))
+    if ((size < vector->size) &&
+        ZYCORE_VECTOR_SHOULD_SHRINK(size, vector->capacity, vector->shrink_threshold))
     {
         // Shrinking is optional. The current buffer stays valid, if the allocator is not able to
         // provide a smaller one
-- 
2.43.0


From 4f39fdfd05200cd4871949f5ba504bd6986bd9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:28 +0000
Subject: [PATCH 28/30] fix: reject string capacities without space for the
 terminator

---
 src/String.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/String.c b/src/String.c
index 9d7c98a..2889310 100644
--- a/src/String.c
+++ b/src/String.c
@@ -75,6 +75,12 @@ ZyanStatus ZyanStringInitEx(ZyanString* string, ZyanUSize capacity, ZyanAllocato
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    if (capacity == (ZyanUSize)(-1))
+    {
+        // No space for the terminating '\0' character
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     string->flags = 0;
     capacity = ZYAN_MAX(ZYAN_STRING_MIN_CAPACITY, capacity) + 1;
     ZYAN_CHECK(ZyanVectorInitEx(&string->vector, sizeof(char), capacity, ZYAN_NULL, allocator,
-- 
2.43.0


From abef3c4a8806dec7345947e2c069bab59186e477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:07 +0000
Subject: [PATCH 29/30] fix: do not allocate list nodes with a size that wraps
 around

---
 src/List.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/List.c b/src/List.c
index 93833e1..72a33d9 100644
--- a/src/List.c
+++ b/src/List.c
@@ -63,6 +63,11 @@ static ZyanStatus ZyanListAllocateNode(ZyanList* list, ZyanListNode** node)
     ZYAN_ASSERT(node);
 
     const ZyanBool is_dynamic = (list->allocator != ZYAN_NULL);
+    if (list->element_size > (ZyanUSize)(-1) - sizeof(ZyanListNode))
+    {
+        // The node size is not representable
+        return is_dynamic ? ZYAN_STATUS_NOT_ENOUGH_MEMORY : ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE;
+    }
     if (is_dynamic)
     {
         ZYAN_ASSERT(list->allocator->allocate);
-- 
2.43.0


From 20cb242840fe05be2926d6efb0160cdf31bc7cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:51 +0000
Subject: [PATCH 30/30] fix: Don't evaluate a stale errno in ZyanTerminalIsTTY

_isatty only sets errno for bad descriptors. A stale EBADF from an earlier call made a valid stream
that is not a terminal look like an invalid one.
---
 src/API/Terminal.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/API/Terminal.c b/src/API/Terminal.c
index 382bd78..a266289 100644
--- a/src/API/Terminal.c
+++ b/src/API/Terminal.c
@@ -137,6 +137,9 @@ ZyanStatus ZyanTerminalIsTTY(ZyanStandardStream stream)
     }
 #endif
 
+    // Not all implementations set `errno` for valid descriptors, a stale value must not be evaluated
+    ZYAN_ERRNO = 0;
+
 #ifdef ZYAN_WINDOWS
     if (_isatty(file))
 #else
-- 
2.43.0

